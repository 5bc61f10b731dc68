use std::io::Write;
use std::process::{Command, Stdio};

pub mod config {
    #[derive(Debug, Clone, Default)]
    pub struct Config {
        pub normalize_doc_attributes: Option<bool>,
        pub wrap_comments: Option<bool>,
        pub format_strings: Option<bool>,
        pub max_width: Option<usize>,
    }
}

#[derive(Debug)]
pub enum Error {
    NoRustfmt,
    Rustfmt(String),
    Io(std::io::Error),
}

impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

pub fn rustfmt<T: ToString>(input: T) -> Result<String, Error> {
    rustfmt_config(Default::default(), input)
}

pub fn rustfmt_config<T: ToString>(_config: config::Config, input: T) -> Result<String, Error> {
    let mut c = Command::new("rustfmt")
        .args(["--edition", "2021", "--emit", "stdout"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|_| Error::NoRustfmt)?;
    let mut stdin = c.stdin.take().unwrap();
    let text = input.to_string();
    let w = std::thread::spawn(move || stdin.write_all(text.as_bytes()));
    let out = c.wait_with_output().map_err(Error::Io)?;
    let _ = w.join();
    if !out.status.success() {
        return Err(Error::Rustfmt(String::from_utf8_lossy(&out.stderr).to_string()));
    }
    String::from_utf8(out.stdout).map_err(|e| Error::Rustfmt(e.to_string()))
}
