//! A tiny HTTP server for demonstrations: answers each connection's first
//! request with the next canned response and reports what it received.
#![allow(dead_code)]
use std::io::{Read, Write};
use std::net::TcpListener;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Default)]
pub struct Seen {
    pub line: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}
impl Seen {
    pub fn target(&self) -> &str {
        self.line.split(' ').nth(1).unwrap_or("")
    }
    pub fn header(&self, n: &str) -> Vec<&str> {
        self.headers.iter().filter(|(k, _)| k.eq_ignore_ascii_case(n)).map(|(_, v)| v.as_str()).collect()
    }
}

#[derive(Clone)]
pub struct Server {
    pub url: String,
    seen: Arc<Mutex<Vec<Seen>>>,
}
impl Server {
    pub fn seen(&self) -> Vec<Seen> {
        self.seen.lock().unwrap().clone()
    }
}

pub fn resp(status: u16, headers: &str, body: &str) -> Vec<u8> {
    format!("HTTP/1.1 {status} X\r\ncontent-length: {}\r\nconnection: close\r\n{headers}\r\n{body}", body.len()).into_bytes()
}
pub fn json(status: u16, body: &str) -> Vec<u8> {
    resp(status, "content-type: application/json\r\n", body)
}

/// The last response is repeated for ever.
pub fn serve(responses: Vec<Vec<u8>>) -> Server {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let url = format!("http://{}", l.local_addr().unwrap());
    let seen = Arc::new(Mutex::new(vec![]));
    let s2 = seen.clone();
    std::thread::spawn(move || {
        let mut n = 0;
        for c in l.incoming() {
            let Ok(mut c) = c else { continue };
            let mut buf = vec![];
            let mut tmp = [0u8; 4096];
            let head = loop {
                if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
                    break p;
                }
                match c.read(&mut tmp) {
                    Ok(k) if k > 0 => buf.extend_from_slice(&tmp[..k]),
                    _ => break usize::MAX,
                }
            };
            if head == usize::MAX {
                continue;
            }
            let text = String::from_utf8_lossy(&buf[..head]).to_string();
            let mut ls = text.split("\r\n");
            let mut s = Seen { line: ls.next().unwrap_or("").to_string(), ..Default::default() };
            for h in ls {
                if let Some((k, v)) = h.split_once(':') {
                    s.headers.push((k.to_string(), v.trim().to_string()));
                }
            }
            let want: usize = s.header("content-length").first().and_then(|v| v.parse().ok()).unwrap_or(0);
            s.body = buf[head + 4..].to_vec();
            while s.body.len() < want {
                match c.read(&mut tmp) {
                    Ok(k) if k > 0 => s.body.extend_from_slice(&tmp[..k]),
                    _ => break,
                }
            }
            s2.lock().unwrap().push(s);
            let r = responses[n.min(responses.len() - 1)].clone();
            n += 1;
            let _ = c.write_all(&r);
            let _ = c.flush();
            let _ = c.shutdown(std::net::Shutdown::Write);
            let _ = c.set_read_timeout(Some(std::time::Duration::from_millis(200)));
            while matches!(c.read(&mut tmp), Ok(k) if k > 0) {}
        }
    });
    Server { url, seen }
}

pub fn expect(what: &str, ok: bool, got: impl std::fmt::Debug) {
    if ok {
        println!("ok: {what}");
    } else {
        println!("FAILED: {what}: got {got:?}");
        std::process::exit(1);
    }
}
