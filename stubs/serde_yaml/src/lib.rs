use serde::de::DeserializeOwned;
use serde_json::Value;

#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}

type Result<T> = std::result::Result<T, Error>;

pub fn from_reader<R: std::io::Read, T: DeserializeOwned>(mut r: R) -> Result<T> {
    let mut s = String::new();
    r.read_to_string(&mut s).map_err(|e| Error(e.to_string()))?;
    from_str(&s)
}

pub fn from_str<T: DeserializeOwned>(s: &str) -> Result<T> {
    serde_json::from_value(parse(s)?).map_err(|e| Error(e.to_string()))
}

pub fn from_slice<T: DeserializeOwned>(s: &[u8]) -> Result<T> {
    from_str(std::str::from_utf8(s).map_err(|e| Error(e.to_string()))?)
}

fn parse(s: &str) -> Result<Value> {
    if let Ok(v) = serde_json::from_str(s) {
        return Ok(v);
    }
    let lines: Vec<(usize, &str)> = s
        .lines()
        .filter(|l| !l.trim().is_empty() && !l.trim_start().starts_with('#') && l.trim() != "---")
        .map(|l| (l.len() - l.trim_start().len(), l.trim()))
        .collect();
    if lines.is_empty() {
        return Ok(Value::Null);
    }
    let mut k = 0;
    let v = block(&lines, &mut k)?;
    if k != lines.len() {
        return Err(Error(format!("unexpected line {:?}", lines[k].1)));
    }
    Ok(v)
}

fn scalar(t: &str) -> Value {
    serde_json::from_str(t).unwrap_or_else(|_| Value::String(t.trim_matches('\'').to_string()))
}

/// The key of "key: rest" and the rest.
fn entry(t: &str) -> Option<(String, &str)> {
    if t.starts_with('"') {
        let mut it = serde_json::Deserializer::from_str(t).into_iter::<String>();
        let key = it.next()?.ok()?;
        let rest = &t[it.byte_offset()..];
        return rest.strip_prefix(':').map(|r| (key, r.trim()));
    }
    let p = t.find(": ").or_else(|| t.ends_with(':').then(|| t.len() - 1))?;
    Some((t[..p].trim_matches('\'').to_string(), t[p + 1..].trim()))
}

fn block(l: &[(usize, &str)], k: &mut usize) -> Result<Value> {
    let at = l[*k].0;
    if l[*k].1 == "-" {
        let mut out = vec![];
        while *k < l.len() && l[*k].0 == at && l[*k].1 == "-" {
            *k += 1;
            if *k >= l.len() || l[*k].0 <= at {
                return Err(Error("empty item".into()));
            }
            out.push(block(l, k)?);
        }
        return Ok(Value::Array(out));
    }
    if entry(l[*k].1).is_none() {
        let v = scalar(l[*k].1);
        *k += 1;
        return Ok(v);
    }
    let mut out = serde_json::Map::new();
    while *k < l.len() && l[*k].0 == at {
        let Some((key, rest)) = entry(l[*k].1) else {
            return Err(Error(format!("not an entry: {:?}", l[*k].1)));
        };
        *k += 1;
        let v = if !rest.is_empty() {
            scalar(rest)
        } else if *k < l.len() && l[*k].0 > at {
            block(l, k)?
        } else {
            Value::Null
        };
        out.insert(key, v);
    }
    Ok(Value::Object(out))
}
