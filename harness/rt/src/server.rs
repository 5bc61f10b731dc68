//! A raw HTTP/1.1 server that logs exactly the bytes it is sent and plays
//! scripted answers, including malformed and truncated ones.

use crate::Log;
use serde_json::{json, Value};
use std::collections::VecDeque;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio::sync::Semaphore;

#[derive(Clone)]
pub struct Server {
    pub port: u16,
    inner: Arc<Inner>,
    task: Arc<tokio::task::JoinHandle<()>>,
}
struct Inner {
    log: Log,
    script: Mutex<VecDeque<Value>>,
    gate: Semaphore,
    active: AtomicUsize,
}

impl Server {
    pub async fn start(log: Log, script: Value) -> Self {
        let l = TcpListener::bind("127.0.0.1:0").await.expect("bind");
        let port = l.local_addr().unwrap().port();
        let script = script.as_array().cloned().unwrap_or_default().into();
        let inner = Arc::new(Inner {
            log,
            script: Mutex::new(script),
            gate: Semaphore::new(0),
            active: AtomicUsize::new(0),
        });
        let i2 = inner.clone();
        let task = tokio::spawn(async move {
            loop {
                let Ok((s, _)) = l.accept().await else { break };
                i2.active.fetch_add(1, Ordering::SeqCst);
                let i3 = i2.clone();
                tokio::spawn(async move {
                    let _ = tokio::time::timeout(Duration::from_secs(30), conn(&i3, s)).await;
                    i3.active.fetch_sub(1, Ordering::SeqCst);
                });
            }
        });
        Self { port, inner, task: Arc::new(task) }
    }
    pub fn url(&self, base: &str) -> String {
        format!("http://127.0.0.1:{}{}", self.port, base)
    }
    /// Lets one pending `gate` action proceed.
    pub fn open_gate(&self) {
        self.inner.gate.add_permits(1)
    }
    pub fn stop(&self) {
        self.task.abort()
    }
    /// Waits (briefly) for connections to be finished so that the log is complete.
    pub async fn settle(&self) {
        self.inner.gate.add_permits(1000);
        for _ in 0..400 {
            tokio::task::yield_now().await;
            if self.inner.active.load(Ordering::SeqCst) == 0 {
                return;
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
    }
}

async fn conn(inner: &Inner, mut s: TcpStream) {
    let _ = s.set_nodelay(true);
    let mut buf: Vec<u8> = vec![];
    loop {
        let Some(req) = read_request(&mut s, &mut buf).await else { return };
        let req_head = req.get("method").is_some();
        inner.log.push(req);
        if !req_head {
            return;
        }
        let script = inner.script.lock().unwrap().pop_front();
        let acts = match script {
            Some(Value::Array(a)) => a,
            _ => vec![json!({"text": "HTTP/1.1 200 OK\r\ncontent-type: application/json\r\ncontent-length: 4\r\nconnection: close\r\n\r\nnull"})],
        };
        let mut keep = false;
        for act in acts {
            if let Some(t) = act.get("text").and_then(|t| t.as_str()) {
                if s.write_all(t.as_bytes()).await.is_err() {
                    return;
                }
                let _ = s.flush().await;
            } else if let Some(a) = act.get("bytes").and_then(|t| t.as_array()) {
                let v: Vec<u8> = a.iter().map(|x| x.as_u64().unwrap() as u8).collect();
                if s.write_all(&v).await.is_err() {
                    return;
                }
                let _ = s.flush().await;
            } else if act.get("gate").is_some() {
                if let Ok(p) = inner.gate.acquire().await {
                    p.forget();
                }
            } else if let Some(ms) = act.get("sleep").and_then(|t| t.as_u64()) {
                tokio::time::sleep(Duration::from_millis(ms)).await;
            } else if act.get("rst").is_some() {
                #[allow(deprecated)]
                let _ = s.set_linger(Some(Duration::ZERO));
                return;
            } else if act.get("echo").is_some() {
                // after a protocol switch: log and echo everything
                let mut got = std::mem::take(&mut buf);
                if !got.is_empty() {
                    let _ = s.write_all(&got).await;
                }
                let mut tmp = [0u8; 4096];
                loop {
                    match s.read(&mut tmp).await {
                        Ok(0) | Err(_) => break,
                        Ok(n) => {
                            got.extend_from_slice(&tmp[..n]);
                            if s.write_all(&tmp[..n]).await.is_err() {
                                break;
                            }
                        }
                    }
                }
                inner.log.push(json!({"e": "tunnel", "bytes": got}));
                return;
            } else if act.get("keep").is_some() {
                keep = true;
            }
        }
        if !keep {
            let _ = s.shutdown().await;
            // drain so that the client never sees a reset caused by us
            let mut tmp = [0u8; 1024];
            let _ = tokio::time::timeout(Duration::from_millis(500), async {
                while let Ok(n) = s.read(&mut tmp).await {
                    if n == 0 {
                        break;
                    }
                }
            })
            .await;
            return;
        }
    }
}

async fn fill(s: &mut TcpStream, buf: &mut Vec<u8>) -> bool {
    let mut tmp = [0u8; 8192];
    match s.read(&mut tmp).await {
        Ok(n) if n > 0 => {
            buf.extend_from_slice(&tmp[..n]);
            true
        }
        _ => false,
    }
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

/// Reads one request. Logs the raw request target and header values.
pub async fn read_request(s: &mut TcpStream, buf: &mut Vec<u8>) -> Option<Value> {
    let end = loop {
        if let Some(p) = find(buf, b"\r\n\r\n") {
            break p;
        }
        if !fill(s, buf).await {
            return if buf.is_empty() { None } else { Some(json!({"e": "req", "bad": true})) };
        }
    };
    let head: Vec<u8> = buf.drain(..end + 4).collect();
    let head = &head[..end];
    let mut lines: Vec<&[u8]> = vec![];
    let mut rest = head;
    while let Some(p) = find(rest, b"\r\n") {
        lines.push(&rest[..p]);
        rest = &rest[p + 2..];
    }
    lines.push(rest);
    let rl = lines[0];
    let a = rl.iter().position(|c| *c == b' ').unwrap_or(rl.len());
    let z = rl.iter().rposition(|c| *c == b' ').unwrap_or(rl.len());
    let method = String::from_utf8_lossy(&rl[..a]).to_string();
    let target: &[u8] = if z > a { &rl[a + 1..z] } else { b"" };
    let mut headers = vec![];
    let (mut clen, mut chunked) = (None, false);
    for l in &lines[1..] {
        let p = l.iter().position(|c| *c == b':').unwrap_or(l.len());
        let name = String::from_utf8_lossy(&l[..p]).to_ascii_lowercase();
        let mut v = &l[(p + 1).min(l.len())..];
        while v.first() == Some(&b' ') || v.first() == Some(&b'\t') {
            v = &v[1..];
        }
        if name == "content-length" {
            clen = std::str::from_utf8(v).ok().and_then(|s| s.trim().parse::<usize>().ok());
        }
        if name == "transfer-encoding" {
            chunked = true;
        }
        headers.push(json!([name, v]));
    }
    let mut body: Vec<u8> = vec![];
    let mut complete = true;
    if chunked {
        'o: loop {
            let p = loop {
                if let Some(p) = find(buf, b"\r\n") {
                    break p;
                }
                if !fill(s, buf).await {
                    complete = false;
                    break 'o;
                }
            };
            let line: Vec<u8> = buf.drain(..p + 2).collect();
            let n = usize::from_str_radix(String::from_utf8_lossy(&line[..p]).trim(), 16).unwrap_or(0);
            while buf.len() < n + 2 {
                if !fill(s, buf).await {
                    complete = false;
                    break 'o;
                }
            }
            body.extend(buf.drain(..n));
            buf.drain(..2);
            if n == 0 {
                break;
            }
        }
    } else if let Some(n) = clen {
        while buf.len() < n {
            if !fill(s, buf).await {
                complete = false;
                break;
            }
        }
        let n = n.min(buf.len());
        body.extend(buf.drain(..n));
    }
    Some(json!({"e": "req", "method": method, "target": target, "headers": headers,
                "body": body, "complete": complete, "framed": chunked || clen.is_some()}))
}
