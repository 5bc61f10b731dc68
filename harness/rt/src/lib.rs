//! Runtime used by every driver: it only *records*; all judging is done by the
//! TLA+ trace specifications.

pub mod server;

use futures::future::BoxFuture;
use futures::StreamExt;
use progenitor_client::{ByteStream, Error, ResponseValue};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use server::Server;
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// One lane: a mock server and the ordered event log of the running scenario.
#[derive(Clone)]
pub struct Ctx {
    pub server: Server,
    pub log: Log,
}

/// Ordered event log.
#[derive(Clone, Default, Debug)]
pub struct Log(Arc<Mutex<Vec<Value>>>);
impl Log {
    pub fn push(&self, v: Value) {
        self.0.lock().unwrap().push(v)
    }
    pub fn take(&self) -> Vec<Value> {
        std::mem::take(&mut *self.0.lock().unwrap())
    }
}

pub type Handler = fn(Ctx, Value) -> BoxFuture<'static, Value>;

thread_local! { static PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) }; }

/// Runs every scenario of `argv[1]` (JSON array) and writes the observations
/// to `argv[2]` (one JSON object per line, in scenario order).
pub fn run_main(handler: Handler) {
    let a: Vec<String> = std::env::args().collect();
    let scenarios: Vec<Value> =
        serde_json::from_str(&std::fs::read_to_string(&a[1]).expect("scenarios")).expect("json");
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let m = format!("{} @ {}", m, i.location().map(|l| l.to_string()).unwrap_or_default());
        PANIC.with(|p| *p.borrow_mut() = Some(m));
    }));
    let lanes: usize = std::env::var("RT_LANES").ok().and_then(|s| s.parse().ok()).unwrap_or(6);
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(8)
        .thread_stack_size(16 << 20)
        .enable_all()
        .build()
        .unwrap();
    let out: Arc<Mutex<Vec<Option<Value>>>> = Arc::new(Mutex::new(vec![None; scenarios.len()]));
    let next = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let scenarios = Arc::new(scenarios);
    rt.block_on(async {
        let mut hs = vec![];
        for _ in 0..lanes {
            let (out, next, scenarios) = (out.clone(), next.clone(), scenarios.clone());
            hs.push(tokio::spawn(async move {
                loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    let Some(sc) = scenarios.get(i) else { break };
                    let v = run_one(handler, sc).await;
                    out.lock().unwrap()[i] = Some(v);
                }
            }));
        }
        for h in hs {
            h.await.expect("lane");
        }
    });
    rt.shutdown_timeout(Duration::from_millis(200));
    use std::io::Write;
    let mut f = std::io::BufWriter::new(std::fs::File::create(&a[2]).expect("out"));
    for v in out.lock().unwrap().iter() {
        writeln!(f, "{}", v.as_ref().unwrap()).unwrap();
    }
    f.flush().unwrap();
}

/// How many scenarios have hung; the rest is not played when it is hopeless.
pub static HANGS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

async fn run_one(handler: Handler, sc: &Value) -> Value {
    if HANGS.load(std::sync::atomic::Ordering::SeqCst) >= 24 {
        return json!({"i": sc["i"], "out": {"k": "hang"}, "log": [], "skipped": true});
    }
    let log = Log::default();
    let server = Server::start(log.clone(), sc.get("script").cloned().unwrap_or(json!([]))).await;
    let ctx = Ctx { server: server.clone(), log: log.clone() };
    let sc2 = sc.clone();
    let msg = Arc::new(Mutex::new(None));
    let msg2 = msg.clone();
    let fut = async move {
        let ws: Vec<Vec<u8>> = sc2.get("ws").map(|v| serde_json::from_value(v.clone()).unwrap()).unwrap_or_default();
        let f = std::panic::AssertUnwindSafe(WS.scope(ws, async move { handler(ctx, sc2).await }));
        match futures::FutureExt::catch_unwind(f).await {
            Ok(v) => v,
            Err(_) => {
                *msg2.lock().unwrap() = PANIC.with(|p| p.borrow_mut().take());
                json!({"k": "panic"})
            }
        }
    };
    let t = sc.get("timeout_ms").and_then(|v| v.as_u64()).unwrap_or(20000);
    let outcome = match tokio::time::timeout(Duration::from_millis(t), tokio::spawn(fut)).await {
        Ok(Ok(v)) => v,
        Ok(Err(_)) => json!({"k": "panic"}),
        Err(_) => {
            HANGS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            json!({"k": "hang"})
        }
    };
    server.settle().await;
    server.stop();
    let mut r = json!({"i": sc["i"], "out": outcome, "log": log.take()});
    if let Some(m) = msg.lock().unwrap().take() {
        r["panic"] = json!(m);
    }
    r
}

// ---------------------------------------------------------------- arguments

pub fn de<T: DeserializeOwned>(a: &Value, name: &str) -> T {
    let v = a.get(name).cloned().unwrap_or(Value::Null);
    serde_json::from_value(v.clone())
        .unwrap_or_else(|e| panic!("harness: argument {name} = {v}: {e}"))
}
pub fn has(a: &Value, name: &str) -> bool {
    a.get(name).map(|v| !v.is_null()).unwrap_or(false)
}
pub fn bytes_arg(a: &Value, name: &str) -> Vec<u8> {
    de(a, name)
}

// ----------------------------------------------------------------- outcomes

pub fn b(bytes: &[u8]) -> Value {
    json!(bytes)
}
pub fn headers(h: &reqwest::header::HeaderMap) -> Value {
    Value::Array(h.iter().map(|(k, v)| json!([k.as_str(), v.as_bytes()])).collect())
}

/// How the value inside a response is observed.
pub trait Obs: Send {
    fn obs(self) -> BoxFuture<'static, Value>;
}
pub struct J(pub Value);
pub fn js<T: Serialize>(t: T) -> J {
    J(serde_json::to_value(&t).unwrap())
}
impl Obs for J {
    fn obs(self) -> BoxFuture<'static, Value> {
        Box::pin(async move { json!({"k": "json", "v": self.0}) })
    }
}
pub struct U;
pub fn un(_: ()) -> U {
    U
}
impl Obs for U {
    fn obs(self) -> BoxFuture<'static, Value> {
        Box::pin(async { json!({"k": "unit"}) })
    }
}
pub struct S(pub ByteStream);
pub fn st(s: ByteStream) -> S {
    S(s)
}
impl Obs for S {
    fn obs(self) -> BoxFuture<'static, Value> {
        Box::pin(async move {
            let (bytes, end) = drain(self.0).await;
            json!({"k": "stream", "bytes": bytes, "end": end})
        })
    }
}
tokio::task_local! { pub static WS: Vec<Vec<u8>>; }
/// An upgraded connection: writes the scenario's chunks, ends its half and
/// reads everything the server sends, at the same time.
pub struct W(reqwest::Upgraded);
pub fn up(u: reqwest::Upgraded) -> W {
    W(u)
}
impl Obs for W {
    fn obs(self) -> BoxFuture<'static, Value> {
        let chunks = WS.try_with(|w| w.clone()).unwrap_or_default();
        Box::pin(async move {
            use tokio::io::{AsyncReadExt, AsyncWriteExt};
            let (mut r, mut w) = tokio::io::split(self.0);
            let sent: Vec<u8> = chunks.concat();
            let wr = async {
                for c in &chunks {
                    if w.write_all(c).await.is_err() || w.flush().await.is_err() {
                        return;
                    }
                }
                let _ = w.shutdown().await;
            };
            let mut got = vec![];
            let rd = async {
                let mut tmp = [0u8; 4096];
                while let Ok(n) = r.read(&mut tmp).await {
                    if n == 0 {
                        return;
                    }
                    got.extend_from_slice(&tmp[..n]);
                }
            };
            let _ = tokio::time::timeout(Duration::from_secs(5), async { tokio::join!(wr, rd) }).await;
            json!({"k": "upgraded", "sent": sent, "received": got})
        })
    }
}

pub async fn drain(s: ByteStream) -> (Vec<u8>, &'static str) {
    let mut s = s.into_inner();
    let mut out = vec![];
    loop {
        match s.next().await {
            Some(Ok(c)) => out.extend_from_slice(&c),
            Some(Err(_)) => return (out, "error"),
            None => return (out, "clean"),
        }
    }
}

/// Asks a paginated stream for elements, one at a time.
pub async fn poll_stream<T: Serialize, E>(
    ctx: &Ctx,
    mut s: impl futures::Stream<Item = Result<T, Error<E>>> + Unpin,
    polls: u64,
) -> Value {
    let mut over = 0;
    for _ in 0..polls {
        ctx.log.push(json!({"e": "ask"}));
        match s.next().await {
            Some(Ok(v)) => ctx.log.push(json!({"e": "item", "v": serde_json::to_value(&v).unwrap()})),
            Some(Err(e)) => {
                let o = error(e, |_| U).await;
                ctx.log.push(json!({"e": "err", "k": o["k"], "st": o["st"]}));
            }
            None => {
                ctx.log.push(json!({"e": "end"}));
                over += 1;
                if over == 3 {
                    break;
                }
            }
        }
        // whatever the stream does by itself, it does now
        for _ in 0..3 {
            tokio::task::yield_now().await;
        }
    }
    drop(s);
    json!({"k": "stream"})
}

/// The first element of a paginated stream as an outcome.
pub async fn first_of<T, E>(mut s: impl futures::Stream<Item = Result<T, Error<E>>> + Unpin) -> Value {
    let o = match s.next().await {
        Some(Ok(_)) => json!({"k": "ok", "status": 200, "headers": [], "value": {"k": "unit"}}),
        Some(Err(e)) => error(e, |_| U).await,
        None => json!({"k": "ended"}),
    };
    match (o["k"].as_str(), s.next().await) {
        (Some("ok"), _) => o,
        (_, None) => o,
        _ => json!({"k": "more"}),
    }
}

pub async fn outcome<T, E, OT: Obs, OE: Obs>(
    r: Result<ResponseValue<T>, Error<E>>,
    ft: impl FnOnce(T) -> OT,
    fe: impl FnOnce(E) -> OE,
) -> Value {
    match r {
        Ok(rv) => {
            let (s, h) = (rv.status().as_u16(), headers(rv.headers()));
            let v = ft(rv.into_inner()).obs().await;
            json!({"k": "ok", "status": s, "headers": h, "value": v})
        }
        Err(e) => error(e, fe).await,
    }
}

pub async fn error<E, OE: Obs>(e: Error<E>, fe: impl FnOnce(E) -> OE) -> Value {
    let st = e.status().map(|s| s.as_u16()).unwrap_or(0);
    match e {
        Error::InvalidRequest(m) => json!({"k": "InvalidRequest", "msg": m, "st": st}),
        Error::CommunicationError(e) => {
            json!({"k": "CommunicationError", "builder": e.is_builder(), "st": st, "msg": format!("{e:?}")})
        }
        Error::InvalidUpgrade(_) => json!({"k": "InvalidUpgrade", "st": st}),
        Error::ErrorResponse(rv) => {
            let (s, h) = (rv.status().as_u16(), headers(rv.headers()));
            let v = fe(rv.into_inner()).obs().await;
            json!({"k": "ErrorResponse", "status": s, "headers": h, "value": v, "st": st})
        }
        Error::ResponseBodyError(_) => json!({"k": "ResponseBodyError", "st": st}),
        Error::InvalidResponsePayload(by, _) => {
            json!({"k": "InvalidResponsePayload", "bytes": b(&by), "st": st})
        }
        Error::UnexpectedResponse(r) => {
            let (s, h) = (r.status().as_u16(), headers(r.headers()));
            let body = match r.bytes().await {
                Ok(x) => json!({"k": "bytes", "bytes": b(&x)}),
                Err(_) => json!({"k": "broken"}),
            };
            json!({"k": "UnexpectedResponse", "status": s, "headers": h, "body": body, "st": st})
        }
        Error::PreHookError(m) => json!({"k": "PreHookError", "msg": m, "st": st}),
        Error::PostHookError(m) => json!({"k": "PostHookError", "msg": m, "st": st}),
    }
}

/// A reqwest client that opens a new connection for every request.
pub fn http_client() -> reqwest::Client {
    reqwest::ClientBuilder::new()
        .pool_max_idle_per_host(0)
        .redirect(reqwest::redirect::Policy::none())
        .no_proxy()
        .build()
        .unwrap()
}
