"""C08: views of errors.

TLC enumerates the histories of views (status, display, alternate, debug,
source, into_untyped) over a model error; the histories are replayed on real
errors of every category: textual ones, declared and unexpected responses
with several error types (including byte streams), undecodable payloads, and
every kind of transport error reqwest can be made to produce (connection
refused, cut bodies, builder errors, errors with a status, decode errors,
timeouts, redirect loops), in each variant that can hold one.  What the error
holds is read through the public enum before and after every operation.
"""
from lib.sess import resp
from lib.docs import build_apis, by
from lib.core import Violation
from checks.c01 import HOT, rand_text

RUST = r'''
use progenitor_client::{Error, ResponseValue, ByteStream};
use std::error::Error as StdError;
fn chain(e: &(dyn StdError + 'static)) -> Vec<Vec<u8>> {
    let mut v = vec![e.to_string().into_bytes()];
    let mut s = e.source();
    while let Some(x) = s { v.push(x.to_string().into_bytes()); s = x.source(); }
    v
}
fn hd(h: &reqwest::header::HeaderMap) -> Value { json!(h.iter().map(|(k, v)| json!([k.as_str().as_bytes(), v.as_bytes()])).collect::<Vec<_>>()) }
fn traits(e: &reqwest::Error) -> Vec<u8> {
    format!("{} {} {} {} {} {} {} {} {:?}", e.is_builder(), e.is_redirect(), e.is_status(), e.is_timeout(), e.is_request(), e.is_connect(), e.is_body(), e.is_decode(), e.url().map(|u| u.to_string())).into_bytes()
}
/// What the error holds, read through the public variants only.
fn facts<E>(e: &Error<E>, val: fn(&E) -> String) -> Value {
    let mut f = json!({"cat": "", "status": 0, "headers": [], "msg": [], "bytes": [], "bytesdbg": [], "value": [], "chain": [], "traits": [], "wstatus": 0});
    let tr = |f: &mut Value, e: &reqwest::Error| { f["chain"] = json!(chain(e)); f["traits"] = json!(traits(e)); f["wstatus"] = json!(e.status().map(|s| s.as_u16()).unwrap_or(0)); };
    match e {
        Error::InvalidRequest(m) => { f["cat"] = json!("InvalidRequest"); f["msg"] = json!(m.as_bytes()) }
        Error::PreHookError(m) => { f["cat"] = json!("PreHookError"); f["msg"] = json!(m.as_bytes()) }
        Error::PostHookError(m) => { f["cat"] = json!("PostHookError"); f["msg"] = json!(m.as_bytes()) }
        Error::CommunicationError(x) => { f["cat"] = json!("CommunicationError"); tr(&mut f, x) }
        Error::InvalidUpgrade(x) => { f["cat"] = json!("InvalidUpgrade"); tr(&mut f, x) }
        Error::ResponseBodyError(x) => { f["cat"] = json!("ResponseBodyError"); tr(&mut f, x) }
        Error::ErrorResponse(r) => { f["cat"] = json!("ErrorResponse"); f["status"] = json!(r.status().as_u16()); f["headers"] = hd(r.headers()); f["value"] = json!(val(&**r).as_bytes()) }
        Error::InvalidResponsePayload(b, x) => { f["cat"] = json!("InvalidResponsePayload"); f["bytes"] = json!(&b[..]); f["bytesdbg"] = json!(format!("{b:?}").as_bytes()); f["chain"] = json!(chain(x)); f["traits"] = json!(format!("{} {} {:?}", x.line(), x.column(), x.classify()).as_bytes()) }
        Error::UnexpectedResponse(r) => { f["cat"] = json!("UnexpectedResponse"); f["status"] = json!(r.status().as_u16()); f["headers"] = hd(r.headers()) }
    }
    f
}
/// The wrapped error's own address.
fn wrapped<E>(e: &Error<E>) -> usize {
    match e {
        Error::CommunicationError(x) | Error::InvalidUpgrade(x) | Error::ResponseBodyError(x) => x as *const _ as *const () as usize,
        Error::InvalidResponsePayload(_, x) => x as *const _ as *const () as usize,
        _ => 0,
    }
}
fn look<E>(e: &Error<E>, op: &str) -> Value where Error<E>: StdError + 'static {
    match op {
        "status" => json!({"n": e.status().map(|s| s.as_u16()).unwrap_or(0)}),
        "display" => json!({"s": format!("{e}").as_bytes()}),
        "debug" => json!({"s": format!("{e:?}").as_bytes()}),
        "alternate" => json!({"s": format!("{e:#}").as_bytes(), "s0": format!("{e}").as_bytes()}),
        "source" => match e.source() {
            Some(s) => json!({"chain": chain(s), "same": wrapped(e) == s as *const _ as *const () as usize}),
            None => json!({"chain": [], "same": wrapped(e) == 0}),
        },
        _ => json!({}),
    }
}
fn ev(op: &str, mut v: Value, f: Value) -> Value {
    let mut r = json!({"op": op, "n": 0, "s": [], "s0": [], "chain": [], "same": true, "facts": f});
    for (k, x) in v.as_object_mut().unwrap() { r[k] = x.take(); }
    r
}
async fn history<E: Send>(e: Error<E>, ops: &[Value], val: fn(&E) -> String) -> Value where Error<E>: StdError + 'static {
    let first = facts(&e, val);
    let mut evs = vec![];
    let mut k = 0;
    while k < ops.len() && ops[k] != "untyped" {
        let op = ops[k].as_str().unwrap();
        evs.push(ev(op, look(&e, op), facts(&e, val)));
        k += 1;
    }
    if k < ops.len() {
        return untyped(e.into_untyped(), &ops[k + 1..], first, evs).await;
    }
    let body = match e { Error::UnexpectedResponse(r) => r.bytes().await.map(|b| b.to_vec()).ok(), _ => None };
    json!({"k": "err", "first": first, "events": evs, "body": body})
}
async fn untyped(mut x: Error, ops: &[Value], first: Value, mut evs: Vec<Value>) -> Value {
    let unit: fn(&()) -> String = |_| "()".to_string();
    evs.push(ev("untyped", json!({}), facts(&x, unit)));
    for o in ops {
        let op = o.as_str().unwrap();
        if op == "untyped" { x = x.into_untyped(); }
        evs.push(ev(op, look(&x, op), facts(&x, unit)));
    }
    let body = match x { Error::UnexpectedResponse(r) => r.bytes().await.map(|b| b.to_vec()).ok(), _ => None };
    json!({"k": "err", "first": first, "events": evs, "body": body})
}
/// A transport error of the wanted kind.
async fn transport(kind: &str, url: &str) -> reqwest::Error {
    let c = rt::http_client();
    match kind {
        "refused" => c.get("http://127.0.0.1:1/x").send().await.unwrap_err(),
        "builder" => c.get("http://[bad").build().unwrap_err(),
        "builder_header" => c.get(url).header("x", "a\nb").build().unwrap_err(),
        "scheme" => c.get("nope://x/y").send().await.unwrap_err(),
        "status" => c.get(url).send().await.unwrap().error_for_status().unwrap_err(),
        "cut" => c.get(url).send().await.unwrap().bytes().await.unwrap_err(),
        "decode" => c.get(url).send().await.unwrap().json::<u8>().await.unwrap_err(),
        "garbage" | "closed" => c.get(url).send().await.unwrap_err(),
        "timeout" => c.get(url).timeout(std::time::Duration::from_millis(50)).send().await.unwrap_err(),
        "redirect" => reqwest::Client::builder().no_proxy().redirect(reqwest::redirect::Policy::limited(0)).build().unwrap().get(url).send().await.unwrap_err(),
        "redirect_custom" => reqwest::Client::builder().no_proxy().redirect(reqwest::redirect::Policy::custom(|a| a.error(Deep))).build().unwrap().get(url).send().await.unwrap_err(),
        "stacked" => reqwest::Client::builder().no_proxy().dns_resolver(std::sync::Arc::new(Dns)).build().unwrap().get("http://nowhere.invalid/").send().await.unwrap_err(),
        x => panic!("harness: {x}"),
    }
}
#[derive(Debug)] struct Deep;
#[derive(Debug)] struct Deeper(u8);
impl std::fmt::Display for Deep { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("deep") } }
impl std::fmt::Display for Deeper { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "level{}", self.0) } }
static D0: Deeper = Deeper(0); static D1: Deeper = Deeper(1); static D2: Deeper = Deeper(2); static D3: Deeper = Deeper(2);
impl StdError for Deeper { fn source(&self) -> Option<&(dyn StdError + 'static)> { if std::ptr::eq(self, &D0) { Some(&D1) } else if std::ptr::eq(self, &D1) { Some(&D2) } else if std::ptr::eq(self, &D2) { Some(&D3) } else { None } } }
impl StdError for Deep { fn source(&self) -> Option<&(dyn StdError + 'static)> { Some(&D0) } }
struct Dns;
impl reqwest::dns::Resolve for Dns {
    fn resolve(&self, _: reqwest::dns::Name) -> reqwest::dns::Resolving { Box::pin(async { Err(Box::new(Deep) as Box<dyn StdError + Send + Sync>) }) }
}
#[derive(Debug, Clone)] struct Multi { message: String, code: Option<u32> }

async fn views(ctx: &Ctx, sc: &Value) -> Value {
    let url = ctx.server.url("/e");
    let ops = sc["ops"].as_array().unwrap().clone();
    let cat = sc["cat"].as_str().unwrap();
    let e: Error<String> = match cat {
        "InvalidRequest" => Error::InvalidRequest(rt::de(sc, "msg")),
        "PreHookError" => Error::PreHookError(rt::de(sc, "msg")),
        "PostHookError" => Error::PostHookError(rt::de(sc, "msg")),
        "from_header" => Error::from(reqwest::header::HeaderValue::from_str("\n").unwrap_err()),
        "from_transport" => Error::from(transport(sc["kind"].as_str().unwrap(), &url).await),
        "CommunicationError" => Error::CommunicationError(transport(sc["kind"].as_str().unwrap(), &url).await),
        "InvalidUpgrade" => Error::InvalidUpgrade(transport(sc["kind"].as_str().unwrap(), &url).await),
        "ResponseBodyError" => Error::ResponseBodyError(transport(sc["kind"].as_str().unwrap(), &url).await),
        "InvalidResponsePayload" => {
            let b = rt::bytes_arg(sc, "bytes");
            let x = serde_json::from_slice::<u64>(&b).unwrap_err();
            Error::InvalidResponsePayload(b.into(), x)
        }
        _ => {
            let r = rt::http_client().get(&url).send().await.unwrap();
            if cat == "UnexpectedResponse" {
                Error::UnexpectedResponse(r)
            } else {
                match sc["etype"].as_str().unwrap() {
                    "stream" => {
                        let e: Error<ByteStream> = Error::ErrorResponse(ResponseValue::stream(r));
                        return history(e, &ops, |_| "<stream>".into()).await;
                    }
                    "unit" => {
                        let e: Error<()> = Error::ErrorResponse(ResponseValue::empty(r));
                        return history(e, &ops, |v| format!("{v:?}")).await;
                    }
                    "struct" => {
                        let v: ResponseValue<String> = ResponseValue::from_response::<()>(r).await.ok().unwrap();
                        let e: Error<Multi> = Error::ErrorResponse(v.map::<_, _, ()>(|s| Multi { code: Some(s.len() as u32), message: s }).ok().unwrap());
                        return history(e, &ops, |v| format!("{v:?}")).await;
                    }
                    "value" => {
                        let e: Error<Value> = Error::ErrorResponse(ResponseValue::from_response::<()>(r).await.ok().unwrap());
                        return history(e, &ops, |v| format!("{v:?}")).await;
                    }
                    _ => Error::ErrorResponse(ResponseValue::from_response::<()>(r).await.ok().unwrap()),
                }
            }
        }
    };
    history(e, &ops, |v| format!("{v:?}")).await
}
'''

J = [("content-type", "application/json")]


def recipes(c):
    """(scenario, what is known of the error from outside, sent body)."""
    rng = c.rng
    out = []
    X = {"cat": "", "status": 0, "wstatus": 0, "hasmsg": False, "msg": [], "hasbytes": False, "bytes": [], "hasheaders": False, "headers": []}
    msgs = ["", "plain", "with: colon", "{braces} {}", "line\nbreak", "\u00e9\U0001f600", "100%", "Communication Error: fake"] + \
        [rand_text(rng, 30) for _ in range(12 if c.thorough else 4)]
    for cat in ("InvalidRequest", "PreHookError", "PostHookError"):
        for m in msgs:
            out.append(({"cat": cat, "msg": m}, dict(X, cat=cat, hasmsg=True, msg=by(m)), None))
    out.append(({"cat": "from_header"}, dict(X, cat="InvalidRequest"), None))
    loc = [("location", "/again")]
    kinds = {"refused": None, "builder": None, "builder_header": None, "scheme": None, "stacked": None,
             "cut": resp(200, b"0123456789", J, cut=4).acts, "decode": resp(200, b"nope", J).acts,
             "garbage": [{"text": "BANG\r\n\r\n"}], "closed": [], "timeout": [{"sleep": 400}],
             "redirect": resp(302, b"", loc).acts, "redirect_custom": resp(307, b"", loc).acts}
    st = {"status%d" % s: s for s in (400, 404, 418, 499, 500, 503, 599)}
    for cat in ("CommunicationError", "InvalidUpgrade", "ResponseBodyError", "from_transport"):
        x = dict(X, cat="CommunicationError" if cat == "from_transport" else cat)
        for k, acts in kinds.items():
            out.append(({"cat": cat, "kind": k, "script": [acts] if acts is not None else []}, x, None))
        for k, s in st.items():
            out.append(({"cat": cat, "kind": "status", "script": [resp(s, b"x").acts]}, dict(x, wstatus=s), None))
    for b in (b"", b"nope", b"\xff\xfe", b"1 2", b'"unterminated', b"{\"a\": 1}\n\n", b"\0\x01\"\\", bytes(range(256)), b"-1"):
        out.append(({"cat": "InvalidResponsePayload", "bytes": list(b)}, dict(X, cat="InvalidResponsePayload", hasbytes=True, bytes=list(b)), None))
    heads = [[], [("x-a", "1"), ("x-a", "2"), ("x-b", "with \"quotes\"")], [("x-bin", b"\xe9"), ("retry-after", "120")]]
    for s in (200, 204, 302, 400, 404, 499, 500, 503, 599, 799):
        for h in heads:
            a = resp(s, b'"detail"', h)
            x = dict(X, status=s, hasheaders=True, headers=a.ans["headers"])
            for et in ("string", "unit", "struct", "stream", "value"):
                if s in (204, 302) and et not in ("unit", "stream"):
                    continue
                out.append(({"cat": "ErrorResponse", "etype": et, "script": [a.acts]}, dict(x, cat="ErrorResponse"), None))
            out.append(({"cat": "UnexpectedResponse", "script": [a.acts]}, dict(x, cat="UnexpectedResponse"), a.ans["body"]))
    return out


def run(c):
    c.start_driver_deps()
    n = 4 if c.thorough else 3
    r = c.design("MC_ErrorView", "INIT Init\nNEXT Next\nCONSTANT MaxOps = %d\nINVARIANTS Kept StatusRight\n" % n, deadlock=False)
    hists = c.serialized(r, "scen.json")
    binary = build_apis(c, {}, extra=RUST, extra_arms='            "err" => views(&ctx, &sc).await,\n')
    recs = recipes(c)
    per = 24 if c.thorough else 5
    items = []
    c.rng.shuffle(hists)
    k = 0
    for sc, x, body in recs:
        m = 2 if sc.get("kind") == "timeout" else per
        for _ in range(m):
            ops = list(hists[k % len(hists)])
            k += 1
            # every view is also taken at the end
            ops += ["alternate", "status", "source", "untyped", "display", "alternate", "status", "source"][k % 2 * 4:]
            items.append((dict(sc, api="err", ops=ops), x, body))
    obs = c.run_driver(binary, [s for s, _, _ in items], lanes=16)
    sessions = []
    for (sc, x, body), o in zip(items, obs):
        v = o["out"]
        if v.get("k") != "err":
            raise Violation("viewing an error panicked or never ended", str((sc, o))[:3000])
        sessions.append({"expect": x, "first": v["first"], "events": v["events"],
                         "body": {"has": body is not None, "sent": body or [], "got": v["body"] or []}})
    c.sample({"error": items[300][0], "views": [(e["op"], bytes(e["s"]).decode("utf8", "replace")[:150]) for e in sessions[300]["events"]][:5]})
    c.notes["errors"] = len(recs)
    c.notes["histories_replayed"] = len(items)
    c.notes["histories_enumerated"] = len(hists)
    c.validate("TraceErrorView", "INIT TInit\nNEXT TNext\n", sessions, what="error views", describe=lambda i: items[i][0])
