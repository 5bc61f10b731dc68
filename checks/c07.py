"""C07: byte streams.

TLC checks the ByteStream model (safety and termination) and enumerates the
plans: body length, how much of it reaches the wire, in which pieces, how it
ends, and whether the server holds the body back until the stream was handed
over.  Each plan is played by the raw server in every framing that can carry
it, against raw responses of generated clients (success, error and default
entries, both styles) and of ResponseValue::stream, read through every
accessor.  What the consumer saw is validated against the model.
"""
from lib.docs import build_apis
from lib.core import Violation

RUST = r'''
use futures::StreamExt;
use progenitor_client::{ByteStream, Error, ResponseValue};
async fn read(log: &mut Vec<Value>, rv: ResponseValue<ByteStream>, how: &str) {
    let mut step = |x: Option<reqwest::Result<bytes::Bytes>>| -> bool {
        match x {
            Some(Ok(b)) => { log.push(json!({"e": "chunk", "bytes": &b[..]})); true }
            Some(Err(_)) => { log.push(json!({"e": "end", "how": "error"})); false }
            None => { log.push(json!({"e": "end", "how": "clean"})); false }
        }
    };
    match how {
        "inner" => { let mut s = rv.into_inner(); while step(s.next().await) {} }
        "inner2" => { let mut s = rv.into_inner().into_inner(); while step(s.next().await) {} }
        "stream" => { let mut s = rv.into_inner_stream(); while step(s.next().await) {} }
        "deref" => { let mut rv = rv; while step((**rv).next().await) {} }
        "rewrap" => { let mut s = ByteStream::new(ByteStream::new(rv.into_inner_stream()).into_inner()); while step(s.as_mut().next().await) {} }
        "map" => { let rv = rv.map::<_, _, ()>(|s| Dbg(s)).ok().unwrap(); let mut s = rv.into_inner().0; while step(s.next().await) {} }
        "mixed" => {
            let mut s = rv.into_inner();
            let mut n = 0;
            loop { n += 1; let x = if n % 2 == 0 { s.next().await } else { (&mut *s).next().await }; if !step(x) { break } }
        }
        x => panic!("harness: {x}"),
    }
}
struct Dbg(ByteStream);
impl std::fmt::Debug for Dbg { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("s") } }

async fn bs(ctx: &Ctx, sc: &Value) -> Value {
    let url = ctx.server.url("");
    let how = sc["how"].as_str().unwrap();
    let c = rt::http_client();
    let mut log = vec![];
    let r: Result<ResponseValue<ByteStream>, Error<ByteStream>> = match sc["via"].as_str().unwrap() {
        "client" => Ok(ResponseValue::stream(c.get(format!("{url}/x")).send().await.unwrap())),
        "pos_code" => pos::Client::new_with_client(&url, c).code().await,
        "bld_code" => bld::Client::new_with_client(&url, c).code().send().await,
        "pos_range" => pos::Client::new_with_client(&url, c).range().await,
        "bld_range" => bld::Client::new_with_client(&url, c).range().send().await,
        "pos_dflt" => pos::Client::new_with_client(&url, c).dflt().await,
        "bld_dflt" => bld::Client::new_with_client(&url, c).dflt().send().await,
        "pos_bare" => pos::Client::new_with_client(&url, c).bare().await.map_err(|e| e.into()).map_err(|e: Gone| panic!("{}", e.0)),
        "bld_bare" => bld::Client::new_with_client(&url, c).bare().send().await.map_err(|e| e.into()).map_err(|e: Gone| panic!("{}", e.0)),
        "new" => new::Client::new(&url).code().await,
        x => panic!("harness: {x}"),
    };
    let (rv, branch) = match r {
        Ok(rv) => (rv, "ok"),
        Err(Error::ErrorResponse(rv)) => (rv, "err"),
        Err(e) => return json!({"k": "other", "what": format!("{e:?}")}),
    };
    log.push(json!({"e": "hand", "status": rv.status().as_u16(), "branch": branch}));
    ctx.server.open_gate();
    read(&mut log, rv, how).await;
    json!({"k": "bs", "events": log})
}
struct Gone(String);
impl<E> From<Error<E>> for Gone where Error<E>: std::fmt::Display { fn from(e: Error<E>) -> Self { Gone(e.to_string()) } }
'''


def doc():
    R = lambda *st: [{"status": s, "kind": "raw"} for s in st]
    O = lambda i, rs: {"id": i, "method": "get", "path": "/" + i, "params": [], "responses": rs}
    return {"components": {}, "ops": [O("code", R("200", "404")), O("range", R("2XX", "4XX", "5XX")), O("dflt", R("default")), O("bare", [])]}


VIA = {"client": [200, 404, 302, 500], "pos_code": [200, 404], "bld_code": [200, 404], "pos_range": [206, 299, 499, 503], "bld_range": [200, 400, 599],
       "pos_dflt": [200, 302, 404, 500], "bld_dflt": [201, 304 + 1, 418, 503], "pos_bare": [200, 201], "bld_bare": [200, 299], "new": [200, 404]}


def play(c, plan, framing, full, status, ver, extra):
    """The server's script for a plan."""
    head = [b"HTTP/1.%d %d X\r\n" % (ver, status)] + [b"%s: %s\r\n" % h for h in extra]
    if framing == "length":
        head.append(b"content-length: %d\r\n" % len(full))
    elif framing == "chunked":
        head.append(b"transfer-encoding: chunked\r\n")
    if framing != "length" or c.rng.random() < .5:
        head.append(b"connection: close\r\n")
    head = b"".join(head) + b"\r\n"
    pieces, pos = [], 0
    unit = len(full) // plan["n"] if plan["n"] else 0
    for k in plan["parts"]:
        pieces.append(full[pos:pos + k * unit])
        pos += k * unit
    acts = []
    if plan["gated"]:
        acts += [{"bytes": list(head)}, {"gate": 1}]
        head = b""
    sep = c.rng.random() < .4
    fate = plan["fate"]
    for n, p in enumerate(pieces):
        if framing == "chunked":
            last = n == len(pieces) - 1
            size = len(p) + (7 if last and fate in ("cut", "reset") and c.rng.random() < .6 else 0)
            ext = c.rng.choice([b"", b"", b";x=y"])
            p = (b"%x" if c.rng.random() < .5 else b"%X") % size + ext + b"\r\n" + p + (b"\r\n" if size == len(p) else b"")
        if sep:
            acts += [{"bytes": list(head + p)}, {"sleep": 2}]
            head = b""
        else:
            head += p
    if framing == "chunked":
        if fate == "complete":
            head += c.rng.choice([b"0\r\n\r\n", b"0\r\nx-trailer: 1\r\n\r\n", b"000\r\n\r\n"])
        elif fate == "bad":
            head += c.rng.choice([b"zz\r\nabc\r\n", b"-1\r\n", b"\r\n\r\n", b"fffffffffffffffff\r\nx"])
    if head:
        acts.append({"bytes": list(head)})
    if fate == "reset":
        acts += [{"sleep": 3}, {"rst": 1}] if c.rng.random() < .7 else [{"rst": 1}]
    return acts


def run(c):
    c.start_driver_deps()
    c.build_gen()
    r = c.design("MC_ByteStream", "SPECIFICATION MSpec\nCONSTANT N = %d\nINVARIANTS InOrder CleanMeansAll NothingLost NotAhead\nPROPERTY Ends\n"
                 % (5 if c.thorough else 4), deadlock=False)
    plans = c.serialized(r, "scen.json")
    d = doc()
    binary = build_apis(c, {"pos": (d, "positional"), "bld": (d, "builder"), "new": (d, "positional")}, extra=RUST,
                        extra_arms='            "bs" => bs(&ctx, &sc).await,\n')
    hows = ["inner", "inner2", "stream", "deref", "rewrap", "map", "mixed"]
    items = []
    k = 0
    for plan in plans:
        frs = {"complete": ["length", "chunked", "close"], "cut": ["length", "chunked"], "bad": ["chunked"],
               "reset": ["length", "chunked", "close"]}[plan["fate"]]
        for fr in frs:
            if fr == "length" and plan["fate"] in ("cut", "reset") and plan["cut"] == plan["n"]:
                continue        # all of it has arrived: that is complete
            for _ in range(3 if c.thorough else 1):
                k += 1
                via = list(VIA)[k % len(VIA)]
                st = c.rng.choice(VIA[via])
                unit = c.rng.choice([1, 1, 3, 100, 4096]) if k % 40 else 16411
                full = bytes(c.rng.randrange(256) for _ in range(unit * plan["n"]))
                extra = c.rng.choice([[], [(b"content-type", b"application/json")], [(b"content-encoding", b"identity"), (b"x", b"\xe9")], [(b"content-type", b"text/html; charset=utf-16")]])
                ver = 0 if fr == "close" and c.rng.random() < .3 else 1
                acts = play(c, plan, fr, full, st, ver, extra)
                cut = plan["cut"] * unit
                branch = "ok" if via == "client" or st // 100 == 2 else "err"
                items.append(({"api": "bs", "via": via, "how": hows[k % len(hows)], "script": [acts], "timeout_ms": 8000},
                              {"plan": {"full": list(full), "cut": cut, "fate": plan["fate"], "gated": plan["gated"]}, "status": st, "branch": branch}))
    # answers that have no body by definition
    for st in (204, 304):
        for via in ("client", "pos_dflt", "bld_dflt"):
            items.append(({"api": "bs", "via": via, "how": "stream", "script": [[{"text": "HTTP/1.1 %d X\r\nconnection: close\r\n\r\n" % st}]]},
                          {"plan": {"full": [], "cut": 0, "fate": "complete", "gated": False}, "status": st,
                           "branch": "ok" if via == "client" or st == 204 else "err"}))
    # bytes behind a complete body do not belong to it
    items.append(({"api": "bs", "via": "pos_code", "how": "stream", "script": [[{"text": "HTTP/1.1 200 X\r\ncontent-length: 3\r\nconnection: close\r\n\r\nabcHTTP"}]]},
                  {"plan": {"full": [97, 98, 99], "cut": 3, "fate": "complete", "gated": False}, "status": 200, "branch": "ok"}))
    obs = c.run_driver(binary, [s for s, _ in items], lanes=16)
    sessions = []
    for (sc, m), o in zip(items, obs):
        v = o["out"]
        sessions.append(dict(m, events=v["events"] if v.get("k") == "bs" else [{"e": v.get("k", "?")}]))
    c.sample({"via": items[77][0]["via"], "plan": {k: v for k, v in items[77][1]["plan"].items() if k != "full"},
              "events": [(e["e"], len(e.get("bytes", [])) or e.get("how") or e.get("status")) for e in sessions[77]["events"]]})
    c.notes["plans"] = len(plans)
    c.notes["streams"] = len(items)
    c.validate("TraceByteStream", "INIT TInit\nNEXT TNext\n", sessions, what="byte stream", describe=lambda i: items[i][0])
