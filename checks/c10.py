"""C10: hooks.

Every subset of the four hooks, with and without an inner type, is generated
into a client; every failing-hook configuration of the model (MC_Call's Cfgs)
is run against successes, declared and undeclared errors, undecodable and cut
bodies, transport failures and invalid arguments.  The recorded order of hook
runs and requests, what each hook saw, and the outcome are validated against
Call.
"""
from lib.sess import Builder, resp, fail
from lib.docs import build_apis, by
from lib.call import CFG, mc_call

HOOKS = ("pre", "preA", "post", "postA")
SET = {"pre": "pre_hook", "preA": "pre_hook_async", "post": "post_hook", "postA": "post_hook_async"}

RUST = """
#[derive(Clone, Debug)] pub struct Inner { sid: usize, tag: String }
pub struct Entry { log: rt::Log, pre_fail: bool, post_fail: bool }
static REG: std::sync::Mutex<std::collections::BTreeMap<usize, Entry>> = std::sync::Mutex::new(std::collections::BTreeMap::new());

/// The scenario's number is the first segment of the base path.
fn sid(path: &str) -> usize { path.split('/').nth(1).and_then(|s| s.strip_prefix('s')).and_then(|s| s.parse().ok()).unwrap_or(usize::MAX) }
thread_local! { static SID: std::cell::Cell<usize> = std::cell::Cell::new(0); }
pub fn inner(_: &Ctx, sc: &Value) -> Inner { Inner { sid: sid(sc["base"].as_str().unwrap()), tag: "mine".into() } }
fn register(ctx: &Ctx, sc: &Value) {
    REG.lock().unwrap().insert(sid(sc["base"].as_str().unwrap()), Entry { log: ctx.log.clone(),
        pre_fail: sc["preAFail"].as_bool().unwrap_or(false), post_fail: sc["postAFail"].as_bool().unwrap_or(false) });
}
fn target(u: &reqwest::Url) -> Vec<u8> {
    let mut t = u.path().to_string();
    if let Some(q) = u.query() { t.push('?'); t.push_str(q); }
    t.into_bytes()
}
fn note_req(n: &str, i: Option<&Inner>, r: &reqwest::Request) -> (bool, bool) {
    let k = sid(r.url().path());
    let g = REG.lock().unwrap();
    let e = g.get(&k).expect("scenario");
    let own = i.map_or(true, |i| i.sid == k && i.tag == "mine");
    e.log.push(json!({"e": "hook", "n": n, "own": own, "method": r.method().as_str(), "target": target(r.url()), "saw": "none", "status": 0}));
    (e.pre_fail, e.post_fail)
}
fn note_res(n: &str, i: Option<&Inner>, r: &Result<reqwest::Response, reqwest::Error>) -> bool {
    let (u, saw, st) = match r {
        Ok(r) => (r.url().clone(), "resp", r.status().as_u16()),
        Err(e) => (e.url().expect("url").clone(), "fail", 0),
    };
    let k = sid(u.path());
    let g = REG.lock().unwrap();
    let e = g.get(&k).expect("scenario");
    let own = i.map_or(true, |i| i.sid == k && i.tag == "mine");
    e.log.push(json!({"e": "hook", "n": n, "own": own, "method": "", "target": target(&u), "saw": saw, "status": st}));
    e.post_fail
}
type Res = Result<reqwest::Response, reqwest::Error>;
fn mark(r: &mut reqwest::Request) { r.headers_mut().append("x-hook-mark", reqwest::header::HeaderValue::from_static("1")); }
pub struct HookError(&'static str);
impl std::fmt::Display for HookError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.0) } }
pub fn pre0(r: &reqwest::Request) { note_req("pre", None, r); }
pub fn pre1(i: &Inner, r: &reqwest::Request) { note_req("pre", Some(i), r); }
pub async fn prea0(r: &mut reqwest::Request) -> Result<(), HookError> {
    tokio::task::yield_now().await;
    let f = note_req("preA", None, r).0; mark(r);
    if f { Err(HookError("pre says no")) } else { Ok(()) }
}
pub async fn prea1(i: &Inner, r: &mut reqwest::Request) -> Result<(), HookError> {
    let f = note_req("preA", Some(i), r).0; tokio::task::yield_now().await; mark(r);
    if f { Err(HookError("pre says no")) } else { Ok(()) }
}
pub fn post0(r: &Res) { note_res("post", None, r); }
pub fn post1(i: &Inner, r: &Res) { note_res("post", Some(i), r); }
pub async fn posta0(r: &Res) -> Result<(), HookError> {
    tokio::task::yield_now().await;
    if note_res("postA", None, r) { Err(HookError("post says no")) } else { Ok(()) }
}
pub async fn posta1(i: &Inner, r: &Res) -> Result<(), HookError> {
    if note_res("postA", Some(i), r) { Err(HookError("post says no")) } else { Ok(()) }
}
"""


def doc(style):
    P = lambda n, i, r=True: {"name": n, "in": i, "ty": "str", "required": r}
    J = lambda st: {"status": st, "kind": "json", "ty": "str"}
    return {"components": {}, "ops": [
        {"id": "h0", "method": "get", "path": "/h0/{p}", "params": [P("p", "path"), P("q", "query", False), P("x-h", "header", False)],
         "responses": [J("200"), J("4XX")]},
        {"id": "h1", "method": "post", "path": "/h1", "params": [P("x-h", "header")], "body": {"ct": "application/json", "ty": "arr:str"},
         "responses": [J("default")]},
        {"id": "h2", "method": "get", "path": "/h2", "params": [], "websocket": True, "responses": [{"status": "default", "kind": "raw"}]},
        {"id": "h3", "method": "delete", "path": "/h3", "params": [], "responses": [J("404")]},
    ]}


def run(c):
    c.start_driver_deps()
    c.build_gen()
    r = mc_call(c, "hooks")
    cfgs = c.serialized(r, "cfgs.json")
    apis, where = {}, {}
    for inner in (0, 1):
        for m in range(16):
            on = [h for k, h in enumerate(HOOKS) if m >> k & 1]
            for style in (("positional", "builder") if c.thorough else (("positional", "builder")[(m + inner) % 2],)):
                st = {SET[h]: "crate::%s%d" % (h.lower(), inner) for h in on}
                if m == 15:
                    # a hook may be any expression that can be called
                    st["pre_hook"] = ("|r: &reqwest::Request| crate::pre0(r)", "|i: &crate::Inner, r: &reqwest::Request| crate::pre1(i, r)")[inner]
                if inner:
                    st["inner_type"] = "crate::Inner"
                n = "a%d_%d_%s" % (inner, m, style[:3])
                apis[n] = (doc(style), style, st)
                where.setdefault(tuple(on), []).append(n)
    binary = build_apis(c, apis, extra=RUST, before="register(&ctx, &sc);")
    B = Builder()
    rng = c.rng
    J = [("content-type", "application/json")]
    answers = lambda op: [resp(200, b'"a"', J), resp(404, b'"no"', J), resp(500, b'"x"', J), resp(302, b"", []), resp(200, b"{", J),
                          resp(404, b'"abcdef"', J, cut=2), fail([]), fail([{"rst": 1}]), fail([{"text": "HTTP/1.1 2"}]),
                          resp(204, b"", []), resp(404, b'7', J), "refused"]
    for cfg in cfgs:
        on = tuple(h for h in HOOKS if cfg[h])
        for api in where[on]:
            d = apis[api][0]
            for o in d["ops"]:
                ans = answers(o) if c.thorough or on in (HOOKS, ("preA", "postA")) else rng.sample(answers(o), 3)
                for a in ans:
                    url = None
                    sid = "/s%d" % len(B.items)
                    if a == "refused":
                        a, url = fail([]), "http://127.0.0.1:1" + sid
                    args = {p["name"]: rng.choice(["v", "a/b"] if p["in"] == "path" else ["v", "w w"]) for p in o["params"]}
                    times = rng.choice([1, 1, 2])
                    B.add(api, d, o, args, body=["x", "y"], answer=a, base=sid, url=url, cfg=cfg, times=times,
                          extra={"preAFail": cfg["preAFail"], "postAFail": cfg["postAFail"]})
                if o["id"] == "h2":
                    a = resp(101, b"", [("connection", "Upgrade"), ("upgrade", "websocket")], framing="none")
                    a.acts.append({"echo": 1})
                    B.add(api, d, o, answer=a, base="/s%d" % len(B.items), cfg=cfg, push=b"", extra={
                        "preAFail": cfg["preAFail"], "postAFail": cfg["postAFail"], "ws": [[1, 2]]})
                # arguments that cannot be sent: no hook runs
                if o["id"] in ("h0", "h1"):
                    args = {p["name"]: "v" for p in o["params"]}
                    args["x-h"] = "a\nb"
                    B.add(api, d, o, args, body=["x"], answer=resp(200, b'"a"', J), base="/s%d" % len(B.items), cfg=cfg,
                          extra={"preAFail": cfg["preAFail"], "postAFail": cfg["postAFail"]})
                    if api.endswith("bui"):
                        bad = {"h0": "p", "h1": "x-h"}[o["id"]]
                        args = {p["name"]: "v" for p in o["params"] if p["name"] != bad}
                        B.add(api, d, o, args, body=["x"], answer=resp(200, b'"a"', J), base="/s%d" % len(B.items), cfg=cfg,
                              bad=(bad,), extra={"preAFail": cfg["preAFail"], "postAFail": cfg["postAFail"]})
    obs = c.run_driver(binary, B.scenarios(), lanes=12)
    net = B.sessions(obs)
    c.sample({"cfg": B.items[700][1]["cfg"], "events": [e.get("n", e["e"]) for e in net[900]["events"]], "outcome": net[900]["events"][-1]["k"]})
    c.notes["clients"] = len(apis)
    c.notes["hook_runs"] = sum(1 for s in net for e in s["events"] if e["e"] == "hook")
    c.validate("TraceCall", CFG("C10"), net, describe=lambda i: B.items[B.index[i]][0])
