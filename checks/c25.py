"""C25: calls under way at the same time.

TLC checks Weave (calls with one answer, with a body read piece by piece, and
streams over pages, all on one client: whatever the environment's order of
starting, answering, asking and dropping, every caller sees its own call only
and all of it) and notices a client with a shared place.  It writes all weaves
of two calls; these and longer ones are played on the real generated clients
against a server that is told when to send which part of which answer.  What
every call put on the wire and its caller saw is validated by TraceWeave.
"""
import json
from lib.docs import build_apis, by, argval, tagged
from lib.sess import resp, oprec, bodyrec, reqev, outev, NOBODY

RUST = r"""
#[derive(Clone, Debug)] pub struct Inner { log: rt::Log, who: usize }
pub fn inner(ctx: &Ctx, _: &Value) -> Inner { Inner { log: ctx.log.clone(), who: 0 } }
fn target(u: &reqwest::Url) -> Vec<u8> {
    let mut t = u.path().to_string();
    if let Some(q) = u.query() { t.push('?'); t.push_str(q); }
    t.into_bytes()
}
pub async fn wpre(i: &Inner, r: &mut reqwest::Request) -> Result<(), String> {
    tokio::task::yield_now().await;
    i.log.push(json!({"e": "hook", "n": "pre", "who": i.who, "target": target(r.url())}));
    tokio::task::yield_now().await;
    Ok(())
}
pub async fn wpost(i: &Inner, r: &Result<reqwest::Response, reqwest::Error>) -> Result<(), String> {
    tokio::task::yield_now().await;
    if let Ok(r) = r { i.log.push(json!({"e": "hook", "n": "post", "who": i.who, "target": target(r.url())})); }
    tokio::task::yield_now().await;
    Ok(())
}

use tokio::sync::mpsc;
type Tx = mpsc::UnboundedSender<Value>;
async fn answerer(mut s: tokio::net::TcpStream, log: rt::Log, arrived: mpsc::UnboundedSender<(usize, Tx)>) {
    use tokio::io::AsyncWriteExt;
    let _ = s.set_nodelay(true);
    let mut buf = vec![];
    while let Some(r) = rt::server::read_request(&mut s, &mut buf).await {
        let t: Vec<u8> = serde_json::from_value(r["target"].clone()).unwrap_or_default();
        let t = String::from_utf8_lossy(&t).to_string();
        // the call is named in the target
        let k = t.split("call").nth(1).and_then(|x| x.split(|c: char| !c.is_ascii_digit()).next()).and_then(|x| x.parse().ok()).unwrap_or(0);
        log.push(r);
        let (tx, mut rx) = mpsc::unbounded_channel::<Value>();
        let _ = arrived.send((k, tx));
        let mut keep = false;
        while let Some(c) = rx.recv().await {
            if let Some(b) = c.get("bytes") {
                let b: Vec<u8> = serde_json::from_value(b.clone()).unwrap();
                let _ = s.write_all(&b).await;
                let _ = s.flush().await;
            }
            if c["end"] == "keep" { keep = true; break; }
            if c["end"] == "close" { let _ = s.shutdown().await; break; }
            if c["end"] == "cut" {
                #[allow(deprecated)]
                let _ = s.set_linger(Some(std::time::Duration::ZERO));
                return;
            }
        }
        if !keep { return; }
    }
}

fn pooled() -> reqwest::Client {
    reqwest::ClientBuilder::new().redirect(reqwest::redirect::Policy::none()).no_proxy().build().unwrap()
}
async fn read_body<T, E>(log: rt::Log, i: usize, r: Result<progenitor_client::ResponseValue<T>, progenitor_client::Error<E>>,
    f: impl FnOnce(progenitor_client::ResponseValue<T>) -> progenitor_client::ByteStream, mut rx: mpsc::UnboundedReceiver<()>)
    where E: serde::Serialize {
    use futures::StreamExt;
    let rv = match r {
        Ok(rv) => rv,
        Err(e) => { let mut o = rt::error(e, rt::js).await; o["e"] = json!("out"); o["i"] = json!(i); log.push(o); return; }
    };
    log.push(json!({"e": "out", "i": i, "k": "ok", "status": rv.status().as_u16(), "headers": rt::headers(rv.headers()), "value": {"k": "open"}}));
    let mut s = f(rv).into_inner();
    while rx.recv().await.is_some() {
        match s.next().await {
            Some(Ok(b)) => log.push(json!({"e": "chunk", "i": i, "bytes": b.to_vec()})),
            Some(Err(_)) => { log.push(json!({"e": "end", "i": i, "how": "error"})); return; }
            None => { log.push(json!({"e": "end", "i": i, "how": "clean"})); return; }
        }
    }
}
async fn read_pages<T: serde::Serialize, E>(log: rt::Log, i: usize,
    mut s: impl futures::Stream<Item = Result<T, progenitor_client::Error<E>>> + Unpin, mut rx: mpsc::UnboundedReceiver<()>) {
    use futures::StreamExt;
    while rx.recv().await.is_some() {
        match s.next().await {
            Some(Ok(v)) => log.push(json!({"e": "item", "i": i, "v": serde_json::to_value(&v).unwrap()})),
            Some(Err(e)) => { let o = rt::error(e, |_| rt::U).await; log.push(json!({"e": "err", "i": i, "k": o["k"]})); return; }
            None => { log.push(json!({"e": "end", "i": i, "how": "clean"})); return; }
        }
    }
}

async fn weave(ctx: &Ctx, sc: &Value) -> Value {
    let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
    let url = format!("http://{}", l.local_addr().unwrap());
    let (atx, mut arx) = mpsc::unbounded_channel();
    let log = ctx.log.clone();
    let lg = log.clone();
    let accept = tokio::spawn(async move {
        while let Ok((s, _)) = l.accept().await { tokio::spawn(answerer(s, lg.clone(), atx.clone())); }
    });
    let http = if sc["pool"] == true { pooled() } else { rt::http_client() };
    // two clients of each style, with base URLs and inner values of their own
    let mut clients = vec![];
    for (who, base) in sc["bases"].as_array().unwrap().iter().enumerate() {
        let (u, inner) = (format!("{url}{}", base.as_str().unwrap()), Inner { log: log.clone(), who });
        let pc = pos::Client::new_with_client(&u, http.clone(), inner.clone());
        let bc: &'static bld::Client = Box::leak(Box::new(bld::Client::new_with_client(&u, http.clone(), inner)));
        let b = (bc.val().q("base q").x_h("base h").body(vec!["base".to_string()]), bc.raw().q("base q"), bc.page().tag("base tag"), bc.plain().x_h("base h"));
        clients.push((pc, bc, b));
    }
    let mut conns: std::collections::HashMap<usize, Tx> = Default::default();
    let mut cmds: std::collections::HashMap<usize, mpsc::UnboundedSender<()>> = Default::default();
    let mut tasks: std::collections::HashMap<usize, tokio::task::JoinHandle<()>> = Default::default();
    let mut part: std::collections::HashMap<usize, usize> = Default::default();
    macro_rules! need { ($k:expr) => {{
        let mut ok = true;
        while !conns.contains_key(&$k) {
            match tokio::time::timeout(std::time::Duration::from_secs(8), arx.recv()).await {
                Ok(Some((k, tx))) => { conns.insert(k, tx); }
                _ => { ok = false; break; }
            }
        }
        ok
    }}; }
    for st in sc["steps"].as_array().unwrap() {
        let i = st["i"].as_u64().unwrap() as usize;
        let cl = &sc["calls"][i - 1];
        match st["s"].as_str().unwrap() {
            "start" => {
                log.push(json!({"e": "start", "i": i}));
                let (tx, rx) = mpsc::unbounded_channel();
                cmds.insert(i, tx);
                let (a, style, kind) = (cl["args"].clone(), cl["style"].as_str().unwrap().to_string(), cl["kind"].as_str().unwrap().to_string());
                let (pc, bc, (bv, br, bp, bn)) = clients[cl["client"].as_u64().unwrap() as usize].clone();
                let lg = log.clone();
                tasks.insert(i, tokio::spawn(async move {
                    let p: String = if rt::has(&a, "p") { rt::de(&a, "p") } else { String::new() };
                    let opid = if kind == "plain" { "plain" } else { "val" };
                    match (kind.as_str(), style.as_str()) {
                        ("plain", "clone") => {
                            let mut q = bn.q(rt::de::<String>(&a, "q"));
                            if rt::has(&a, "x-h") { q = q.x_h(rt::de::<String>(&a, "x-h")); }
                            let mut o = rt::outcome(q.send().await, rt::js, rt::js).await; o["e"] = json!("out"); o["i"] = json!(i); lg.push(o);
                        }
                        ("one" | "plain", "pos") => { let mut o = glue_pos::call(&pc, opid, &a).await; o["e"] = json!("out"); o["i"] = json!(i); lg.push(o); }
                        ("one" | "plain", "bld") => { let mut o = glue_bld::call(bc, opid, &a).await; o["e"] = json!("out"); o["i"] = json!(i); lg.push(o); }
                        ("one", _) => {
                            let mut q = bv.p(p);
                            if rt::has(&a, "q") { q = q.q(rt::de::<String>(&a, "q")); }
                            if rt::has(&a, "ls") { q = q.ls(rt::de::<Vec<String>>(&a, "ls")); }
                            if rt::has(&a, "x-h") { q = q.x_h(rt::de::<String>(&a, "x-h")); }
                            if rt::has(&a, "body") { q = q.body(rt::de::<Vec<String>>(&a, "body")); }
                            tokio::task::yield_now().await;
                            let mut o = rt::outcome(q.send().await, rt::js, rt::js).await; o["e"] = json!("out"); o["i"] = json!(i); lg.push(o);
                        }
                        ("bytes", "pos") => { let q: Option<String> = rt::de(&a, "q"); let r = pc.raw(&p, q.as_deref()).await; read_body(lg, i, r, |v| v.into_inner(), rx).await }
                        ("bytes", s) => {
                            let mut q = if s == "bld" { bc.raw() } else { br }.p(p);
                            if rt::has(&a, "q") { q = q.q(rt::de::<String>(&a, "q")); }
                            read_body(lg, i, q.send().await, |v| v.into_inner(), rx).await
                        }
                        ("pages", "pos") => { let t: Option<String> = rt::de(&a, "tag"); let s = pc.page_stream(&p, rt::de(&a, "limit"), t.as_deref()); read_pages(lg, i, s, rx).await }
                        (_, s) => {
                            let mut q = if s == "bld" { bc.page() } else { bp }.p(p);
                            if rt::has(&a, "limit") { q = q.limit(rt::de::<i64>(&a, "limit")); }
                            if rt::has(&a, "tag") { q = q.tag(rt::de::<String>(&a, "tag")); }
                            read_pages(lg, i, q.stream(), rx).await
                        }
                    }
                }));
                if st["wait"] == true && !need!(i) { break; }
            }
            "ask" => { log.push(json!({"e": "ask", "i": i})); let _ = cmds[&i].send(()); }
            "serve" => {
                if !need!(i) { break; }
                let n = part.entry(i).or_insert(0);
                let c = cl["parts"][*n].clone();
                *n += 1;
                log.push(json!({"e": "serve", "i": i}));
                let _ = conns[&i].send(c.clone());
                if c.get("end").is_some() { conns.remove(&i); }
            }
            _ => {
                let t = tasks.remove(&i).unwrap();
                t.abort();
                let _ = t.await;
                cmds.remove(&i);
                log.push(json!({"e": "drop", "i": i}));
            }
        }
        match st["pause"].as_u64().unwrap_or(0) {
            0 => {}
            1 => { for _ in 0..5 { tokio::task::yield_now().await; } }
            n => tokio::time::sleep(std::time::Duration::from_millis(n)).await,
        }
    }
    let mut bad = vec![];
    for (i, t) in tasks {
        match tokio::time::timeout(std::time::Duration::from_secs(8), t).await {
            Ok(Ok(())) => {}
            Ok(Err(_)) => bad.push(json!({"e": "panic", "i": i})),
            Err(_) => {
                rt::HANGS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                bad.push(json!({"e": "stuck", "i": i}))
            }
        }
    }
    for b in bad { log.push(b); }
    accept.abort();
    json!({"k": "woven"})
}
"""
COMPS = {"IntPage": {"schema": {"type": "object", "required": ["items"], "properties": {
            "items": {"type": "array", "items": {"type": "integer", "format": "int64"}}, "next_page": {"type": "string", "nullable": True}}}, "pass": "ref"},
         "Err": {"schema": {"type": "object", "required": ["message"], "properties": {"message": {"type": "string"}}}, "pass": "ref"}}
P = lambda n, i, r=True, ty="str": {"name": n, "in": i, "ty": ty, "required": r}
E4 = [{"status": "4XX", "kind": "json", "ty": "ref:Err"}]
OPS = {
    "one": {"id": "val", "method": "put", "path": "/val/{p}/x", "params": [P("p", "path"), P("ls", "query", False, "arr:str"), P("q", "query", False), P("x-h", "header")],
            "body": {"ct": "application/json", "ty": "arr:str"}, "responses": [{"status": "200", "kind": "json", "ty": "str"}] + E4},
    "plain": {"id": "plain", "method": "get", "path": "/plain", "params": [P("q", "query"), P("x-h", "header")],
              "responses": [{"status": "200", "kind": "json", "ty": "str"}] + E4},
    "bytes": {"id": "raw", "method": "get", "path": "/raw/{p}", "params": [P("p", "path"), P("q", "query", False)], "responses": [{"status": "200", "kind": "raw"}] + E4},
    "pages": {"id": "page", "method": "get", "path": "/page/{p}", "params": [P("p", "path"), P("limit", "query", False, "i64"), P("page_token", "query", False), P("tag", "query", False)],
              "responses": [{"status": "200", "kind": "json", "ty": "ref:IntPage"}] + E4, "paginated": True},
}
DOC = {"components": COMPS, "ops": list(OPS.values())}
BASE = {"one": {"q": "base q", "x-h": "base h"}, "plain": {"x-h": "base h"}, "bytes": {"q": "base q"}, "pages": {"tag": "base tag"}}
SET = {"pre_hook_async": "crate::wpre", "post_hook_async": "crate::wpost", "inner_type": "crate::Inner"}


def bare(a):
    """The answer without asking to close the connection."""
    head = bytes(a.acts[0]["bytes"]).replace(b"connection: close\r\n", b"")
    a.acts[0]["bytes"] = list(head)
    a.ans["headers"] = [h for h in a.ans["headers"] if bytes(h[0]) != b"connection"]
    return a


class Call:
    """A call of a plan with everything concrete about it."""

    def __init__(self, rng, i, plan, pool, bases):
        k = plan["k"]
        self.kind = "plain" if k == "one" and rng.random() < .3 else k
        self.client = rng.randrange(2)
        self.style = rng.choice(["pos", "bld", "clone"])
        o = OPS[self.kind]
        txt = lambda: rng.choice(["", "a", "b c&d=e", "\u00e9", "same", "same", "x" * 40]) + rng.choice(["", str(i)])
        self.args = {"p": "call%d%s" % (i, rng.choice(["", "", "/x", " y", "?"]))}
        body = None
        if self.kind == "plain":
            self.args = {"q": "call%d%s" % (i, rng.choice(["", "&", " z"]))}
            if self.style != "clone" or rng.random() < .5:
                self.args["x-h"] = "h%d" % i
        elif k == "one":
            if rng.random() < .6:
                self.args["q"] = txt()
            if rng.random() < .5:
                self.args["ls"] = [txt() for _ in range(rng.randint(0, 3))]
            if self.style != "clone" or rng.random() < .6:
                self.args["x-h"] = "h%d" % i
                body = [txt() for _ in range(rng.randint(0, 3))]
        elif k == "bytes":
            if rng.random() < .6:
                self.args["q"] = txt()
        else:
            if rng.random() < .6:
                self.args["tag"] = txt()
            if rng.random() < .4:
                self.args["limit"] = rng.choice([1, 7, 100 + i])
        full = dict(BASE[self.kind], **self.args) if self.style == "clone" else self.args
        if self.kind == "one" and self.style == "clone" and body is None:
            eb = ["base"]
        else:
            eb = body
        if body is not None:
            self.args["body"] = body
        end = "keep" if pool else "close"
        fix = bare if pool else (lambda a: a)
        J = [("content-type", "application/json"), ("x-call", "c%d" % i)]
        self.parts, answers, pieces = [], [], []
        flat = lambda a: [x for z in a.acts for x in z.get("bytes", [])]
        if k == "one":
            a = fix(rng.choice([resp(200, json.dumps("answer %d" % i).encode(), J), resp(200, json.dumps("answer %d" % i).encode(), J, framing="chunked"),
                                resp(404, json.dumps({"message": "error %d" % i}).encode(), J), resp(500, b"gone %d" % i, J), resp(200, b"{%d" % i, J)]))
            b, n = flat(a), plan["n"]
            at = sorted(rng.sample(range(1, len(b)), n - 1))
            self.parts = [{"bytes": b[x:y]} for x, y in zip([0] + at, at + [len(b)])]
            self.parts[-1]["end"] = end
            answers = [a.ans]
        elif k == "bytes":
            n = plan["n"]
            pieces = [bytes(rng.choice([b"piece ", b"same", bytes([i, 0, 255])])) + b"%d" % i * rng.choice([0, 1, 3]) for _ in range(n)]
            cut = rng.random() < .25
            a = fix(resp(200, b"".join(pieces), [("x-call", "c%d" % i)], framing="chunked", chunks=pieces, cut=sum(map(len, pieces)) if cut else None))
            acts = [z["bytes"] for z in a.acts]
            self.parts = [{"bytes": x} for x in acts[:n + 1]] + [{"end": "cut"} if cut else {"bytes": acts[n + 1], "end": end}]
            answers = [a.ans]
        else:
            of = plan["of"]
            for j, n in enumerate(of):
                last = j == len(of) - 1
                if last and n == 0 and rng.random() < .5:
                    a = fix(rng.choice([resp(404, json.dumps({"message": "error %d" % i}).encode(), J), resp(500, b"x", J), resp(200, b"{}", J)]))
                else:
                    page = {"items": [rng.choice([1000 * i + j, 7]) for _ in range(n)]}
                    if not last:
                        page["next_page"] = rng.choice(["token", "t%d_%d" % (i, j)])
                    elif rng.random() < .5:
                        page["next_page"] = None
                    a = fix(resp(200, json.dumps(page).encode(), J))
                self.parts.append({"bytes": flat(a), "end": end})
                answers.append(a.ans)
        self.rec = {"kind": k, "n": plan["n"] if k == "one" else 1, "op": oprec(DOC, o), "args": [argval(p["ty"], full.get(p["name"])) for p in o["params"]],
                    "body": bodyrec(o, eb) if self.kind == "one" else NOBODY,
                    "base": by(bases[self.client]), "who": self.client, "byq": self.kind == "plain", "answers": answers, "pieces": [list(x) for x in pieces]}

    def scen(self):
        return {"kind": self.kind, "client": self.client, "style": self.style, "args": self.args, "parts": self.parts}


def weave(rng, plans, drops):
    """A random weave, by the rules of Weave."""
    parts = lambda p: {"one": lambda: p["n"], "bytes": lambda: p["n"] + 2, "pages": lambda: len(p["of"])}[p["k"]]()
    asks = lambda p: {"one": lambda: 0, "bytes": lambda: p["n"] + 1, "pages": lambda: sum(p["of"]) + 1}[p["k"]]()
    st = [{"p": p, "ph": "new", "served": 0, "asks": 0} for p in plans]
    run, left = [], drops
    while True:
        acts = []
        for i, c in enumerate(st, 1):
            p = c["p"]
            if c["ph"] == "new":
                acts.append(["start", i])
            elif c["ph"] == "live":
                if c["served"] < parts(p) and (p["k"] != "pages" or c["asks"] >= sum(p["of"][:c["served"]]) + 1):
                    acts.append(["serve", i])
                if c["asks"] < asks(p):
                    acts.append(["ask", i])
                if left and (c["served"] < parts(p) or c["asks"] < asks(p)) and rng.random() < .1:
                    acts.append(["drop", i])
        if not acts:
            return run
        a = rng.choice(acts)
        c = st[a[1] - 1]
        if a[0] == "drop":
            c["ph"] = "dropped"
            left -= 1
        elif a[0] == "start":
            c["ph"] = "live"
        else:
            c["served" if a[0] == "serve" else "asks"] += 1
        run.append(a)


def run(c):
    c.start_driver_deps()
    c.build_gen()
    inv = "INIT MInit\nNEXT WNext\nINVARIANTS Own All\nPROPERTY Apart\nCONSTANTS Deep = %s Write = %s Drops = %d Shared = %s\n"
    r = c.design("MC_Weave", inv % ("FALSE", "TRUE", 1, "FALSE"), deadlock=False)
    c.expect_broken("MC_Weave", inv % ("FALSE", "FALSE", 1, "TRUE"), deadlock=False, tag="MC_Weave_shared")
    hists = c.serialized(r, "scen.json")
    if c.thorough:
        c.design("MC_Weave", inv % ("TRUE", "FALSE", 2, "FALSE"), deadlock=False, tag="MC_Weave_deep")
    rng = c.rng
    plays = [(h["p"], h["r"]) for h in rng.sample(hists, 4000 if c.thorough else 1200)]
    kind = lambda: rng.choice([{"k": "one", "n": rng.choice([1, 2, 3])}, {"k": "bytes", "n": rng.choice([0, 1, 2, 5])}, {"k": "pages", "of": [rng.choice([0, 1, 2, 3]) for _ in range(rng.choice([1, 2, 3]))]}])
    for _ in range(2000 if c.thorough else 500):
        plans = [kind() for _ in range(rng.choice([2, 3, 3, 4, 6]))]
        if rng.random() < .3:
            plans = [plans[0]] * len(plans)
        plays.append((plans, weave(rng, plans, rng.choice([0, 1, 2]))))
    binary = build_apis(c, {"pos": (DOC, "positional", SET), "bld": (DOC, "builder", SET)}, extra=RUST, extra_arms='            "weave" => weave(&ctx, &sc).await,\n')
    scens, sess = [], []
    for plans, steps in plays:
        pool = rng.random() < .4
        bases = rng.choice([["", "/v2"], ["/a", "/b"], ["/x/y", ""]])
        calls = [Call(rng, i, p, pool, bases) for i, p in enumerate(plans, 1)]
        pace = rng.choice([[0], [0, 1], [1, 2], [0, 2, 4]])
        wait = rng.random() < .6
        scens.append({"api": "weave", "script": [], "pool": pool, "bases": bases, "timeout_ms": 60000, "calls": [x.scen() for x in calls],
                      "steps": [{"s": s, "i": i, "pause": rng.choice(pace), **({"wait": True} if s == "start" and wait and calls[i - 1].kind != "pages" else {})} for s, i in steps]})
        sess.append({"version": by("1.2.3"), "calls": [x.rec for x in calls]})
    obs = c.run_driver(binary, scens, lanes=12)
    seen = set()
    for s, o in zip(sess, obs):
        evs = []
        for e in o["log"]:
            if e["e"] == "req":
                evs.append({"e": "garbage"} if e.get("bad") else reqev(e, seen))
            elif e["e"] == "out":
                evs.append(outev(e))
            elif e["e"] == "item":
                evs.append(dict(e, v=tagged(e["v"])))
            else:
                evs.append(e)
        if o["out"].get("k") != "woven":
            evs.append({"e": o["out"].get("k", "?")})
        s["events"] = evs
    c.notes["weaves"] = len(sess)
    c.notes["calls"] = sum(len(s["calls"]) for s in sess)
    c.notes["dropped"] = sum(1 for s in sess for e in s["events"] if e["e"] == "drop")
    c.sample({"steps": [[x["s"], x["i"]] for x in scens[7]["steps"]], "events": [[e["e"], e.get("i", 0)] for e in sess[7]["events"]]})
    c.validate("TraceWeave", "INIT TInit\nNEXT TNext\n", sess, what="calls under way at the same time",
               describe=lambda i: {"plans": plays[i][0], "steps": scens[i]["steps"], "calls": [{"kind": x["kind"], "client": x["client"], "style": x["style"], "args": x["args"]} for x in scens[i]["calls"]]})
