"""C20: the interface styles agree.

TLC checks Styles (the generator walking operations and tags builds exactly
the surface each style promises) and enumerates documents.  The real generator
is run on them and on larger ones in all styles and TraceStyles judges the
functions, traits and preludes it wrote and that running it again - in the
same process or another - writes the same code.  Documents using every
feature are compiled in all three styles under several settings; the same
calls are made through each, TraceStyles compares what was sent and returned
and TraceCall judges every call on its own.
"""
import json
from lib.core import Violation
from lib.docs import openapi, build_apis, by, trait_name
from lib.sess import Builder, resp, fail, reqev, outev
from lib.call import CFG

STYLES = ("positional", "builder", "separate")
BASE = ("new", "new_with_client", "baseurl", "client", "api_version", "inner")
COMPS = {
    "Obj": {"schema": {"type": "object", "required": ["n"], "properties": {"n": {"type": "integer", "format": "int64"}, "z": {"type": "string"}}}, "pass": "ref"},
    "Err": {"schema": {"type": "object", "required": ["message"], "properties": {"message": {"type": "string"}}}, "pass": "ref"},
    "Color": {"schema": {"type": "string", "enum": ["red", "dark-green", "a,b"]}, "pass": "val"},
    "Form": {"schema": {"type": "object", "required": ["a"], "properties": {"a": {"type": "string"}, "b": {"type": "integer", "format": "int64"}}}, "pass": "ref"},
    "Page": {"schema": {"type": "object", "required": ["items"], "properties": {"items": {"type": "array", "items": {"type": "string"}}, "next_page": {"type": "string"}}}, "pass": "ref"},
}
TAGPOOL = ["pets", "Pet Store", "pet-store", "petStore", "v1.2", "123", "type", "self", "", "--", "a/b", "Client", "ext", "x's", "A", "a", "+1", "system/networking", "HTTPServer", "new"]
HOST = ["get", "new", "list-all", "type", "a.b", "9lives", "client", "Error", "inner", "x__y", "baseurl", "String", "it's"]
SETTINGS = [{}, {"inner_type": "crate::hk::State"},
            {"derives": ["PartialEq"], "pre_hook": "crate::hk::pre", "post_hook": "crate::hk::post"}]
VALS = {"str": ["v", "a b", "z/&=?%+", "\u00e9\u4e2d", "", "a.b"], "i64": [0, -7, 12345678901], "i32": [5, -1], "bool": [True, False], "uuid": ["67e55044-10b1-426f-9247-bb680e5fe0c8"],
        "ref:Color": ["red", "dark-green", "a,b"], "arr:str": [[], ["x"], ["x", "y z", "x"]], "u32": [1, 500]}


def feature_doc(rng, n):
    """A document of n operations that together use everything."""
    ops = []
    for k in range(n):
        o = {"id": "op_%d" % k, "rust": "op_%d" % k, "params": [], "tags": rng.sample(TAGPOOL, rng.choice([0, 1, 1, 2, 3]))}
        path = "/o%d" % k
        for j in range(rng.choice([0, 0, 1, 2, 3])):
            o["params"].append({"name": "p%d" % j, "in": "path", "required": True, "ty": rng.choice(["str", "str", "i64", "uuid", "ref:Color"])})
            path += rng.choice(["/{p%d}", "/s/{p%d}", "/x-{p%d}"]) % j
        for j in range(rng.choice([0, 1, 2, 4])):
            o["params"].append({"name": "q%d" % j, "in": "query", "required": rng.random() < .5, "ty": rng.choice(["str", "i64", "bool", "ref:Color", "arr:str"])})
        for j in range(rng.choice([0, 0, 1, 2])):
            o["params"].append({"name": "x-h%d" % j, "rust": "x_h%d" % j, "in": "header", "required": rng.random() < .5, "ty": rng.choice(["str", "i32", "uuid"])})
        o["path"] = path
        kind = k % 8
        o["method"] = rng.choice(["post", "put", "patch", "delete"]) if kind in (1, 2, 3, 4, 5) else rng.choice(["get", "options", "delete", "post"])
        b = {1: ("application/json", "ref:Obj"), 2: ("application/json", "arr:str"), 3: ("application/x-www-form-urlencoded", "ref:Form"), 4: ("application/octet-stream", "bytes"),
             5: ("text/plain", "str")}.get(kind)
        if b:
            o["body"] = {"ct": b[0], "ty": b[1]}
        if kind == 6:
            o["method"] = "get"
            for p in o["params"]:
                p["required"] = p["in"] == "path" or p["required"] and p["in"] == "header"
            o["params"] += [{"name": "limit", "in": "query", "ty": "u32", "required": False}, {"name": "page_token", "in": "query", "ty": "str", "required": False}]
            o.update(paginated=True, responses=[{"status": "200", "kind": "json", "ty": "ref:Page"}, {"status": "4XX", "kind": "json", "ty": "ref:Err"}])
        elif kind == 7 and rng.random() < .5:
            o["method"] = "get"
            o.update(websocket=True, responses=[{"status": "default", "kind": "none"}])
        else:
            o["responses"] = rng.choice([
                [{"status": "200", "kind": "json", "ty": "ref:Obj"}, {"status": "4XX", "kind": "json", "ty": "ref:Err"}, {"status": "503", "kind": "json", "ty": "ref:Err"}],
                [{"status": "2XX", "kind": "json", "ty": "arr:str"}],
                [{"status": "204", "kind": "none"}, {"status": "default", "kind": "none"}],
                [{"status": "201", "kind": "none"}, {"status": "404", "kind": "none"}],
                [{"status": "default", "kind": "raw"}],
                [{"status": "200", "kind": "raw"}, {"status": "5XX", "kind": "json", "ty": "ref:Err"}]])
        ops.append(o)
    return {"ops": ops, "components": COMPS, "tags": [{"name": t, "description": "about " + t} for t in rng.sample(TAGPOOL, 5)]}


BODYV = {"ref:Obj": [{"n": 4, "z": "q"}, {"n": -1}], "arr:str": [["e", "f"], []], "ref:Form": [{"a": "x y&", "b": 3}, {"a": ""}], "bytes": [[1, 2, 255], []], "str": ["hello", ""]}
ANSWERS = [resp(200, b'{"n":1}', [("content-type", "application/json")]), resp(200, b'["a"]', [("content-type", "application/json")]), resp(200, b'{"items":["a"],"next_page":"t"}', [("x-r", "1"), ("x-r", "2")]),
           resp(204), resp(201), resp(404, b'{"message":"no"}', [("x-request-id", "9")]), resp(503, b'{"message":"busy"}'), resp(500, b"oops"), resp(404, b""), resp(200, b"nonsense"),
           resp(302, b"", [("location", "/elsewhere")]), resp(418, b"tea"), resp(200, b'{"n":1', cut=3), resp(503, b'{"mess', cut=5), fail([]), fail([{"text": "HTT"}])]


def strip(r):
    """What of a request must not depend on the style."""
    return {"method": r["method"], "target": r["target"], "body": r["body"], "headers": [h for h in r["headers"] if bytes(h[0]) not in (b"host", b"sec-websocket-key")]}


def surface_event(line, style, inner, paged):
    drop = set(BASE if inner else BASE[:-1])
    if style == "positional":
        drop |= {p + "_stream" for p in paged}
    ents, pre, base = [], [], []
    for cont, fn, _ in line["sigs"]:
        if cont == "prelude":
            pre.append(by(fn))
        elif cont.startswith("trait "):
            ents.append([by(cont[6:]), by(fn)])
        elif cont == "Client":
            (base if fn in drop else ents).append(fn if fn in drop else [by(cont), by(fn)])
    return {"e": "surface", "style": style, "inner": inner, "entries": ents, "prelude": pre}


def run(c):
    c.start_driver_deps()
    c.build_gen()
    rng = c.rng
    r = c.design("MC_Styles", "INIT MInit\nNEXT MNext\nCONSTANT MaxOps = %d\nINVARIANTS TypeOK Once Agrees Reachable Offered\n" % 2)
    scen = [[(bytes(o["name"]).decode(), [bytes(t).decode() for t in o["tags"]]) for o in d] for d in c.serialized(r, "scen.json")]
    scen = [d for d in scen if len(d) == 1] + rng.sample([d for d in scen if len(d) == 2], 400 if c.thorough else 60)
    for k in range(150 if c.thorough else 30):
        scen.append([("%s k%d" % (rng.choice(HOST), j) if rng.random() < .5 else "k%d" % j, [rng.choice(TAGPOOL) for _ in range(rng.choice([0, 1, 1, 2, 2, 4]))]) for j in range(rng.randint(3, 14))])
    for k in range(10):
        scen.append([(w, rng.sample(TAGPOOL, rng.choice([0, 1, 2]))) for w in rng.sample(HOST, 5)])
    jobs, meta = [], []
    for d in scen:
        ops = [{"id": n, "method": "get", "path": "/o%d" % k, "tags": t, "params": [], "responses": [{"status": "200", "kind": "none"}]} for k, (n, t) in enumerate(d)]
        jobs.append({"doc": openapi({"ops": ops, "tags": [{"name": t, "description": "d"} for t in rng.sample(TAGPOOL, 3)]}),
                     "runs": [{"style": s, "settings": {"inner_type": "u8"} if inner else {}, "want": ["sigs", "hash"]} for s in STYLES for inner in (False, True)]})
        meta.append((d, []))
    sess = [{"ops": [{"name": by(n), "tags": [by(t) for t in ts]} for n, ts in d], "events": []} for d in scen]

    # code is a function of document and settings
    big = [feature_doc(rng, n) for n in ([24, 40, 60] * 3 if c.thorough else [24, 40])]
    every = [{"style": s, "settings": st, "want": ["hash"]} for s in STYLES + ("cli", "cli_merged", "httpmock") for st in SETTINGS + [{"map_type": "::std::collections::BTreeMap"}]]
    gjobs = [{"doc": openapi(d), "runs": every + every} for d in big + [{"ops": [], "components": {}}]]
    gsess = [{"ops": [], "events": []} for _ in gjobs]
    for again in range(3):
        for line in c.generate(gjobs, "code%d" % again):
            if line["r"] != "ok":
                raise Violation("the generator refuses or fails on a document it must serve (%s)" % line["r"], json.dumps(line)[:2000])
            gsess[line["job"]]["events"].append({"e": "code", "style": json.dumps(every[line["run"] % len(every)]), "hash": line["hash"]})
    for again in range(2):
        for line in c.generate(jobs, "surf%d" % again):
            d = scen[line["job"]]
            if line["r"] != "ok" or isinstance(line.get("sigs"), dict):
                raise Violation("the generator fails on a document it must serve (%s)" % line["r"], json.dumps({"msg": line.get("msg") or line["sigs"], "ops": d})[:3000])
            st, inner = STYLES[line["run"] // 2], line["run"] % 2 == 1
            sess[line["job"]]["events"] += [surface_event(line, st, inner, ()), {"e": "code", "style": "%s %s" % (st, inner), "hash": line["hash"]}]
    c.notes["documents"] = len(scen)
    c.notes["generator_runs"] = sum(len(s["events"]) for s in gsess) + sum(len(s["events"]) for s in sess) // 2
    c.sample({"document": scen[-1], "separate": [[bytes(x).decode() for x in e] for ev in sess[-1]["events"] if ev["e"] == "surface" and ev["style"] == "separate" for e in ev["entries"]][:12]})
    c.validate("TraceStyles", "INIT TInit\nNEXT TNext\n", sess + gsess, what="surface or code of a generated client")

    # the same calls through all styles
    apis, docs = {}, []
    for n, st in enumerate(SETTINGS if c.thorough else rng.sample(SETTINGS, 2)):
        d = feature_doc(rng, 48 if c.thorough else 24)
        docs.append((d, st))
        for s in STYLES:
            apis["%s%d" % (s[:3], n)] = (d, s, st)
    hk = """
pub mod hk {
    #[derive(Clone, Debug)] pub struct State(pub u8);
    pub fn pre(_: &reqwest::Request) {}
    pub fn post(_: &Result<reqwest::Response, reqwest::Error>) {}
}
pub fn inner(_: &Ctx, _: &Value) -> hk::State { hk::State(1) }
"""
    arm = '            "s_%s" => { let c = crate::%s::Client::new_with_client(&url, rt::http_client()%s); glue_%s::stream(&ctx, &c, &op, &a, 99).await }\n'
    binary = build_apis(c, apis, extra=hk, extra_arms="\n" + "".join(arm % (a, a, ", crate::inner(&ctx, &sc)" if x[2].get("inner_type") else "", a) for a, x in apis.items()))
    B, groups = Builder(), []
    for n, (d, st) in enumerate(docs):
        for o in d["ops"]:
            for _ in range(24 if c.thorough else 6):
                args = {p["name"]: rng.choice(VALS[p["ty"]]) for p in o["params"] if p["required"] or rng.random() < .5}
                body = rng.choice(BODYV[o["body"]["ty"]]) if o.get("body") else None
                ans = rng.choice(ANSWERS)
                if rng.random() < .3:
                    ans = ANSWERS[{"json": 0}.get(o["responses"][0]["kind"], 3)]
                g = []
                for s in STYLES:
                    k = rng.randrange(max(1, len(o["tags"])))
                    g.append(len(B.items))
                    B.add("%s%d" % (s[:3], n), d, o, args, body=body, answer=ans, extra={})
                    B.items[-1][0]["args"]["__tag"] = k
                groups.append(g)
    obs = c.run_driver(binary, B.scenarios(), lanes=12)
    net = B.sessions(obs)
    c.notes["calls"] = len(net)
    c.validate("TraceCall", CFG("C20"), net, describe=lambda i: B.items[B.index[i]][0])
    # streams of pages through all styles
    PAGES = [resp(200, b'{"items":["a","b"],"next_page":"t 1&"}'), resp(200, b'{"items":[],"next_page":"t2"}'), resp(200, b'{"items":["z"]}'), resp(200, b'{"items":["c"],"next_page":""}'),
             resp(404, b'{"message":"no"}'), resp(200, b"[]"), resp(500, b"x"), resp(200, b'{"items":["a"],"ne', cut=9), fail([])]
    streams = []
    for n, (d, st) in enumerate(docs):
        for o in d["ops"]:
            for _ in range((12 if c.thorough else 5) if o.get("paginated") else 0):
                args = {p["name"]: rng.choice(VALS[p["ty"]]) for p in o["params"] if p["name"] != "page_token" and (p["required"] or rng.random() < .5)}
                pages = [rng.choice(PAGES[:2]) for _ in range(rng.randint(0, 3))] + [rng.choice(PAGES[2:])]
                streams.append([{"api": "s_%s%d" % (s[:3], n), "op": o["id"], "args": dict(args, __tag=rng.randrange(max(1, len(o["tags"])))), "script": [x.acts for x in pages]} for s in STYLES])
    sobs = c.run_driver(binary, [x for g in streams for x in g], lanes=12, tag="streams")
    pairs = []
    for k, g in enumerate(streams):
        evs = []
        for x, o in zip(g, sobs[3 * k:3 * k + 3]):
            reqs = [reqev(e, set()) for e in o["log"] if e["e"] == "req" and not e.get("bad")]
            gave = [e for e in o["log"] if e["e"] != "req"]
            for e in gave:
                e.pop("msg", None)
            evs.append({"e": "call", "style": x["api"], "reqs": [strip(r) for r in reqs],
                        "out": {"k": str(o["out"].get("k")), "headers": [], "status": 0, "value": json.dumps(gave, sort_keys=True), "bytes": [], "body": []}})
        pairs.append({"ops": [], "events": evs})
    c.notes["streams"] = len(sobs)
    c.sample({"stream": streams[0][0], "gave": pairs[0]["events"][0]["out"]["value"][:300]})
    for g in groups:
        evs = []
        for k in g:
            e = net[k]["events"]
            out = dict({"headers": [], "status": 0, "value": 0, "bytes": [], "body": []}, **e[-1])
            out = {x: out[x] for x in ("k", "headers", "status", "value", "bytes", "body")}
            # values of different shapes cannot be told apart by =: their text can
            out["value"] = json.dumps(out["value"], sort_keys=True)
            reqs = [strip(r) for r in e if r["e"] == "req"]
            evs.append({"e": "call", "style": B.items[k][0]["api"], "reqs": reqs, "out": out})
        pairs.append({"ops": [], "events": evs})
    c.validate("TraceStyles", "INIT TInit\nNEXT TNext\n", pairs, what="the same call through different interface styles", describe=lambda i: streams[i] if i < len(streams) else [B.items[k][0] for k in groups[i - len(streams)]], tag="TraceStyles2")
