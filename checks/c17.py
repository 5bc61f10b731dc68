"""C17: mocks.

TLC checks Mock over small templates and values: the mock of an operation
answers its client exactly when the arguments are the expected ones, never
another verb, another number of segments or other literal text.  Generated
documents are turned into clients and mocks; the real client's requests are
recorded from the wire and shown to really generated mocks - of the operation
called and of all others, with expectations that hold and that do not - and
TraceMock judges every decision and every answer a mock was told to give.
"""
import json
from urllib.parse import urlencode
from lib.core import Violation, ToolError
from lib.docs import openapi, build_apis, by, text, tagged, parse_json, mock_glue, order, raw_body, rname, kinds
from lib.sess import resp, reqev, status_rec, bodyrec

COMPS = {
    "Obj": {"schema": {"type": "object", "required": ["n"], "properties": {"n": {"type": "integer", "format": "int64"}, "z": {"type": "string"}, "l": {"type": "array", "items": {"type": "string"}}}}, "pass": "ref"},
    "Err": {"schema": {"type": "object", "required": ["message"], "properties": {"message": {"type": "string"}}}, "pass": "ref"},
    "Color": {"schema": {"type": "string", "enum": ["red", "dark-green", "a,b"]}, "pass": "val"},
    "Form": {"schema": {"type": "object", "required": ["a"], "properties": {"a": {"type": "string"}, "b": {"type": "integer", "format": "int64"}}}, "pass": "ref"},
    "Page": {"schema": {"type": "object", "required": ["items"], "properties": {"items": {"type": "array", "items": {"type": "string"}}, "next_page": {"type": "string"}}}, "pass": "ref"},
}
VERBS = ["get", "put", "post", "delete", "options", "head", "patch", "trace"]
PLAIN = ["", "", "v", "w", "x-1", "a~b", "s:t", "A", "v1", "1", "12", "red", "x", "aa", "p@q", "k=v", "a,b"]
HARD = ["a b", "a.c", "abc", "a/b", "50%", "x+y", "\u00e9", "(a)", "a|b", "(", "$", "^a", "a?b", "%61", "[a]", "{x}"]
VALS = {"i64": [0, -7, 12345678901], "i32": [5, -1, 51], "bool": [True, False], "uuid": ["67e55044-10b1-426f-9247-bb680e5fe0c8", "67e55044-10b1-426f-9247-bb680e5fe0c9"],
        "ref:Color": ["red", "dark-green", "a,b"], "u32": [1, 500], "f64": [1.5, -0.25, 2.0], "datetime": ["2021-01-02T03:04:05Z", "2021-01-02T03:04:06Z"]}
BODYV = {"ref:Obj": [{"n": 4, "z": "q"}, {"n": -1}, {"n": 4}, {"n": 4, "z": "q", "l": ["a"]}, {"n": 4, "z": "q", "l": ["a", "b"]}], "arr:str": [["e", "f"], ["f", "e"], [], ["e"]], "map:str": [{"a": "1"}, {}, {"a": "1", "b": ""}],
         "ref:Form": [{"a": "x y&", "b": 3}, {"a": ""}], "bytes": [[1, 2, 255], [], [34]], "str": ["hello", "", "hell\u00f6", "{\"a\":1}"]}
ERRS = [{"status": "4XX", "kind": "json", "ty": "ref:Err"}, {"status": "503", "kind": "json", "ty": "ref:Err"}]
RESPS = [[{"status": "200", "kind": "json", "ty": "ref:Obj"}] + ERRS, [{"status": "2XX", "kind": "json", "ty": "arr:str"}, {"status": "5XX", "kind": "json", "ty": "ref:Err"}],
         [{"status": "204", "kind": "none"}, {"status": "default", "kind": "none"}], [{"status": "201", "kind": "none"}, {"status": "404", "kind": "none"}, {"status": "4XX", "kind": "none"}],
         [{"status": "default", "kind": "raw"}], [{"status": "200", "kind": "raw"}, {"status": "5XX", "kind": "json", "ty": "ref:Err"}],
         [{"status": "299", "kind": "json", "ty": "map:str"}, {"status": "418", "kind": "json", "ty": "ref:Err"}], [{"status": "default", "kind": "json", "ty": "ref:Obj"}],
         [{"status": "202", "kind": "json", "ty": "ref:Page"}, {"status": "505", "kind": "none"}, {"status": "499", "kind": "none"}]]
QNAMES = [("q0", None), ("q1", None), ("sort-by", "sort_by"), ("value", None), ("limit", None), ("self-id", "self_id"), ("into_inner", None), ("q.x", "q_x")]
SEGS = ["a", "b", "aa", "a-b", "v1.0", "x(1)", "$m", "p", "A", "a+b", "[i]", "*"]
WIRED = ["a b", "\u00e9"]      # literal text that is escaped on the wire


def mock_doc(rng, n):
    ops, seen = [], set()
    for k in range(n):
        o = {"id": "op_%d" % k, "rust": "op_%d" % k, "params": [], "tags": []}
        while True:
            path, ps = "", []
            for j in range(rng.choice([1, 2, 2, 3, 4])):
                if rng.random() < .5:
                    path += "/" + (rng.choice(SEGS) if rng.random() < .93 else rng.choice(WIRED))
                else:
                    m = "p%d" % len(ps)
                    nm = m if rng.random() < .8 else "p-%d" % len(ps)
                    ps.append({"name": nm, "rust": m if nm == m else "p_%d" % len(ps), "in": "path", "required": True, "ty": rng.choice(["str", "str", "str", "i64", "uuid", "ref:Color"])})
                    path += rng.choice(["/{%s}", "/{%s}", "/a-{%s}", "/{%s}.x", "/{%s}:go"]) % nm
            o["method"] = rng.choice(VERBS)
            if rng.random() < .1:
                path += "/"
            key = __import__("re").sub(r"\{[^}]*\}", "{}", path)
            if (key, o["method"]) not in seen and not any(kk == key and pp != path for kk, pp in [(x[0], x[2]) for x in seen if len(x) == 3]):
                break
        seen |= {(key, o["method"]), (key, "", path)}
        o["path"], o["params"] = path, ps
        for nm, rust_ in rng.sample(QNAMES, rng.choice([0, 1, 1, 2, 3])):
            o["params"].append({"name": nm, "rust": rust_ or nm, "in": "query", "required": rng.random() < .4, "ty": rng.choice(["str", "str", "i64", "bool", "ref:Color", "uuid", "i32"] + (["f64", "datetime"] if rng.random() < .3 else []))})
        if rng.random() < .2:
            o["params"].append({"name": "x-h", "rust": "x_h", "in": "header", "required": rng.random() < .5, "ty": "str"})
        b = rng.choice([None, None, ("application/json", "ref:Obj"), ("application/json", "ref:Obj"), ("application/json", "arr:str"), ("application/json", "map:str"), ("application/x-www-form-urlencoded", "ref:Form"),
                        ("application/octet-stream", "bytes"), ("text/plain", "str")])
        if b and o["method"] not in ("head", "trace", "get", "options"):
            o["body"] = {"ct": b[0], "ty": b[1]}
        o["responses"] = rng.choice(RESPS)
        if k == 3:
            o.update(method="get", websocket=True, responses=[{"status": "default", "kind": "none"}])
            o.pop("body", None)
        ops.append(o)
    return {"ops": ops, "components": COMPS}


def wire(p, v):
    """The text a value has in a request."""
    return by(repr(v)) if p["ty"] == "f64" else text(v)


def pick(rng, p):
    if p["ty"] != "str":
        return rng.choice(VALS[p["ty"]])
    return rng.choice(PLAIN if rng.random() < .8 else HARD)


def exp(p, v):
    """(what the harness sets, what the specification reads)"""
    e = {"part": p["in"], "n": by(p["name"]), "k": "text", "s": [], "v": tagged(None), "renamed": False, "display": False, "ct": ""}
    if v is None:
        return {"n": p["name"], "k": "none"}, dict(e, k="absent", renamed=rname(p) != p["name"])
    return {"n": p["name"], "k": "set", "v": v}, dict(e, s=wire(p, v), renamed=p["in"] == "query" and rname(p) != p["name"],
                                                     display=p["in"] == "query" and (p["ty"] == "datetime" or p["ty"] == "f64" and v == int(v)))


def body_exp(o, v):
    raw = raw_body(o)
    e = {"part": "body", "n": by("body"), "k": "text", "s": [], "v": tagged(None), "renamed": False, "display": False, "ct": "text"}
    if raw == "bytes":
        e.update(s=list(v), ct="bytes")
    elif raw == "text":
        e.update(s=by(v))
    elif o["body"]["ct"] == "application/x-www-form-urlencoded":
        e.update(s=by(urlencode(v)), ct="form")
    else:
        e.update(k="json", v=tagged(v), ct="json")
    return {"n": "body", "k": "set", "v": v}, e


def run(c):
    c.start_driver_deps('httpmock = { path = "%s/stubs/httpmock" }\n' % __import__("lib.core").core.ROOT)
    c.build_gen()
    rng = c.rng
    c.design("MC_Mock", "INIT KInit\nNEXT KNext\nINVARIANTS Exact OtherVerb OtherPath LiteralCounts\n")
    docs = [mock_doc(rng, 30) for _ in range(6 if c.thorough else 2)]
    gd = c.gen_dir()
    jobs = [{"doc": openapi(d), "runs": [{"style": s, "settings": {}, "out": "%s/mock%d.rs" % (gd, n), "crate_path": "crate::api%d" % n}]} for n, d in enumerate(docs) for s in ["httpmock_merged" if n % 2 else "httpmock"]]
    for line in c.generate(jobs, "mocks"):
        if line["r"] != "ok":
            raise Violation("the mock generator refuses or fails on a document it must serve (%s)" % line["r"], json.dumps(line)[:2000])
    N = range(len(docs))
    files = {"mockglue%d.rs" % n: mock_glue(d, "crate::api%d" % n, "crate::mock%d" % n) for n, d in enumerate(docs)}
    mods = "".join('\n#[path = "api/mock%d.rs"] pub mod mock%d;\nmod mockglue%d;' % (n, n, n) for n in N)
    arms = "".join('\n            "mock%d" => mockglue%d::decide(&sc),' % (n, n) for n in N)
    binary = build_apis(c, {"api%d" % n: (d, "builder" if n % 2 else "positional") for n, d in enumerate(docs)}, extra_mods=mods, extra_arms=arms, files=files)
    # phase 1: the real client's requests
    calls = []
    for n, d in enumerate(docs):
        for o in d["ops"]:
            for _ in range(12 if c.thorough else 7):
                args = {}
                for p in o["params"]:
                    if p["required"] or rng.random() < .6:
                        v = pick(rng, p)
                        args[p["name"]] = "h" if p["in"] == "header" else v
                body = rng.choice(BODYV[o["body"]["ty"]]) if o.get("body") else None
                calls.append((n, d, o, args, body))
    obs = c.run_driver(binary, [{"api": "api%d" % n, "op": o["id"], "args": dict(args, **({"body": body} if body is not None else {})), "base": "", "script": [resp(204).acts]} for n, d, o, args, body in calls], lanes=12, tag="calls")
    # phase 2: mocks look at them
    scen, meta = [], []
    for (n, d, o, args, body), ob in zip(calls, obs):
        rq = [e for e in ob["log"] if e.get("e") == "req"]
        if len(rq) != 1 or rq[0].get("bad"):
            raise Violation("a valid call did not send one request", json.dumps({"op": o, "args": args, "log": ob})[:3000])
        ds = []
        ps = [p for p in o["params"] if p["in"] != "header"]

        def decide(op, es):
            same = op is o and all(ok for _, _, ok in es)
            ds.append(({"op": op["id"], "exps": [h for h, _, _ in es]}, {"op": op, "exps": [t for _, t, _ in es], "same": same}))

        def truth(p):
            return exp(p, args.get(p["name"])) + (True,)

        def other(p):
            while True:
                v = None if not p["required"] and rng.random() < .4 else pick(rng, p)
                t = args.get(p["name"])
                if v is not None and p["ty"] == "str" and t is not None and rng.random() < .5:
                    v = rng.choice([t + "x", "x" + t, t[:-1], t[1:], t.swapcase()])     # almost the value sent
                if v != args.get(p["name"]):
                    return exp(p, v) + (False,)
        bt = [body_exp(o, body) + (True,)] if body is not None else []
        decide(o, [])
        decide(o, [truth(p) for p in ps] + bt)
        decide(o, [truth(p) for p in ps if rng.random() < .5])
        for p in ps:
            decide(o, [truth(p)])
            decide(o, [other(p)])
            decide(o, [truth(q) if q is not p else other(p) for q in ps] + bt)
        for b in rng.sample(BODYV[o["body"]["ty"]], min(3, len(BODYV[o["body"]["ty"]]))) if o.get("body") else []:
            decide(o, [body_exp(o, b) + (b == body,)])
        for q in d["ops"]:
            if q is not o:
                decide(q, [])
                if rng.random() < .1:
                    decide(q, [exp(p, pick(rng, p)) + (False,) for p in q["params"] if p["in"] != "header" and rng.random() < .6])
        r = rq[0]
        scen.append({"api": "mock%d" % n, "req": {k: r[k] for k in ("method", "target", "headers", "body")}, "decisions": [x[0] for x in ds]})
        meta.append((r, ds))
    # answers
    answers = []
    VAL = {"ref:Obj": BODYV["ref:Obj"], "arr:str": BODYV["arr:str"], "map:str": BODYV["map:str"], "ref:Err": [{"message": "no"}, {"message": ""}], "ref:Page": [{"items": ["a"], "next_page": "t"}, {"items": []}]}
    for n, d in enumerate(docs):
        for o in d["ops"]:
            a = []
            for k, r in enumerate(o["responses"]):
                for _ in range(3):
                    v = rng.choice(VAL[r["ty"]]) if r["kind"] == "json" else rng.choice([None, 3, "x", {"a": [1, True]}])
                    hund = {"2XX": 200, "4XX": 400, "5XX": 500}.get(r["status"], rng.choice([200, 400, 500]))
                    g = rng.choice([hund, hund + 4, hund + 99, 100, 300, 600, 999, 199, 399])
                    a.append({"op": o["id"], "resp": k, "given": g, "v": v})
            answers.append((n, o, a))
    aobs = c.run_driver(binary, scen + [{"api": "mock%d" % n, "answers": a} for n, o, a in answers], lanes=12, tag="mocks")
    sess, kinds_ = [], {"accept": 0, "reject": 0, "same": 0}
    for (r, ds), ob in zip(meta, aobs):
        got = ob["out"]["d"]
        ok, tree = parse_json(r["body"])
        req = {"method": by(r["method"]), "target": r["target"], "bytes": r["body"], "jsonok": ok, "json": tree}
        evs = []
        for (h, t), g in zip(ds, got):
            evs.append({"e": "match", "op": {"method": by(t["op"]["method"].upper()), "path": by(t["op"]["path"])}, "exps": t["exps"], "same": t["same"], "accept": g["accept"], "panic": g["panic"]})
            kinds_["same" if t["same"] else "accept" if g["accept"] else "reject"] += 1
        sess.append({"req": req, "events": evs})
    for (n, o, a), ob in zip(answers, aobs[len(scen):]):
        evs = []
        for q, g in zip(a, ob["out"]["d"]):
            rr = o["responses"][q["resp"]]
            kind = "none" if o.get("websocket") else rr["kind"]
            rec = {"st": status_rec(rr["status"]), "kind": kind}
            if g["panic"]:
                evs.append({"e": "refused", "resp": rec, "given": q["given"]})
                continue
            ok, tree = parse_json(g["body"])
            evs.append({"e": "then", "resp": rec, "given": q["given"], "v": tagged(q["v"]), "status": g["status"] or 0, "jsonok": ok, "json": tree,
                        "ctype": ["content-type", "application/json"] in [[h[0].lower(), h[1]] for h in g["headers"]], "empty": not g["body"]})
        sess.append({"req": {"method": [], "target": [], "bytes": [], "jsonok": False, "json": tagged(None)}, "events": evs})
    c.notes["decisions"] = kinds_
    c.notes["answers"] = sum(len(a) for _, _, a in answers)
    c.sample({"request": scen[0]["req"]["method"] + " " + bytes(scen[0]["req"]["target"]).decode(), "decisions": list(zip(scen[0]["decisions"][:4], aobs[0]["out"]["d"][:4]))})
    known = ", ".join('"%s"' % f["id"] for f in c.findings if f["status"] == "known")
    c.validate("TraceMock", "INIT TInit\nNEXT TNext\nCONSTANT Known = {%s}\n" % known, sess, what="a decision or answer of a generated mock", describe=lambda i: scen[i] if i < len(scen) else answers[i - len(scen)])
