"""C16: parameters of an operation.

TLC checks Params (reading the declarations of the path item and of the
operation in any order ends in the one allowed result) and writes every
document of the model with its resolution.  The documents are made concrete
(inline or through chains of references, several operations per path item),
the real generator is run on them, and TraceParams judges the arguments and
setters it generated; a part is compiled and called, and TraceCall judges
the requests and the refusals.
"""
import json
from lib.core import Violation
from lib.docs import openapi, build_apis, by, order, path_names
from lib.sess import Builder, resp
from lib.call import CFG

# lists of (a, B, c) -> names: the byte order a > B, a < c is kept
POOL = [("alpha", "Beta", "gamma"), ("id", "Id2", "zone"), ("x-a", "X-b", "x-c"), ("k1", "K10", "k2"), ("some_name", "Limit", "userId"), ("f.o", "Ba-r", "q_1")]
IDENT = {"alpha": "alpha", "Beta": "beta", "gamma": "gamma", "id": "id", "Id2": "id2", "zone": "zone", "x-a": "x_a", "X-b": "x_b", "x-c": "x_c", "k1": "k1",
         "K10": "k10", "k2": "k2", "some_name": "some_name", "Limit": "limit", "userId": "user_id", "f.o": "f_o", "Ba-r": "ba_r", "q_1": "q_1"}
TY = {0: "i64", 1: "str"}
COMPS = {"Obj": {"schema": {"type": "object", "required": ["n"], "properties": {"n": {"type": "integer", "format": "int64"}, "z": {"type": "string"}}}, "pass": "ref"}}
BODY = {"none": None, "plain": "arr:str", "struct": "ref:Obj"}


def concrete(rng, d, res, body, oid, path, plevel=None):
    """An operation for the model document d; returns (op, session head)."""
    pool = rng.choice(POOL)
    nm = lambda n: {"a": pool[0], "B": pool[1], "c": pool[2]}[bytes(n).decode()]

    # the two declarations may differ in nothing but what the model varies
    ty = rng.choice([TY, TY, {0: "str", 1: "str"}, {0: "i64", 1: "i64"}])

    def decl(x):
        n = nm(x["n"])
        more = {"nullable": True, "docreq": rng.random() < .7} if x["in"] != "path" and not x["req"] and rng.random() < .2 else {}
        return {"name": n, "in": x["in"], "required": x["req"], "ty": ty[x["tag"]], "ref": rng.choice([0, 0, 1, 2, 3]), "rust": IDENT[n], **more}
    pl, ol = [decl(x) for x in d["plevel"]], [decl(x) for x in d["olevel"]]
    rng.shuffle(pl), rng.shuffle(ol)
    names = [nm(n) for n in d["names"]]
    t = path
    for k, n in enumerate(names):
        t += "/" + rng.choice(["", "s", "s-"]) + "{" + n + "}"
    r = [decl(x) for x in res]
    o = {"id": oid, "method": "post" if body != "none" else rng.choice(["get", "delete", "put"]), "path": t, "params": r, "plevel": pl, "olevel": ol,
         "responses": [{"status": "200", "kind": "none", "ref": rng.choice([0, 1, 2])}]}
    if body != "none":
        o["body"] = {"ct": "application/json", "ty": BODY[body], "ref": rng.choice([0, 0, 1, 2])}
    return o, head(o, body)


def head(o, body):
    enc = lambda p: {"n": by(p["name"]), "in": p["in"], "req": p["required"], "tag": p["ty"]}
    return {"d": {"plevel": [enc(p) for p in o["plevel"]], "olevel": [enc(p) for p in o["olevel"]], "names": [by(n) for n in path_names(o["path"])]},
            "body": body, "ident": [[by(p["name"]), by(p["rust"])] for p in o["params"]]}


def big(rng, n, oid):
    """Many parameters, declared at both levels."""
    names = ["n%02d" % k for k in range(n)]
    rng.shuffle(names)
    pl, ol, path, tmpl = [], [], [], "/big-" + oid
    for nme in names:
        where = rng.choice(["path", "query", "query", "header"]) if n < 30 else rng.choice(["query", "header", "header"])
        mk = lambda t: {"name": nme, "in": where, "required": where == "path" or rng.random() < .5, "ty": TY[t], "ref": rng.choice([0, 0, 0, 1, 2]), "rust": nme}
        x = rng.choice("pob")
        if x in "pb":
            pl.append(mk(0))
        if x in "ob":
            ol.append(mk(1))
        if where == "path":
            path.append(nme)
    rng.shuffle(path)
    for p in path:
        tmpl += "/{" + p + "}"
    rng.shuffle(pl), rng.shuffle(ol)
    eff = [p for p in pl if p["name"] not in {q["name"] for q in ol}] + ol
    o = {"id": oid, "method": "post", "path": tmpl, "params": eff, "plevel": pl, "olevel": ol, "body": {"ct": "application/json", "ty": "ref:Obj", "ref": 2},
         "responses": [{"status": "200", "kind": "none"}]}
    o["params"] = order(o)
    return o, head(o, "struct")


def shared(rng, k):
    """Two operations on one path item: one overrides, one does not."""
    ty = rng.choice([TY, {0: "str", 1: "str"}])
    D = lambda n, i, r, t: {"name": n, "in": i, "required": r, "ty": ty[t], "ref": rng.choice([0, 1, 2]), "rust": IDENT[n]}
    pl = [D("id", "path", True, 0), D("zone", rng.choice(["query", "header"]), rng.random() < .5, 0), D("gamma", "query", rng.random() < .5, 0)]
    ol = rng.sample([D("id", "path", True, 1), D("zone", rng.choice(["query", "header"]), rng.random() < .5, 1), D("gamma", "header", True, 1),
                     D("alpha", "query", False, 1)], rng.randint(0, 4))
    out = []
    lv = [ol, [], rng.sample(ol, min(1, len(ol)))]
    rng.shuffle(lv)
    for m, lo in zip(("get", "put", "delete"), lv):
        eff = [p for p in pl if p["name"] not in {q["name"] for q in lo}] + lo
        o = {"id": "sh%d_%s" % (k, m), "method": m, "path": "/sh%d/{id}" % k, "params": eff, "plevel": pl, "olevel": lo, "responses": [{"status": "200", "kind": "none"}]}
        o["params"] = order(o)
        out.append((o, head(o, "none")))
    return out


def run(c):
    c.start_driver_deps()
    c.build_gen()
    rng = c.rng
    r = c.design("MC_Params", "INIT Init\nNEXT Next\nCONSTANT NameCount = 2\nINVARIANTS Right OwnRequired\n", deadlock=False)
    scen = c.serialized(r, "scen.json")
    if c.thorough:
        r = c.design("MC_Params", "INIT Init\nNEXT Next\nCONSTANT NameCount = 3\nINVARIANTS Right OwnRequired\n", deadlock=False, tag="MC_Params3")
        scen3 = c.serialized(r, "scen.json")
        scen += rng.sample(scen3, 9000) if len(scen3) > 9000 else scen3
    ops = []
    for k, s in enumerate(scen):
        body = rng.choice(["none", "plain", "struct"])
        ops.append(concrete(rng, s["d"], s["r"], body, "op%d" % k, "/o%d" % k))
    for k, n in enumerate([8, 15, 24, 45, 70, 90] * 2 if c.thorough else [rng.choice([8, 15]), 24, 45, 80]):
        ops.append(big(rng, n, "big%d" % k))
    for k in range(60 if c.thorough else 25):
        ops += shared(rng, k)
    # documents of 25 operations each; every operation is judged
    groups, cur = [], []
    for o in ops:
        cur.append(o)
        if len(cur) >= 25 and not o[0]["id"].startswith("sh"):
            groups.append(cur)
            cur = []
    groups.append(cur)
    jobs = [{"doc": openapi({"ops": [o for o, _ in g], "components": COMPS}),
             "runs": [{"style": "positional", "settings": {}, "want": ["sigs"]}, {"style": "builder", "settings": {}, "want": ["sigs"]}]} for g in groups]
    sess = []
    for line in c.generate(jobs, "sigs"):
        g = groups[line["job"]]
        if line["r"] != "ok":
            raise Violation("the generator refuses or fails on parameters it must serve (%s)" % line["r"], json.dumps({"msg": line.get("msg"), "ops": [o["id"] for o, _ in g]}))
        fns = {}
        for cont, fn, args in line["sigs"]:
            fns.setdefault(cont, []).append((fn, args))
        for o, h in g:
            if line["run"] == 0:
                f = [a for n, a in fns.get("Client", []) if n == o["id"]]
                ev = [{"e": "fn", "args": [by(x) for x in a]} for a in f] or [{"e": "missing"}]
            else:
                n = "".join(w.capitalize() for w in o["id"].split("_"))
                f = [x for x, _ in fns.get("builder::" + n, []) if x not in ("new", "send", "stream")]
                ev = [{"e": "setters", "names": [by(x) for x in f]}]
            sess.append(dict(h, events=ev))
    c.notes["declarations_resolved"] = len(sess)
    c.sample({"op": ops[40][0]["path"], "path_level": [[p["name"], p["in"]] for p in ops[40][0]["plevel"]], "op_level": [[p["name"], p["in"]] for p in ops[40][0]["olevel"]],
              "arguments": [bytes(a).decode() for a in sess[40]["events"][0].get("args", [])]})
    c.validate("TraceParams", "INIT TInit\nNEXT TNext\n", sess, what="parameters of an operation", describe=lambda i: None)

    # real calls
    pick = [o for o in ops if o[0]["id"].startswith(("big", "sh"))][:400 if c.thorough else 40]
    both = [o for o in ops if o[0]["id"].startswith("op") and {p["name"] for p in o[0]["plevel"]} & {p["name"] for p in o[0]["olevel"]}]
    rest = [o for o in ops if o[0]["id"].startswith("op")]
    pick += rng.sample(both, min(len(both), 150 if c.thorough else 40)) + rng.sample(rest, min(len(rest), 100 if c.thorough else 30))
    uniq = {o["id"]: o for o, _ in pick}
    d = {"ops": list(uniq.values()), "components": COMPS}
    binary = build_apis(c, {"pos": (d, "positional"), "bld": (d, "builder")})
    B = Builder()
    V = {"i64": [0, -7, 12345678901], "str": ["v", "a b", "z/&=?%", "9"]}
    ans = resp(200)
    for o in d["ops"]:
        def args(skip):
            return {p["name"]: rng.choice(V[p["ty"]]) for p in o["params"] if p["name"] not in skip}
        body = {None: None, "arr:str": ["e", "f"], "ref:Obj": {"n": 3}}[o["body"]["ty"] if o.get("body") else None]
        opt = [p["name"] for p in o["params"] if not p["required"]]
        req = [p["name"] for p in o["params"] if p["required"]]
        for _ in range(3 if c.thorough else 1):
            for api in ("pos", "bld"):
                B.add(api, d, o, args([]), body=body, answer=ans)
                B.add(api, d, o, args(opt), body=body, answer=ans)
                if len(opt) > 1:
                    B.add(api, d, o, args(rng.sample(opt, rng.randint(1, len(opt) - 1))), body=body, answer=ans)
        # a required parameter left out: only a builder allows it
        for n in (req if len(req) < 6 else rng.sample(req, 4)):
            B.add("bld", d, o, args([n]), body=body, answer=ans, bad=(n,))
            B.add("bld", d, o, args(opt + [n]), body=body, answer=ans, bad=(n,))
        if o.get("body"):
            B.add("bld", d, o, args([]), body=None, answer=ans, body_bad=True)
    obs = c.run_driver(binary, B.scenarios(), lanes=14)
    net = B.sessions(obs)
    c.notes["calls"] = len(net)
    c.validate("TraceCall", CFG("C16"), net, what="request of an operation with parameters from both levels", describe=lambda i: B.items[i][0])
