"""C18: command lines.

TLC checks Cli over all flag subsets with good and bad values, repeated and
unknown flags, files and answers of small operations, and writes the
operations and command lines; generated documents with these and random
operations are turned into clients and commands, really parsed by clap and
executed against servers that play the answers.  TraceCli judges the
definition of every command, which lines are refused, the requests and the
callbacks.
"""
import json
import os
from lib.core import Violation
from lib.docs import openapi, build_apis, by, tagged, cli_glue, kinds, num
from lib.sess import oprec, tyrec, reqev, resp, fail

COMPS = {
    "Color": {"schema": {"type": "string", "enum": ["red", "dark-green", "a,b", "Blue", "X"]}, "pass": "val"},
    "Name": {"schema": {"type": "string"}, "pass": "ref", "tla": {"t": "str"}},
    "Inner": {"schema": {"type": "object", "required": ["x"], "properties": {"x": {"type": "string"}}}, "pass": "ref"},
    "List": {"schema": {"type": "array", "items": {"type": "string"}}, "pass": "ref"},
    "Err": {"schema": {"type": "object", "required": ["message"], "properties": {"message": {"type": "string"}}}, "pass": "ref"},
    "Obj": {"schema": {"type": "object", "required": ["n"], "properties": {"n": {"type": "integer", "format": "int64"}, "z": {"type": "string"}}}, "pass": "ref"},
    "Page": {"schema": {"type": "object", "required": ["items"], "properties": {"items": {"type": "array", "items": {"type": "string"}}, "next_page": {"type": "string", "nullable": True}}}, "pass": "ref"},
    "OPage": {"schema": {"type": "object", "required": ["items"], "properties": {"items": {"type": "array", "items": {"$ref": "#/components/schemas/Obj"}}, "next_page": {"type": "string"}}}, "pass": "ref"},
}
SCALAR = ("str", "i64", "i32", "u8", "u32", "bool", "uuid", "f64", "nzu32", "ref:Color", "ref:Name")
SCHEMA = {"str": {"type": "string"}, "i64": {"type": "integer", "format": "int64"}, "i32": {"type": "integer", "format": "int32"},
          "u8": {"type": "integer", "format": "uint8", "minimum": 0}, "u32": {"type": "integer", "format": "uint32", "minimum": 0}, "bool": {"type": "boolean"},
          "uuid": {"type": "string", "format": "uuid"}, "f64": {"type": "number", "format": "double"}, "nzu32": {"type": "integer", "format": "uint32", "minimum": 1}}
GOOD = {"str": ["v", "a b", "x=y", "-dash", "--two", "", "\u00e9", "a,b", "50%", "json-body", "'q'"], "i64": [0, -7, 2**63 - 1], "i32": [5, -2147483648], "u8": [0, 255],
        "u32": [1, 2**32 - 1], "bool": [True, False], "uuid": ["67e55044-10b1-426f-9247-bb680e5fe0c8", "0e14a5d0-37a1-4a1f-8d5e-9f1f3a3f6d10"], "f64": [1.5, -0.25],
        "nzu32": [1, 3, 2**32 - 1], "ref:Color": ["red", "dark-green", "a,b", "Blue", "X"], "ref:Name": ["n", "m n"]}
BAD = {"i64": ["x", "", str(2**63), "1.0"], "i32": [str(2**31), "1 "], "u8": ["256", "-1"], "u32": ["-1", str(2**32)], "bool": ["True", "1", ""], "uuid": ["u", ""],
       "f64": ["x", "", "1,5"], "nzu32": ["0", "-1"], "ref:Color": ["Red", "", "dark", "a", "blue", "x"]}
FLAG = {"sortBy": "sort-by", "sort_by": "sort-by", "sort-by": "sort-by", "type": "type", "q.x": "q-x", "X-Trace": "x-trace", "orgId": "org-id", "self": "self", "match": "match", "aB": "a-b", "pageSize": "page-size", "page_token2": "page-token2"}
RUST = {"sortBy": "sort_by", "sort-by": "sort_by", "type": "type_", "q.x": "q_x", "X-Trace": "x_trace", "orgId": "org_id", "self": "self_", "match": "match_", "aB": "a_b", "pageSize": "page_size"}
J = [("content-type", "application/json")]


def flag(n):
    return FLAG.get(n, n.replace("_", "-"))


def P(n, i, ty="str", req=None, desc=""):
    p = {"name": n, "in": i, "ty": ty, "required": i == "path" if req is None else req, "rust": RUST.get(n, n.replace("-", "_"))}
    return dict(p, desc=desc) if desc else p


def M(n, ty, req, desc=""):
    return {"n": n, "ty": ty, "req": req, "desc": desc}


def body(comps, name, ms, ct="application/json"):
    """A struct component with members ms; returns the operation's fields."""
    props = {}
    for m in ms:
        s = dict(SCHEMA[m["ty"]]) if m["ty"] in SCHEMA else {"$ref": "#/components/schemas/" + m["ty"][4:]} if m["ty"].startswith("ref:") else {"type": "array", "items": {"type": "string"}}
        if m["desc"] and "$ref" not in s:
            s["description"] = m["desc"]
        props[m["n"]] = s
    comps[name] = {"schema": {"type": "object", "required": [m["n"] for m in ms if m["req"]], "properties": props}, "pass": "ref"}
    if not comps[name]["schema"]["required"]:
        del comps[name]["schema"]["required"]
    return {"body": {"ct": ct, "ty": "ref:" + name}, "members": ms}


OKS = [[{"status": "200", "kind": "json", "ty": "ref:Obj"}, {"status": "4XX", "kind": "json", "ty": "ref:Err"}], [{"status": "204", "kind": "none"}],
       [{"status": "2XX", "kind": "json", "ty": "arr:str"}, {"status": "404", "kind": "json", "ty": "ref:Err"}, {"status": "5XX", "kind": "json", "ty": "ref:Err"}],
       [{"status": "201", "kind": "none"}, {"status": "4XX", "kind": "json", "ty": "ref:Err"}], [{"status": "200", "kind": "json", "ty": "map:str"}, {"status": "400", "kind": "none"}],
       [{"status": "default", "kind": "none"}]]
RAWS = [[{"status": "200", "kind": "raw"}, {"status": "4XX", "kind": "json", "ty": "ref:Err"}], [{"status": "200", "kind": "json", "ty": "ref:Obj"}, {"status": "4XX", "kind": "raw"}], [{"status": "404", "kind": "json", "ty": "ref:Err"}]]
PAGES = [[{"status": "200", "kind": "json", "ty": t}, {"status": "4XX", "kind": "json", "ty": "ref:Err"}] for t in ("ref:Page", "ref:OPage")]


def model_doc(ops):
    """The operations of MC_Cli as a document; returns (doc, [op])."""
    comps, out = dict(COMPS), []
    T = {"str": "str", "bool": "bool"}

    def ty(t):
        return T.get(t["t"]) or ("nzu32" if t["lo"] == [49] else "u8") if t["t"] != "arr" else "arr:str"
    for k, m in enumerate(ops):
        ps = [P(bytes(p["n"]).decode(), p["in"], ty(p["ty"]), p["req"]) for p in m["params"]]
        o = {"id": "m%d" % k, "rust": "m%d" % k, "method": "post" if m["body"]["k"] != "none" else "get", "params": ps,
             "path": "/m%d" % k + "".join("/{%s}" % p["name"] for p in ps if p["in"] == "path"), "responses": PAGES[0] if m["paged"] else OKS[0]}
        if m["paged"]:
            o.update(paginated=True, first_page_required=[bytes(p["n"]).decode() for p in m["params"] if p["first"]])
        ct = {"json": "application/json", "form": "application/x-www-form-urlencoded"}.get(m["body"]["k"])
        if m["body"]["k"] == "text":
            o["body"] = {"ct": "text/plain", "ty": "str"}
        elif m["struct"]:
            o.update(body(comps, "MBody%d" % k, [M(bytes(x["n"]).decode(), ty(x["ty"]), x["req"]) for x in m["members"]], ct))
        elif ct:
            o["body"] = {"ct": ct, "ty": "arr:str"}
        out.append(o)
    return {"components": comps, "ops": out}


PNAMES = ["id", "sortBy", "sort-by", "filter", "type", "q.x", "orgId", "match", "a", "b", "limit", "page_token", "aB", "name", "x1", "page", "pageSize", "page_token2", "limits"]
MNAMES = ["name", "sortBy", "kind", "a", "b", "type", "item_count", "filter", "aB", "data"]


def distinct(names, flags):
    out = []
    for n in names:
        if flag(n) not in flags:
            flags.add(flag(n))
            out.append(n)
    return out


def random_doc(rng, n):
    comps, ops = dict(COMPS), []
    for k in range(n):
        paged = k < 10
        flags, ps = set(), []
        desc = lambda: rng.choice(["", "", "What it is", "help: <x> & more", "Z"])
        if paged:
            flags |= {"limit", "page-token"}
        for nm in distinct(rng.sample(PNAMES, rng.choice([0, 1, 2, 3, 4, 5])), flags):
            i = rng.choice(["path", "query", "query", "query", "header"] + ["query"] * (5 * paged))
            if i == "header":
                ps.append(P(rng.choice(["X-Trace", "x-" + nm.lower().replace(".", "-").replace("_", "-")]), i, rng.choice(["str", "str", "i64", "ref:Color", "bool"]), rng.random() < .3, desc()))
                ps[-1]["rust"] = ps[-1]["name"].lower().replace("-", "_")
            else:
                ps.append(P(nm, i, rng.choice(SCALAR), True if i == "path" else rng.random() < (.35 if not paged else 0), desc()))
        if len({p["name"].lower() for p in ps if p["in"] == "header"}) < sum(p["in"] == "header" for p in ps) or len({p["rust"] for p in ps}) < len(ps):
            ps = [p for p in ps if p["in"] != "header"]
        o = {"id": "op_%d" % k, "rust": "op_%d" % k, "params": ps, "responses": rng.choice(OKS if rng.random() < .93 else RAWS)}
        if rng.random() < .5:
            o["summary"] = "Does %d" % k
        if rng.random() < .5:
            o["description"] = "It does %d, really" % k
        o["path"] = "/o%d" % k + "".join(rng.choice(["/{%s}", "/x-{%s}"]) % p["name"] for p in ps if p["in"] == "path")
        r = rng.random()
        if paged:
            qs = [p["name"] for p in ps if p["in"] == "query"]
            ps += [P("limit", "query", "nzu32" if rng.random() < .85 else "u32", False, desc()), P("page_token", "query", "str", False)]
            rng.shuffle(ps)
            o.update(paginated=True, first_page_required=[q for q in qs if rng.random() < .5], responses=rng.choice(PAGES))
        if r < .45:
            form = rng.random() < .2
            names, mine = [], set()
            for nm in rng.sample(MNAMES, rng.choice([1, 2, 3, 4])):
                if flag(nm) not in mine:
                    mine.add(flag(nm))
                    names.append(nm)
            ms = [M(nm, rng.choice(SCALAR + (() if form else ("arr:str", "ref:Inner", "arr:str", "ref:List"))), rng.random() < .5, desc()) for nm in names]
            o.update(body(comps, "Body%d" % k, ms, "application/x-www-form-urlencoded" if form else "application/json"))
        elif r < .6:
            o["body"] = rng.choice([{"ct": "application/json", "ty": "arr:str"}, {"ct": "application/json", "ty": "ref:List"}, {"ct": "application/json", "ty": "ref:Color"}, {"ct": "application/json", "ty": "map:str"},
                                    {"ct": "text/plain", "ty": "str"}, {"ct": "application/octet-stream", "ty": "bytes"}] if not paged else [{"ct": "application/json", "ty": "arr:str"}])
        o["method"] = rng.choice(["post", "put", "patch"]) if o.get("body") else rng.choice(["get", "delete", "post", "options"])
        ops.append(o)
    k = len(ops)
    ops.append({"id": "helpful", "rust": "helpful", "method": "get", "path": "/helpful", "params": [P("help", "query")], "responses": OKS[1]})
    ops.append(dict({"id": "whole", "rust": "whole", "method": "post", "path": "/whole", "params": [], "responses": OKS[1]}, **body(comps, "Whole", [M("json_body", "str", False)])))
    return {"components": comps, "ops": ops}


def record(doc, o):
    """The operation as Cli.tla sees it."""
    comps = doc["components"]
    r = oprec(doc, o)
    first = o.get("first_page_required", [])
    for p, q in zip(o["params"], r["params"]):
        q.update(flag=by(flag(p["name"]) if p["in"] != "header" else p["rust"].replace("_", "-")), ty=tyrec(p["ty"], comps),
                 first=p["name"] in first, desc=by(p.get("desc", "")), nz=p["ty"] == "nzu32")
    sk, ek = kinds(o)
    b = o.get("body")
    typed = r["body"]["k"] in ("json", "form")
    r.update(paged=bool(o.get("paginated")), struct=bool(o.get("members")), sk=sk, ek=ek, about=[by(o.get("summary", "")), by(o.get("description", ""))],
             bodyty=tyrec(b["ty"], comps) if typed else {"t": "any"},
             members=[{"n": by(m["n"]), "flag": by(flag(m["n"])), "req": m["req"], "scalar": m["ty"] in SCALAR, "ty": tyrec(m["ty"], comps), "desc": by(m["desc"] if m["ty"] in SCHEMA else "")}
                      for m in (o.get("members") or [])])
    for q in r["members"]:
        if not q["desc"]:
            pass
    return r


def txt(v):
    return "true" if v is True else "false" if v is False else num(v) if isinstance(v, (int, float)) else v


def value(rng, p, i="query"):
    """A text for a flag of the type: (text, well formed)."""
    ty = p["ty"]
    if rng.random() < .05 and ty in BAD:
        return rng.choice(BAD[ty])
    if ty not in GOOD:
        return "v"
    v = txt(rng.choice(GOOD[ty]))
    if i == "path" and v == "":
        v = "p/q"
    if i == "header" and ty == "str":
        v = rng.choice(["h", "h h", "\u00e9", "a\nb"]) if rng.random() < .5 else v
    return v


def instance(rng, ty, comps, member=0):
    if ty in GOOD:
        return rng.choice(GOOD[ty])
    if ty in ("arr:str", "ref:List"):
        return [rng.choice(GOOD["str"]) for _ in range(rng.randint(member, 2))]     # (an empty optional list is left out)
    if ty == "map:str":
        return {"k": "v"}
    if ty == "ref:Inner":
        return {"x": "y"}
    s = comps[ty[4:]]["schema"]
    req = s.get("required", [])
    return {k: instance(rng, member_ty(v), comps, 1) for k, v in s["properties"].items() if k in req or rng.random() < .6}


def member_ty(s):
    if "$ref" in s:
        return "ref:" + s["$ref"].split("/")[-1]
    if s["type"] == "array":
        return "arr:str"
    return next(k for k, v in SCHEMA.items() if all(s.get(a) == b for a, b in v.items()) and set(s) - {"description"} == set(v))


def run(c):
    c.start_driver_deps('clap = { version = "4", default-features = false, features = ["std", "string", "help", "usage", "error-context"] }\nanyhow = "1"\nschemars = { path = "%s/stubs/schemars" }\n' % __import__("lib.core").core.ROOT)
    c.build_gen()
    rng = c.rng
    r = c.design("MC_Cli", "INIT CInit\nNEXT CNext\nINVARIANTS Silent ReportedOnce OverriddenFirst NothingDropped NothingAdded Complete AtMostLimit MinimalAccepted\n")
    model = c.serialized(r, "scen.json")
    docs = [model_doc([m["op"] for m in model])] + [random_doc(rng, 30) for _ in range(6 if c.thorough else 1)]
    gd = c.gen_dir()
    jobs = [{"doc": openapi(d), "runs": [{"style": "cli_merged", "settings": {}, "out": "%s/cli%d.rs" % (gd, n), "crate_path": "crate::api%d" % n}]} for n, d in enumerate(docs)]
    for line in c.generate(jobs, "cli"):
        if line["r"] != "ok":
            raise Violation("the command line generator refuses or fails on a document it must serve (%s)" % line["r"], json.dumps(line)[:2000])
    N = range(len(docs))
    files = {"clig%d.rs" % n: cli_glue(d, "crate::api%d" % n, "cli%d" % n) for n, d in enumerate(docs)}
    mods = "".join("\nmod clig%d;" % n for n in N)
    arms = "".join('\n            "cli%d" => clig%d::run(ctx.clone(), url, sc).await,' % (n, n) for n in N)
    binary = build_apis(c, {"api%d" % n: (d, "builder") for n, d in enumerate(docs)}, extra_mods=mods, extra_arms=arms, files=files)
    fdir = os.path.join(c.work, "files")
    os.makedirs(fdir, exist_ok=True)
    nfile = [0]

    def put(text):
        nfile[0] += 1
        p = os.path.join(fdir, "f%d.json" % nfile[0])
        if text is not None:
            with open(p, "wb") as f:
                f.write(text)
        elif os.path.exists(p):
            os.unlink(p)
        return p
    items = []

    def answers(o, n=1):
        """What the server does."""
        def one(t):
            st = lambda s: {"2XX": 200 + rng.choice([0, 6, 99]), "4XX": rng.choice([400, 404, 499]), "5XX": 500, "default": rng.choice([200, 404])}.get(s) or int(s)
            x = rng.random()
            e = rng.choice(o["responses"]) if x < .85 and not (o.get("paginated") and x < .7) else None
            if o.get("paginated") and x < .7:
                v = {"items": [rng.choice(["a", "b", ""]) if o["responses"][0]["ty"] == "ref:Page" else {"n": rng.randrange(9)} for _ in range(rng.randint(0, 3))]}
                if t:
                    v["next_page"] = t
                elif rng.random() < .5 and o["responses"][0]["ty"] == "ref:Page":
                    v["next_page"] = None
                return resp(200, json.dumps(v).encode(), J)
            if e is None:
                return rng.choice([lambda: fail([]), lambda: resp(302, b"", []), lambda: resp(599, b"x", []), lambda: resp(200, b"{", J)])()
            if e["kind"] == "json":
                v = {"ref:Err": {"message": "no"}, "ref:Obj": {"n": rng.randrange(99), "z": "q"}, "arr:str": ["e"], "map:str": {"a": "1"}, "ref:Page": {"items": []}, "ref:OPage": {"items": []}}[e["ty"]]
                b = json.dumps(v).encode() if rng.random() < .9 else rng.choice([b"", b"{}", b"nul"])
                return resp(st(e["status"]), b, J)
            return resp(st(e["status"]), b"" if e["kind"] == "none" else b"raw", [])
        if not o.get("paginated"):
            return [one("")]
        return [one(rng.choice(["t1", "a b&", "%2F"])) for _ in range(rng.choice([0, 0, 1, 2, 3]))] + [one("")]

    def add(n, o, argv, f, stop=False, ans=None):
        """argv: [(flag, text)]; f: what the file holds (bytes or None)."""
        from lib.docs import parse_json
        a = answers(o) if ans is None else ans
        path = put(f)
        words = []
        for x, s in argv:
            if x == "json-body":
                s = path
            if x == "json-body-template" and s == "":
                words.append("--" + x)
            elif s.startswith("-") or s == "" or rng.random() < .7:
                words.append("--%s=%s" % (x, s))
            else:
                words += ["--" + x, s]
        ok, tree = parse_json(list(f), True) if f is not None else (False, tagged(None))
        sc = {"api": "cli%d" % n, "op": o["id"], "argv": words, "stop": stop, "script": [x.acts for x in a], "base": rng.choice(["", "/base"])}
        s = {"base": by(sc["base"]), "version": by("1.2.3"), "op": record(docs[n], o), "argv": [{"f": by(x), "s": by(t)} for x, t in argv], "file": {"ok": ok, "json": tree},
             "stop": stop, "answers": [x.ans for x in a]}
        items.append((sc, s))
    # command lines of the model
    FS = [None, b"{}", b'{"a":7,"b":"z"}', b'{"a":7,"b":["a"]}', b'{"a":"7","b":4}', b'{"a":1}', b'["a"]', b"[]", b'{"b":["x"],"c":true}', b"{"]
    for m, o in zip(model, docs[0]["ops"]):
        lines = []
        for ok in (True, False):
            mine = [[(bytes(x["f"]).decode(), bytes(x["s"]).decode()) for x in a["a"]] for a in m["argvs"] if a["ok"] == ok]
            k = 70 if ok else 45
            if not c.thorough and len(mine) > k:
                short = [a for a in mine if len(a) < 2]
                mine = short + rng.sample([a for a in mine if len(a) > 1], max(k - len(short), 10))
            lines += mine
        for a in lines:
            rng.shuffle(a)
            whole = lambda: json.dumps(instance(rng, o["body"]["ty"], docs[0]["components"])).encode()
            for f in ([whole(), whole()] + rng.sample([f for f in FS if not (m["op"]["struct"] and f and f[:1] == b"[")], 1) if any(x == "json-body" for x, _ in a) else [None]):
                add(0, o, a, f)
    c.notes["model_lines"] = len(items)
    # random command lines
    for n, d in enumerate(docs[1:], 1):
        for o in d["ops"]:
            fl = [(flag(p["name"]) if p["in"] != "header" else p["rust"].replace("_", "-"), p, p["in"], p["required"] or p["name"] in o.get("first_page_required", [])) for p in o["params"]
                  if not (o.get("paginated") and p["name"] == "page_token")]
            taken = {x[0] for x in fl}
            fl += [(flag(m["n"]), m, "body", m["req"]) for m in o.get("members") or [] if m["ty"] in SCALAR and flag(m["n"]) not in taken]
            typed = o.get("body") and o["body"]["ct"] in ("application/json", "application/x-www-form-urlencoded")
            need = typed and (not o.get("members") or any(m["req"] and (m["ty"] not in SCALAR or flag(m["n"]) in taken) for m in o["members"]))
            for k in range(30 if c.thorough else 18):
                lack = rng.random() < .08
                argv = [(x, value(rng, p, i)) for x, p, i, q in fl if (q and not (lack and rng.random() < .5)) or (not q and rng.random() < .6)]
                if typed and rng.random() < (.95 if need else .2):
                    argv = [a for a in argv if need or rng.random() < .5 or a[0] in taken]
                    argv.append(("json-body", "f"))
                if rng.random() < .04:
                    argv.append((rng.choice(["zzz", "page-token", "json-body-template", "data", "limit"]), rng.choice(["1", ""])))
                if argv and rng.random() < .04:
                    x = rng.choice(argv)
                    argv.append((x[0], rng.choice([x[1], "v"])))
                rng.shuffle(argv)
                f = None
                if typed and rng.random() < .9:
                    v = instance(rng, o["body"]["ty"], d["components"])
                    f = json.dumps(v).encode()
                    if rng.random() < .1:
                        f = rng.choice([b"", b"{}", b"nul", b'"x"'] + ([] if o.get("members") else [b"[]"]))      # (serde reads a struct from an array too)
                add(n, o, argv, f, stop=rng.random() < .05)
    # long lists: without a limit, and with limits below, at and above page bounds
    long = next(o for o in docs[0]["ops"] if o.get("paginated") and not o.get("body"))
    for lim in (None, 1, 249, 250, 251, 1300, 2**32 - 1):
        pages = [resp(200, json.dumps(dict({"items": ["i"] * 250}, **({"next_page": "t%d" % k} if k < 4 else {}))).encode(), J) for k in range(5)]
        add(0, long, ([("limit", str(lim))] if lim else []) + [("q", "x")], None, ans=pages)
    c.notes["command_lines"] = len(items)
    obs = c.run_driver(binary, [s for s, _ in items], lanes=14)
    sess, tally = [], {}
    for (sc, s), o in zip(items, obs):
        evs = []
        for e in o["log"]:
            if e["e"] == "req":
                evs.append({"e": "garbage"} if e.get("bad") else reqev(e, set()))
            elif e["e"] == "def":
                evs.append(dict(e, flags=[{"f": by(x["f"]), "req": x["req"], "help": by(x["help"])} for x in e["flags"]], about=[by(x) for x in e["about"]]))
            elif e["e"] == "refused":
                evs.append({"e": "refused"})
            else:
                evs.append(dict(e, v=tagged(e["v"])) if "v" in e else e)
        k = o["out"].get("k")
        if k == "panic" and str(o.get("panic", "")).startswith("harness"):
            from lib.core import ToolError
            raise ToolError(o["panic"])
        if k == "end":
            evs.append({"e": "end", "ok": o["out"]["ok"]})
        elif k != "refused":
            evs.append({"e": k or "garbage"})
        tally[k] = tally.get(k, 0) + 1
        sess.append(dict(s, events=evs))
    c.notes["outcomes"] = tally
    k = next((k for k, s in enumerate(sess) if len(s["events"]) > 4), 0)
    c.sample({"op": items[k][0]["op"], "argv": items[k][0]["argv"], "events": [e["e"] for e in sess[k]["events"]]})
    known = ", ".join('"%s"' % f["id"] for f in c.findings if f["status"] == "known")
    c.validate("TraceCli", "INIT TInit\nNEXT TNext\nCONSTANT Known = {%s}\n" % known, sess, what="a run of a generated command", describe=lambda i: dict(items[i][0], panic=obs[i].get("panic"), log=obs[i]["log"]))
