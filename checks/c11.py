"""C11: builders.

TLC checks Builder over all setter sequences to a bound (the outcome is that
of the last value per parameter, order is irrelevant, nothing invalid is
sent) and writes the sequences; mapped onto the parameters of operations of
every kind they drive real builders, followed by longer random sequences.
BuilderArgs works out the arguments from the calls and TraceCall judges the
request or the refusal.
"""
import json
from lib.sess import Builder, oprec, NOCFG, resp
from lib.docs import build_apis, by, tagged, argval, order, raw_body, conv_src
from lib.call import CFG

COMPS = {
    "Sort": {"schema": {"type": "string", "enum": ["name_asc", "name desc"]}, "pass": "val"},
    "Obj": {"schema": {"type": "object", "required": ["text"], "properties": {"text": {"type": "string"}, "n": {"type": "integer", "format": "int64"}}}, "pass": "ref"},
    "Thing": {"schema": {"type": "object", "required": ["name", "inner", "sort", "count"], "properties": {
        "name": {"type": "string"}, "inner": {"$ref": "#/components/schemas/Obj"}, "sort": {"$ref": "#/components/schemas/Sort"},
        "count": {"type": "integer", "format": "uint8", "minimum": 0},
        "size": {"type": "integer", "format": "int64"}, "type": {"type": "boolean"}, "opt-sort": {"$ref": "#/components/schemas/Sort"}}}, "pass": "ref"},
    "AllOpt": {"schema": {"type": "object", "properties": {"a": {"type": "string"}, "b": {"type": "integer", "format": "int64"}}}, "pass": "ref"},
    "Page": {"schema": {"type": "object", "required": ["items"], "properties": {"items": {"type": "array", "items": {"type": "string"}}, "next_page": {"type": "string"}}}, "pass": "ref"},
}
M = lambda n, ty, req, rust=None: dict({"n": n, "ty": ty, "req": req}, **({"rust": rust} if rust else {}))
MEMB = {
    "Thing": [M("count", "u8", True), M("inner", "ref:Obj", True), M("name", "str", True), M("opt-sort", "ref:Sort", False, "opt_sort"),
              M("size", "i64", False), M("sort", "ref:Sort", True), M("type", "bool", False, "type_")],
    "AllOpt": [M("a", "str", False), M("b", "i64", False)],
    "Obj": [M("n", "i64", False), M("text", "str", True)],
}


def doc():
    P = lambda n, i, r=True, ty="str": {"name": n, "in": i, "ty": ty, "required": r}
    U = [{"status": "200", "kind": "none"}]
    O = lambda i, path, ps, **k: dict({"id": i, "method": "post" if k.get("body") else "get", "path": path, "params": ps, "responses": U}, **k)
    B = lambda ty, ct="application/json": {"ct": ct, "ty": ty}
    ops = [
        O("b_scal", "/scal/{pu}/{ps}", [P("ps", "path"), P("pu", "path", ty="u8"), P("qi", "query", ty="i64"), P("qu", "query", False, "u8"), P("qn", "query", False, "nzu32"),
                                        P("qb", "query", False, "bool"), P("qe", "query", False, "ref:Sort"), P("q-req-e", "query", True, "ref:Sort"), P("qo", "query", False, "ref:Obj")]),
        O("b_head", "/head", [P("x-a", "header"), P("x-b", "header", False), P("x-u", "header", False, "u32")]),
        O("b_list", "/list", [P("l", "query", True, "arr:str"), P("m", "query", False, "arr:str"), P("d", "query", False, "uuid"), P("t", "query", False, "datetime")]),
        O("b_none", "/none", []),
        O("b_struct", "/struct/{id}", [P("id", "path"), P("q", "query", False)], body=B("ref:Thing"), members=MEMB["Thing"]),
        O("b_allopt", "/allopt", [P("q", "query", False, "i32")], body=B("ref:AllOpt"), members=MEMB["AllOpt"]),
        O("b_form", "/form", [P("q", "query")], body=B("ref:Obj", "application/x-www-form-urlencoded"), members=MEMB["Obj"]),
        O("b_arr", "/arr", [P("q", "query", False)], body=B("arr:str")),
        O("b_enum", "/enum", [P("q", "query")], body=B("ref:Sort")),
        O("b_int", "/int", [P("x-h", "header", True)], body=B("u8")),
        O("b_bytes", "/bytes", [P("q", "query")], body=B("str", "application/octet-stream")),
        O("b_text", "/text/{p}", [P("p", "path")], body=B("str", "text/plain")),
    ]
    for o in ops:
        if o["id"] in ("b_struct", "b_scal"):
            o["tags"] = ["stuff"]
    page = [{"status": "200", "kind": "json", "ty": "ref:Page"}]
    lp = [P("limit", "query", False, "u32"), P("page_token", "query", False)]
    ops += [dict(O("b_page", "/page/{id}", [P("id", "path"), P("q", "query", False, "u8")] + lp, paginated=True), responses=page),
            dict(O("b_pageb", "/pageb", [P("x-r", "header", True)] + lp, paginated=True, body=B("ref:Obj"), members=MEMB["Obj"]), responses=page)]
    return {"components": COMPS, "ops": ops, "glue": ("script",)}


VAL = {"str": ["a", "", "a b", "z/%&=?"], "u8": [0, 255, 7], "i64": [-2**63, 2**63 - 1, 0], "i32": [-1, 2**31 - 1], "u32": [0, 2**32 - 1], "nzu32": [1, 2**32 - 1],
       "bool": [True, False], "ref:Sort": ["name_asc", "name desc"], "ref:Obj": [{"text": "t"}, {"n": 5, "text": ""}],
       "arr:str": [["a"], ["b", "a", "b"], []], "uuid": ["0e14a5d0-37a1-4a1f-8d5e-9f1f3a3f6d10", "00000000-0000-0000-0000-000000000000"],
       "datetime": ["2024-01-02T03:04:05Z", "1999-12-31T23:59:59.123456789Z"]}
BADSRC = {"u8": [256, -1, 2**40], "i64": [2**63, 2**64 - 1], "i32": [2**31, -2**31 - 1], "u32": [-1, 2**32], "nzu32": [0], "ref:Sort": ["NameAsc", "", "name_asc "]}


class Gen:
    def __init__(self, rng, o):
        self.rng, self.o = rng, o
        self.params = o["params"]
        self.members = o.get("members", [])

    def good(self, ty, avoid=()):
        vs = [v for v in VAL[ty] if v not in avoid]
        return self.rng.choice(vs or VAL[ty])

    def pv(self, p):
        v = self.good(p["ty"])
        if p["in"] == "path" and p["ty"] == "str" and v == "":
            v = "v"
        if p["in"] == "header" and p["ty"] == "str" and v == "":
            v = "w"
        return v

    def set(self, k, kind):
        """(driver call, specification call) for parameter k."""
        p = self.params[k]
        src = conv_src(p["ty"], COMPS)
        if kind == "ok":
            v = self.pv(p)
            fit = src and not (src in ("u64",) and v < 0)
            d = {"p": p["name"], "k": "conv" if fit and self.rng.random() < .5 else "set", "v": v}
            return d, {"c": "set", "p": k + 1, "x": {"k": "ok", "v": argval(p["ty"], v)}, "m": []}
        d = {"p": p["name"], "k": "bad"}
        if p["ty"] in BADSRC and self.rng.random() < .6:
            d = {"p": p["name"], "k": "conv", "v": self.rng.choice(BADSRC[p["ty"]])}
        return d, {"c": "set", "p": k + 1, "x": {"k": "bad"}, "m": []}

    def member(self, f, kind):
        m = self.members[f]
        if kind == "ok":
            if not m["req"] and self.rng.random() < .15:
                return {"n": m["n"], "k": "set", "v": None}, {"f": f + 1, "x": {"k": "ok", "v": tagged(None)}}
            v = self.good(m["ty"])
            fit = m["req"] and conv_src(m["ty"], COMPS)
            return ({"n": m["n"], "k": "conv" if fit and self.rng.random() < .5 else "set", "v": v}, {"f": f + 1, "x": {"k": "ok", "v": tagged(v)}})
        d = {"n": m["n"], "k": "bad"}
        if m["req"] and m["ty"] in BADSRC and self.rng.random() < .6:
            d = {"n": m["n"], "k": "conv", "v": self.rng.choice(BADSRC[m["ty"]])}
        return d, {"f": f + 1, "x": {"k": "bad"}}

    def map(self, ms, c="map"):
        ms = [self.member(f, k) for f, k in ms]
        return {"p": "body", "k": c, "m": [a for a, _ in ms]}, {"c": c, "p": 0, "x": {"k": "unset"}, "m": [b for _, b in ms]}

    def body(self, kind):
        o, rng = self.o, self.rng
        if kind == "bad":
            d = {"p": "body", "k": "bad"}
            if o["body"]["ty"] in BADSRC and not raw_body(o) and rng.random() < .6:
                d = {"p": "body", "k": "conv", "v": rng.choice(BADSRC[o["body"]["ty"]])}
            return d, {"c": "body", "p": 0, "x": {"k": "bad"}, "m": []}
        if self.members:
            fs = [f for f, m in enumerate(self.members) if m["req"] or rng.random() < .5]
            v = {self.members[f]["n"]: self.good(self.members[f]["ty"]) for f in fs}
            return ({"p": "body", "k": "set", "v": v},
                    {"c": "body", "p": 0, "x": {"k": "ok"}, "m": [{"f": f + 1, "x": {"k": "ok", "v": tagged(v[self.members[f]["n"]])}} for f in fs]})
        raw = raw_body(o)
        if raw == "bytes":
            v = [rng.randrange(256) for _ in range(rng.randint(0, 9))]
            x = v
        elif raw == "text":
            v = rng.choice(["", "t", "\u00e9\n"])
            x = by(v)
        else:
            v = self.good(o["body"]["ty"])
            x = tagged(v)
        fit = not raw and conv_src(o["body"]["ty"], COMPS)
        return {"p": "body", "k": "conv" if fit and rng.random() < .5 else "set", "v": v}, {"c": "body", "p": 0, "x": {"k": "ok", "v": x}, "m": []}

    def clone(self):
        return {"p": "", "k": "clone"}, {"c": "clone", "p": 0, "x": {"k": "unset"}, "m": []}

    def from_model(self, h, shape):
        """Maps a model history onto this operation."""
        rng = self.rng
        req = [k for k, p in enumerate(self.params) if p["required"]]
        opt = [k for k, p in enumerate(self.params) if not p["required"]]
        pm = {}
        if shape == "none":
            pm = {1: rng.choice(req) if req else None, 2: rng.choice(opt) if opt else None}
        elif shape == "plain":
            pm = {1: rng.choice(req) if req else (rng.choice(opt) if opt else None)}
        else:
            pm = {1: rng.choice(opt) if opt else (rng.choice(req) if req else None)}
        mreq = [k for k, m in enumerate(self.members) if m["req"]]
        mopt = [k for k, m in enumerate(self.members) if not m["req"]]
        fm = {1: rng.choice(mreq or mopt), 2: rng.choice(mopt or mreq)} if self.members else {}
        rest = [f for f in mreq if f not in fm.values()]
        out = []
        for c in h:
            if c["c"] == "set":
                if pm.get(c["p"]) is not None:
                    out.append(self.set(pm[c["p"]], c["x"]["k"]))
            elif c["c"] == "clone":
                out.append(self.clone())
            elif c["c"] == "body":
                out.append(self.body(c["x"]["k"]))
            else:
                ms = [(fm[m["f"]], m["x"]["k"]) for m in c["m"]]
                if c["c"] == "build" and rng.random() < .8:
                    ms += [(f, "ok") for f in rest]
                out.append(self.map(ms, c["c"]))
        # the parameters the history does not speak of
        fill = [self.set(k, "ok") for k in req if k not in pm.values()]
        if self.members and rest and shape == "struct" and rng.random() < .85:
            # the members it does not speak of, right after a whole body or at the start
            whole = [j for j, (d, s) in enumerate(out) if s["c"] in ("body", "build")]
            if not whole:
                out.insert(0, self.map([(f, "ok") for f in rest]))
        for f in fill:
            if rng.random() < .97:
                out.insert(rng.randint(0, len(out)), f)
        return out

    def random(self, n):
        rng, out = self.rng, []
        bad = rng.choice([.05, .25])
        kind = lambda: "bad" if rng.random() < bad else "ok"
        for _ in range(n):
            r = rng.random()
            if r < .05:
                out.append(self.clone())
            elif self.o.get("body") and r < .25:
                out.append(self.body(kind()))
            elif self.members and r < .7:
                fs = [(rng.randrange(len(self.members)), kind()) for _ in range(rng.randint(0, 4))]
                if rng.random() < .4:
                    fs += [(f, kind()) for f in range(len(self.members)) if self.members[f]["req"]]
                rng.shuffle(fs)
                out.append(self.map(fs, rng.choice(["map", "map", "build"])))
            elif self.params:
                out.append(self.set(rng.randrange(len(self.params)), kind()))
        if rng.random() < .6:
            out += [self.set(k, kind()) for k, p in enumerate(self.params) if p["required"]]
        if self.o.get("body") and rng.random() < .4:
            out.append(self.body(kind()))
        if rng.random() < .5:
            rng.shuffle(out)
        return out


def run(c):
    c.start_driver_deps()
    c.build_gen()
    r = c.design("MC_Builder", "INIT MInit\nNEXT MNext\nCONSTANT MaxCalls = %d\nINVARIANTS LastWins OrderIrrelevant NothingInvalidSent RefusedForAReason\n"
                 % (4 if c.thorough else 3), deadlock=False)
    hs = c.serialized(r, "scen.json")
    d = doc()
    binary = build_apis(c, {"bld": (d, "builder"), "sep": (d, "separate")})
    rng = c.rng
    by_shape = {"none": [o for o in d["ops"] if not o.get("body")],
                "plain": [o for o in d["ops"] if o.get("body") and not o.get("members")],
                "struct": [o for o in d["ops"] if o.get("members")]}
    work = [(h["body"], h["h"]) for h in hs]
    small = {"none": 10**9, "plain": 10**9, "struct": 1200}
    todo = []
    for shape in ("none", "plain", "struct"):
        hh = [h for s, h in work if s == shape]
        if len(hh) > small[shape] and not c.thorough:
            hh = [h for h in hh if len(h) < 3] + rng.sample([h for h in hh if len(h) == 3], small[shape])
        for h in hh:
            for o in (rng.sample(by_shape[shape], 2) if c.thorough or shape == "plain" else [rng.choice(by_shape[shape])]):
                todo.append((o, h, shape))
    items = []
    none = resp(200, b"", [])
    page = resp(200, b'{"items":["a"]}', [("content-type", "application/json")])

    def add(o, calls):
        api = rng.choice(["script_bld", "script_bld", "script_sep"])
        # sending a stream's first page is not judged here (C09): it may only
        # be observed where nothing may be sent
        st = bool(o.get("paginated")) and rng.random() < .5
        sc = {"api": api, "op": o["id"], "base": "", "args": {"calls": [x for x, _ in calls], "stream": st},
              "script": [(page if o.get("paginated") else none).acts] * 2}
        s = {"base": [], "version": by("1.2.3"), "op": oprec(d, o), "cfg": NOCFG, "mayfail": False, "strict": False,
             "ans": (page if o.get("paginated") else none).ans, "calls": [y for _, y in calls],
             "shape": {"params": [{"req": p["required"]} for p in o["params"]],
                       "body": {"k": "none" if not o.get("body") else "struct" if o.get("members") else "plain",
                                "fields": [{"n": by(m["n"]), "req": m["req"]} for m in o.get("members", [])]}}}
        if st and any(y["c"] == "set" and o["params"][y["p"] - 1]["name"] == "page_token" for _, y in calls):
            sc["args"]["stream"] = False
        items.append((sc, s))
    for o, h, shape in todo:
        add(o, Gen(rng, o).from_model(h, shape))
    for o in d["ops"]:
        g = Gen(rng, o)
        add(o, [])
        # each required parameter missing on its own, everything else set
        full = [("p", k) for k in range(len(o["params"]))] + ([("b", 0)] if o.get("body") else [])
        mk = lambda x, kind="ok": g.set(x[1], kind) if x[0] == "p" else g.body(kind)
        add(o, [mk(x) for x in full])
        for x in full:
            add(o, [mk(y) for y in full if y != x])
            add(o, [mk(y, "bad" if y == x else "ok") for y in full])
            add(o, [mk(x, "bad")] + [mk(y) for y in full])
            add(o, [mk(y) for y in full] + [mk(x, "bad")])
        for f in range(len(g.members)):
            rest = [mk(x) for x in full if x[0] == "p"]
            every = [(k, "ok") for k in range(len(g.members))]
            add(o, rest + [g.map([e for e in every if e[0] != f])])
            add(o, rest + [g.map(every), g.map([(f, "bad")])])
            add(o, rest + [g.map([(f, "bad")]), g.map(every)])
            add(o, rest + [g.body("ok"), g.map([(f, "ok")])])
            add(o, rest + [g.map([(f, "bad")]), g.body("ok")])
            add(o, rest + [g.map([e for e in every if e[0] != f], "build"), g.map([(f, "ok")])])
        for _ in range(120 if c.thorough else 30):
            add(o, g.random(rng.choice([1, 3, 6, 12])))
    obs = c.run_driver(binary, [s for s, _ in items], lanes=14)
    B = Builder()
    B.items = items
    net = B.sessions(obs)
    c.sample({"op": items[100][0]["op"], "calls": [x["k"] + " " + x["p"] for x in items[100][0]["args"]["calls"]], "outcome": net[100]["events"][-1]["k"]})
    c.notes["setter_sequences"] = len(items)
    c.notes["refused"] = sum(1 for s in net if s["events"][-1]["k"] == "InvalidRequest")
    # a stream that was sent is C09's business: only its request counts here
    for s, (sc, _) in zip(net, items):
        if sc["args"]["stream"] and s["events"][-1]["k"] == "ok":
            s["events"][-1]["value"] = {"k": "unit"}
    c.validate("TraceCall", CFG("C11"), net, what="builder", describe=lambda i: items[i][0])
