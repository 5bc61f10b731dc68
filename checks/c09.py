"""C09: paginated streams.

TLC checks Pagination over every page history to a bound (pages of any size
including empty ones, repeated and empty tokens, every kind of failure at
every place) and writes the histories; the real generated streams (positional
`*_stream` and builder `.stream()`) of operations with path, query, header
and body parameters are polled against servers that play them.  Order of
questions, requests and elements, the requests' contents and the values are
validated by TracePage.
"""
import json
from lib.sess import Builder, oprec, bodyrec, reqev, resp, fail, NOCFG
from lib.docs import build_apis, by, tagged, argval
from lib.core import Violation

PAGE = lambda item: {"type": "object", "required": ["items"], "properties": {
    "items": {"type": "array", "items": item}, "next_page": {"type": "string", "nullable": True}}}
COMPS = {
    "StrPage": {"schema": PAGE({"type": "string"}), "pass": "ref"},
    "IntPage": {"schema": PAGE({"type": "integer", "format": "int64"}), "pass": "ref"},
    "ThingPage": {"schema": PAGE({"$ref": "#/components/schemas/Thing"}), "pass": "ref"},
    "Thing": {"schema": {"type": "object", "required": ["name"], "properties": {
        "name": {"type": "string"}, "size": {"type": "integer", "format": "int64"}}}, "pass": "ref"},
    "Err": {"schema": {"type": "object", "required": ["message"], "properties": {"message": {"type": "string"}}}, "pass": "ref"},
    "Sort": {"schema": {"type": "string", "enum": ["name_asc", "name desc"]}, "pass": "val"},
    "Filter": {"schema": {"type": "object", "required": ["text"], "properties": {"text": {"type": "string"}}}, "pass": "ref"},
}
Q = lambda n, ty="str": {"name": n, "in": "query", "ty": ty, "required": False}
LP = [Q("limit", "nzu32"), Q("page_token")]
E4 = [{"status": "4XX", "kind": "json", "ty": "ref:Err"}]


def doc():
    R = lambda ty, st="200": [{"status": st, "kind": "json", "ty": ty}]
    O = lambda i, path, ps, rs, method="get", **k: dict({"id": i, "method": method, "path": path, "params": ps, "responses": rs, "paginated": True}, **k)
    P = lambda n, i, r=True: {"name": n, "in": i, "ty": "str", "required": r}
    return {"components": COMPS, "ops": [
        O("plain", "/plain", list(LP), R("ref:IntPage") + E4),
        O("full", "/full/{org}/x/{id}", [P("id", "path"), P("org", "path"), Q("sort_by", "ref:Sort"), Q("filter"), Q("many", "arr:str"),
                                       Q("a-first", "i64"), P("x-tenant", "header"), P("x-opt", "header", False)] + LP, R("ref:ThingPage") + E4 + [
            {"status": "5XX", "kind": "json", "ty": "ref:Err"}]),
        O("post", "/post", LP + [Q("zeta", "bool")], R("ref:StrPage", "2XX") + E4, "post", body={"ct": "application/json", "ty": "ref:Filter"}),
        O("nodecl", "/nodecl", [Q("limit", "u32"), Q("page_token")], R("ref:StrPage", "206"), "put", first_page_required=[]),
        O("pagetoken2", "/p2/{limit2}", [P("limit2", "path"), Q("page_token2"), Q("limit_to", "u8")] + LP, R("ref:IntPage") + E4),
        O("form", "/form", LP + [Q("b", "str")], R("ref:IntPage") + E4, "post", body={"ct": "application/x-www-form-urlencoded", "ty": "ref:Filter"}),
    ]}


def item(rng, o):
    txt = lambda: rng.choice(["", "a", "a\"b", "\u00e9", "long" * 20, "x"])
    ty = o["responses"][0]["ty"]
    if ty == "ref:IntPage":
        return rng.choice([0, -5, 2**63 - 1, 7])
    if ty == "ref:StrPage":
        return txt()
    t = {"name": txt()}
    if rng.random() < .5:
        t["size"] = rng.choice([1, -9])
    return t


TOKENS = {"a": ["tok-1", "a b&c=d", "%2F+/?", "\u00e9\U0001f600", "x" * 300], "b": ["tok-2", "b", "null", "==", "#"], "": [""]}


def run(c):
    c.start_driver_deps()
    c.build_gen()
    r = c.design("MC_Pagination", "SPECIFICATION MSpec\nCONSTANTS MaxPages = 3 MaxItems = %d\nINVARIANTS InOrderOnce TokensFollow OneErrorLast StopsAfterLast Lazy\n"
                 "PROPERTIES NoMoreAfterEnd LazyStep\n" % (3 if c.thorough else 2), deadlock=False)
    hists = [x["h"] for x in c.serialized(r, "scen.json")]
    if not c.thorough:
        short = [h for h in hists if len(h) < 3]
        hists = short + c.rng.sample([h for h in hists if len(h) == 3], 330)
    # long histories, beyond the bound
    pg = lambda n, t: {"k": "page", "items": [0] * n, "next": t}
    for n in (8, 25):
        hists += [[pg(c.rng.randint(0, 3), [by(c.rng.choice("ab"))]) for _ in range(n)] + [pg(2, [])],
                  [pg(0, [by("a")]) for _ in range(n)] + [pg(1, [])], [pg(1, [by("a")]) for _ in range(n)] + [{"k": "err", "kind": "declared"}]]
    hists += [[pg(300, [by("a")]), pg(300, [])]]
    d = doc()
    binary = build_apis(c, {"pos": (d, "positional"), "bld": (d, "builder")}, extra_arms="""
            "s_pos" => { let c = pos::Client::new_with_client(&url, rt::http_client()); glue_pos::stream(&ctx, &c, &op, &a, sc["polls"].as_u64().unwrap()).await }
            "s_bld" => { let c = bld::Client::new_with_client(&url, rt::http_client()); glue_bld::stream(&ctx, &c, &op, &a, sc["polls"].as_u64().unwrap()).await }
""")
    rng = c.rng
    J = [("content-type", "application/json")]
    items = []
    for n, h in enumerate(hists):
        for api in ("s_pos", "s_bld"):
            for _ in range(2 if c.thorough else 1):
                o = d["ops"][rng.randrange(len(d["ops"]))]
                tok = {k: rng.choice(v) for k, v in TOKENS.items()}
                answers, total = [], 0
                st = o["responses"][0]["status"]
                st = 200 if st == "2XX" else int(st)
                for p in h:
                    if p["k"] == "page":
                        page = {"items": [item(rng, o) for _ in p["items"]]}
                        total += len(page["items"])
                        if p["next"]:
                            page["next_page"] = tok[bytes(p["next"][0]).decode()]
                        elif rng.random() < .5:
                            page["next_page"] = None
                        b = json.dumps(page).encode()
                        fr = rng.choice(["length", "chunked", "close"])
                        answers.append(resp(st, b, J, framing=fr, chunks=[b[:3], b[3:]] if fr == "chunked" else None))
                    else:
                        answers.append({"declared": lambda: resp(rng.choice([400, 404]), b'{"message":"no"}', J) if o["id"] != "nodecl" else resp(404, b"", []),
                                        "unexpected": lambda: resp(rng.choice([302, 304, 599 if o["id"] != "full" else 600]), b"", []),
                                        "payload": lambda: resp(st, rng.choice([b"{}", b"[]", b'{"items":[{}]}', b'{"items":[],"next_page":3}', b""]), J),
                                        "cut": lambda: resp(st, b'{"items":[],"next_page":"a"}', J, cut=9),
                                        "transport": lambda: fail(rng.choice([[], [{"rst": 1}], [{"text": "HTTP/1.1 20"}]]))}[p["kind"]]())
                args = {}
                for p in o["params"]:
                    if p["name"] == "page_token" or (not p["required"] and rng.random() < .4):
                        continue
                    args[p["name"]] = {"nzu32": lambda: rng.choice([1, 2, 2**32 - 1]), "u32": lambda: rng.choice([0, 5]), "u8": lambda: 255, "i64": lambda: -1,
                                       "bool": lambda: rng.random() < .5, "ref:Sort": lambda: rng.choice(["name_asc", "name desc"]),
                                       "arr:str": lambda: ["a", "b c", "a"][:rng.randint(0, 3)],
                                       "str": lambda: rng.choice(["v", "a/b" if p["in"] != "header" else "w w", "x y"])}[p["ty"]]()
                body = {"text": rng.choice(["", "f&=", "\u00e9"])} if o.get("body") else None
                a = dict(args)
                if body is not None:
                    a["body"] = body
                polls = total + 5 if rng.random() < .6 else rng.randint(0, total + 1)
                sc = {"api": api, "op": o["id"], "args": a, "polls": polls, "script": [x.acts for x in answers], "base": rng.choice(["", "/base"])}
                s = {"base": by(sc["base"]), "version": by("1.2.3"), "op": oprec(d, o), "args": [dict(argval(p["ty"], args.get(p["name"]))) for p in o["params"]],
                     "body": bodyrec(o, body), "answers": [x.ans for x in answers]}
                items.append((sc, s))
    obs = c.run_driver(binary, [s for s, _ in items], lanes=14)
    sessions = []
    for (sc, s), o in zip(items, obs):
        evs = []
        for e in o["log"]:
            if e["e"] == "req":
                evs.append({"e": "garbage"} if e.get("bad") else reqev(e, set()))
            elif e["e"] == "item":
                evs.append({"e": "item", "v": tagged(e["v"])})
            else:
                evs.append(e)
        if o["out"].get("k") != "stream":
            evs.append({"e": o["out"].get("k")})
        sessions.append(dict(s, events=evs))
    c.sample({"op": items[50][0]["op"], "pages": len(items[50][1]["answers"]), "events": [e["e"] for e in sessions[50]["events"]]})
    c.notes["page_histories"] = len(hists)
    c.notes["streams"] = len(items)
    c.notes["requests"] = sum(1 for s in sessions for e in s["events"] if e["e"] == "req")
    c.validate("TracePage", "INIT TInit\nNEXT TNext\nINVARIANTS ErrDelivered OnlyOneErr\n", sessions, what="paginated stream", describe=lambda i: items[i][0])
