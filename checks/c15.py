"""C15: names.

TLC checks Names (the mapping from API names to identifiers, read character
by character, gives identifiers that clash with nothing) and enumerates
names.  The real generator is run on all of them as parameter, operation and
tag names and TraceNames judges the identifiers it chose; clients full of
keywords, of names the generator uses itself and of random names are compiled
and called, and TraceCall judges that everything still travels under its API
name.
"""
import json
import unicodedata
from lib.core import Violation
from lib.docs import openapi, build_apis, by
from lib.sess import Builder, resp
from lib.call import CFG

COMPS = {
    "Obj": {"schema": {"type": "object", "required": ["n"], "properties": {"n": {"type": "integer", "format": "int64"}, "z": {"type": "string"}}}, "pass": "ref"},
    "Page": {"schema": {"type": "object", "required": ["items"], "properties": {"items": {"type": "array", "items": {"type": "string"}}, "next_page": {"type": "string"}}}, "pass": "ref"},
}
# names standing in generated code today, or likely to
INTERNAL = ("url request response result header_map client value page state first rest next next_page item items encode_path body body_map new send stream clone re f a b v e s "
            "reqwest std progenitor_client types builder prelude super futures ok err some none base64 rand serde_json format vec to_string string inner baseurl api_version config "
            "params param uri status error into_inner query header path method self_ limit2 query_params headers this it ctx context resp req res hooks hook debug default").split()
PRELUDE = ("error result option string vec box from into try_from try_into to_string clone default debug iterator send sync sized unpin ok err some none fn_once copy drop "
           "byte_stream response_value request_builder_ext types builder prelude client new encode_path as_ref to_owned future stream_ext client_ext cow arc pin infallible").split()
UNICODE = ["\u540d\u524d", "na\u00efve", "Gr\u00f6\u00dfe", "\u00f1", "\u0401\u043b\u043a\u0430", "e\u0301t\u00e9", "\u0130d", "\u00b7x", "\ufb01n", "x\u00b2", "\u24d0b", "\u20ac", "\U0001f600 face",
           "\u03a3\u03a3", "a\u200db", "\u0663x", "\u1e9e", "\u4e00-\u4e8c", "user\u2019s", "\u01c5a"]
EXTRA = ["it's", "Body", "BODY", "Body-Map", "x-rate-limit", "a.b.c", "a[]", "filter[name]", "$top", "@type", "user id", "User-ID", "HTTPServer", "iPhone6s", "v1.2", "1st", "2", "--", "__x", "x__y", "+1", "-1", "+2", "A", "aB", "AbC",
         "ABc", "async-fn", "Type", "TYPE", "r#type", "r", "a\\b", "a\"b", "a{b", "a}b", "100%", "a/b", "a?b", "#", "~", "a\tb", "'", "''", "ref'", "a:b", "<x>", "x|y", "`a`", "!", "a=b", "a&b", "\x7f"]


def unicode_names(rng, n):
    """Names from every corner of Unicode: n characters of each general category, alone, first and last."""
    cats = {}
    for k in range(0x80, 0x30000):
        if not 0xD800 <= k <= 0xDFFF:
            cats.setdefault(unicodedata.category(chr(k)), []).append(chr(k))
    # characters that continue a name but do not start one, or count as letters without being able to stand first
    cats["continue"] = [x for x in map(chr, range(0x80, 0x30000)) if not x.isidentifier() and ("a" + x).isidentifier()]
    cats["case"] = [x for x in map(chr, range(0x80, 0x20000)) if len(x.lower()) > 1 or len(x.upper()) > 1 or x.title() != x.upper()]
    out = []
    for c in sorted(cats):
        for x in rng.sample(cats[c], min(len(cats[c]), n)):
            out += [x, x + "x", "a" + x, "A" + x + "b"]
    return out + ["\u0345x", "\u2118x", "\u212ex", "\u00aaB", "\u00b7", "\u203fx", "x\u203f"]


def chunks(xs, n):
    return [xs[k:k + n] for k in range(0, len(xs), n)]


def run(c):
    c.start_driver_deps()
    c.build_gen()
    rng = c.rng
    r = c.design("MC_Names", "INIT Init\nNEXT Next\nCONSTANT MaxLen = %d\nINVARIANTS MachineAgrees NothingLost Valid Stable\n" % (5 if c.thorough else 4), deadlock=False)
    sc = c.serialized(r, "scen.json")
    t = lambda l: [bytes(x).decode() for x in l]
    kws, taken = t(sc["keywords"]), t(sc["taken"])
    enum = t(sc["names"])
    n = 4 if c.thorough else 3
    enum = [x for x in enum if len(x) <= n] + rng.sample([x for x in enum if len(x) == n + 1], 9000 if c.thorough else 1000)
    words = kws + taken + [x.upper() for x in kws] + [x.capitalize() for x in kws] + INTERNAL + PRELUDE + EXTRA + ["-".join(x.split("_")) for x in taken]
    pr = "abcXYZ019_-.' +$@/:[]\"\\{}%&=?#~!(),;<>|^`*"
    rand = ["".join(rng.choice(pr) for _ in range(rng.randint(1, 14))) for _ in range(4000 if c.thorough else 600)]
    names = list(dict.fromkeys(words + UNICODE + unicode_names(rng, 40 if c.thorough else 6) + enum + rand))

    # identifiers chosen by the generator for every name, in every place
    sess = {n: [] for n in names}

    def ev(n, kind, ident, inner=False, body=False, paged=False):
        sess[n].append({"kind": kind, "ident": by(ident), "inner": inner, "body": body, "paged": paged})
    jobs, meta = [], []
    sig = lambda s, inner=False: {"style": s, "settings": {"inner_type": "u8"} if inner else {}, "want": ["sigs"]}
    PAGE = [{"status": "200", "kind": "json", "ty": "ref:Page"}]
    for ch in chunks(names, 150):
        body, paged = rng.choice([(False, False), (False, False), (True, False), (False, True), (True, True)])
        ctx = [(body, paged)]
        if any(x in ch for x in words):
            ctx = [(b, p) for b in (False, True) for p in (False, True)]
        for body, paged in ctx:
            ops = []
            for k, n in enumerate(ch):
                # where it would be the same parameter as the ones every page has
                bad = paged and "".join(x for x in n.lower() if x.isalnum()) in ("limit", "pagetoken")
                o = {"id": "o%d" % k, "method": "post", "path": "/o%d" % k, "params": [] if bad else [{"name": n, "in": "query", "ty": "str", "required": not paged and rng.random() < .5}],
                     "responses": [{"status": "200", "kind": "none"}]}
                if body:
                    o["body"] = {"ct": "application/json", "ty": rng.choice(["ref:Obj", "arr:str"])}
                if paged:
                    o["params"] += [{"name": "limit", "in": "query", "ty": "u32", "required": False}, {"name": "page_token", "in": "query", "ty": "str", "required": False}]
                    o.update(paginated=True, responses=PAGE)
                ops.append((o, not bad))
            jobs.append({"doc": openapi({"ops": [o for o, _ in ops], "components": COMPS}), "runs": [sig("positional"), sig("builder")]})
            meta.append(("param", ch, ops, body, paged))
    for ch in chunks(names, 150):
        ops = [{"id": n, "method": "get", "path": "/o%d" % k, "params": [], "responses": [{"status": "200", "kind": "none"}]} for k, n in enumerate(ch)]
        jobs.append({"doc": openapi({"ops": ops}), "runs": [sig("positional"), sig("builder", True), sig("separate")]})
        meta.append(("op", ch))
        ops = [{"id": "o%d" % k, "method": "get", "path": "/o%d" % k, "params": [], "tags": [n], "responses": [{"status": "200", "kind": "none"}]} for k, n in enumerate(ch)]
        jobs.append({"doc": openapi({"ops": ops}), "runs": [sig("separate")]})
        meta.append(("tag", ch))
    for k in range(20):
        ns = rng.sample(["list", "get", "list_stream", "a", "a_stream", "stream", "get_stream_stream", "get_stream"], 4)
        ops = [{"id": n, "method": "get", "path": "/s%d" % j, "params": [{"name": "limit", "in": "query", "ty": "u32", "required": False}, {"name": "page_token", "in": "query", "ty": "str", "required": False}],
                "responses": PAGE, **({"paginated": True} if rng.random() < .6 else {})} for j, n in enumerate(ns)]
        jobs.append({"doc": openapi({"ops": ops, "components": COMPS}), "runs": [sig("positional"), sig("builder")]})
        meta.append(("surface", ns, ops))
    surface = []
    base = ["new", "new_with_client", "baseurl", "client", "api_version"]
    for line in c.generate(jobs, "sigs"):
        m, run_ = meta[line["job"]], line["run"]
        if line["r"] != "ok" or isinstance(line.get("sigs"), dict):
            raise Violation("the generator fails on names it must serve (%s)" % line["r"], json.dumps({"msg": line.get("msg") or line["sigs"], "kind": m[0], "names": m[1]})[:3000])
        fns = {}
        for cont, fn, args in line["sigs"]:
            fns.setdefault(cont, []).append((fn, args))
        if m[0] == "surface":
            surface.append({"kind": "surface", "fns": [by(f) for f, _ in fns["Client"]],
                            "streams": [by(o["id"] + "_stream") for o in m[2] if o.get("paginated")] if run_ == 0 else []})
        elif m[0] == "param":
            body, paged = m[3], m[4]
            for k, (n, (o, ok)) in enumerate(zip(m[1], m[2])):
                if not ok:
                    continue
                if run_ == 0:
                    a = [x for f, x in fns.get("Client", []) if f == "o%d" % k]
                    ids = [x for x in (a[0] if a else [])]
                    rest = ["limit", "page_token"] * paged + ["body"] * body
                else:
                    ids = [f for f, _ in fns.get("builder::O%d" % k, [])]
                    ids = ids[ids.index("new") + 1:] if "new" in ids else ids
                    rest = ["limit", "page_token"] * paged + ["send"] + ["stream"] * paged
                    if body:
                        rest += ["body"] + ["body_map"] * (o["body"]["ty"] == "ref:Obj")
                for x in rest:
                    if x in ids:
                        ids.reverse(), ids.remove(x), ids.reverse()
                ev(n, "param", ids[0] if len(ids) == 1 else "?", body=body, paged=paged)
        elif m[0] == "op":
            if run_ < 2:
                ids = [f for f, _ in fns["Client"] if True][len(base):]
                if run_ == 1:
                    ids.remove("inner")
                    st = [k[9:] for k, _, _ in ((a, b, d) for a, b, d in line["sigs"] if a.startswith("builder::") and b == "new")]
                    for n, x in zip(m[1], st if len(st) == len(m[1]) else ["?"] * len(m[1])):
                        ev(n, "builder", x, inner=True)
            else:
                ids = [f for f, _ in fns["Client"]][len(base):]
            for n, x in zip(m[1], ids if len(ids) == len(m[1]) else ["?"] * len(m[1])):
                ev(n, "op", x, inner=run_ == 1)
        else:
            tr = {f: cont[6:] for cont, l in fns.items() if cont.startswith("trait ") for f, _ in l}
            for k, n in enumerate(m[1]):
                ev(n, "tag", tr.get("o%d" % k, "?"))
    ss = [{"name": by(n), "ascii": all(ord(x) < 128 for x in n), "events": e} for n, e in sess.items() if e]
    c.notes["names_mapped"] = len(ss)
    ss.append({"name": [], "ascii": True, "events": surface})
    c.validate("TraceNames", 'INIT TInit\nNEXT TNext\nCONSTANT Known = {"D33"}\n', ss, what="identifier for a name")
    c.sample({"name": "HTTPServer", "identifiers": sorted({(e["kind"], bytes(e["ident"]).decode()) for e in sess["HTTPServer"]})})

    # -------------------------------------------------------- compiled and called
    pid = {n: {(e["body"], e["paged"]): bytes(e["ident"]).decode() for e in es if e["kind"] == "param"} for n, es in sess.items()}
    bid = {n: bytes(next(e["ident"] for e in es if e["kind"] == "builder")).decode() for n, es in sess.items()}
    plain = {n: bytes(next(e["ident"] for e in es if e["kind"] == "op" and not e["inner"])).decode() for n, es in sess.items()}

    def ident(n, body, paged):
        """As observed; a name not observed in this context has the usual one."""
        return pid[n].get((body, paged)) or next(iter(pid[n].values()))
    HTOK = set("!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
    HNO = {"accept", "content-type", "host", "connection", "content-length", "transfer-encoding", "api-version", "expect", "te", "upgrade", "trailer", "cookie", "date", "user-agent", "from", "range"}
    ctoks = words + UNICODE + rng.sample(rand, 500 if c.thorough else 120) + rng.sample(enum, 300 if c.thorough else 80)
    ctoks = list(dict.fromkeys(ctoks))
    rng.shuffle(ctoks)
    ops = []

    def place(n):
        can = ["query", "query"]
        if n and not set(n) & set("{}/"):
            can += ["path"] * 2
        if n and set(n) <= HTOK and n.lower() not in HNO:
            can += ["header"] * 2
        return rng.choice(can)
    left = list(ctoks) + words
    while left:
        body = rng.choice([None, None, ("application/json", "ref:Obj"), ("application/json", "arr:str"), ("text/plain", "str"), ("application/octet-stream", "str"),
                           ("application/x-www-form-urlencoded", "ref:Obj")])
        paged = rng.random() < .3 and not (body and body[0] in ("text/plain", "application/octet-stream"))
        ps, seen, low, keep = [], {"limit", "page_token"} if paged else set(), set(), []
        while left and len(ps) < 9:
            n = left.pop()
            i = ident(n, bool(body), paged)
            # the harness calls the body "body" itself ("Body" is tried)
            if i in seen or n.lower() in low or body and n == "body":
                keep.append(n) if len(left) > 10 else None
                continue
            # observed in another context only: such names are in the tables
            seen.add(i), low.add(n.lower())
            ps.append({"name": n, "in": place(n), "ty": rng.choice(["str", "str", "i64"]), "required": rng.random() < .6, "rust": i})
        left = keep + left
        rng.shuffle(left) if rng.random() < .2 else None
        if not ps:
            break
        for p in ps:
            if p["in"] == "path":
                p["required"] = True
            if paged and p["in"] == "query":
                p["required"] = False
        k = len(ops)
        o = {"id": "o%d" % k, "method": "post", "path": "/o%d" % k + "".join("/{%s}" % p["name"] for p in rng.sample(ps, len(ps)) if p["in"] == "path"),
             "params": ps, "responses": [{"status": "200", "kind": "none"}]}
        if body:
            o["body"] = {"ct": body[0], "ty": body[1]}
        if paged:
            o["params"] = ps + [{"name": "limit", "in": "query", "ty": "u32", "required": False}, {"name": "page_token", "in": "query", "ty": "str", "required": False}]
            o.update(paginated=True, responses=PAGE)
        ops.append(o)
    pdoc = {"ops": ops, "components": COMPS}
    seen, oops = set(), []
    for n in dict.fromkeys(words + PRELUDE + UNICODE + ctoks):
        i = plain[n]
        if i in seen or bid[n] in seen:
            continue
        seen |= {i, bid[n]}
        oops.append({"id": n, "rust": i, "method": "get", "path": "/op/%d" % len(oops), "params": [{"name": "q", "in": "query", "ty": "str", "required": False}],
                     "responses": [{"status": "200", "kind": "none"}]})
    # operations of every shape, so that a hidden type is missed
    shapes = [{"body": {"ct": "application/json", "ty": "ref:Obj"}, "method": "post"}, {"body": {"ct": "application/octet-stream", "ty": "str"}, "method": "post"},
              {"body": {"ct": "text/plain", "ty": "str"}, "method": "post"},
              {"paginated": True, "params": [{"name": "limit", "in": "query", "ty": "u32", "required": False}, {"name": "page_token", "in": "query", "ty": "str", "required": False}], "responses": PAGE},
              {"responses": [{"status": "200", "kind": "raw"}]}, {"responses": [{"status": "200", "kind": "json", "ty": "ref:Obj"}, {"status": "4XX", "kind": "json", "ty": "ref:Obj"}]}]
    for k, s in enumerate(shapes):
        oops.append(dict({"id": "zz_shape_%d" % k, "method": "get", "path": "/shape/%d" % k, "params": [], "responses": [{"status": "200", "kind": "none"}]}, **s))
    odoc = {"ops": oops, "components": COMPS}
    tags, seen = [], set()
    for n in dict.fromkeys(words + UNICODE + ctoks):
        i = next(bytes(e["ident"]).decode() for e in sess[n] if e["kind"] == "tag")
        if i not in seen:
            seen.add(i)
            tags.append((n, i))
    tops = []
    for k, (n, i) in enumerate(tags):
        x = rng.choice(oops[:len(kws)])
        tops.append({"id": "t%d_%s" % (k, x["rust"].strip("_")), "method": "get", "path": "/t/%d" % k, "tags": [n], "tag_rust": [i], "params": [], "responses": [{"status": "200", "kind": "none"}]})
    for o in oops[:120]:
        n, i = rng.choice(tags[:30])
        tops.append(dict(o, path="/tt" + o["path"], tags=[n], tag_rust=[i]))
    tdoc = {"ops": tops}
    for o in oops:
        if o["rust" if "rust" in o else "id"] == "inner":
            break
    iop = {"ops": [{"id": "inner", "rust": "inner_", "method": "get", "path": "/i", "params": [{"name": "inner", "in": "query", "ty": "str", "required": True}], "responses": [{"status": "200", "kind": "none"}]}]}
    apis = {"pp": (pdoc, "positional"), "pb": (pdoc, "builder"), "op": (odoc, "positional"), "ob": (odoc, "builder"), "ts": (tdoc, "separate"),
            "ii": (iop, "builder", {"inner_type": "u8"}), "ip": (iop, "positional", {"inner_type": "u8"})}
    binary = build_apis(c, apis, extra="pub fn inner(_: &Ctx, _: &Value) -> u8 { 7 }\n")
    B = Builder()
    ans = resp(200)
    page = resp(200, b'{"items":["a"]}', [("content-type", "application/json")])
    obj = resp(200, b'{"n":1}', [("content-type", "application/json")])
    V = {"str": ["v", "a b", "z/&=?%"], "i64": [0, -7, 2**40], "u32": [3]}
    BV = {"ref:Obj": {"n": 5}, "arr:str": ["x"], "str": "text"}
    for api, a in apis.items():
        d = a[0]
        for o in d["ops"]:
            for _ in range(2 if api in ("pp", "pb") else 1):
                args = {p["name"]: rng.choice(V[p["ty"]]) for p in o["params"] if p["required"] or rng.random() < .7}
                b = BV[o["body"]["ty"]] if o.get("body") else None
                if o.get("body") and o["body"]["ct"] == "application/octet-stream":
                    b = [1, 2, 255]
                an = page if o.get("paginated") else obj if any(x["kind"] == "json" for x in o["responses"]) else ans
                B.add(api, d, o, args, body=b, answer=an)
    obs = c.run_driver(binary, B.scenarios(), lanes=14)
    net = B.sessions(obs)
    c.notes["operations_compiled"] = sum(len(a[0]["ops"]) for a in apis.values())
    c.validate("TraceCall", CFG("C15"), net, what="request of an operation with unusual names", describe=lambda i: B.items[i][0])
