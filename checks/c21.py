"""C21: generation settings take effect exactly as given.

TLC explores every history of setter calls (and of generators made on the way)
up to a bound and checks that the last call to a slot decides, that calls to
different slots commute and that a generator keeps the copy it was made with.
Every pair of calls and longer random histories are then made on the real
GenerationSettings; what every generator's output shows of its settings is
validated by TraceSettings.  The macro is given the same settings as key-value
pairs, in any order and with mistakes; its output is validated too.  A few
macro uses are compiled and the clients asked about themselves.
"""
import json, os, re, shutil, subprocess
from lib.core import ROOT, BUILD, REPO, ToolError, Violation, cargo, log
from lib.docs import by

OK = {"description": "", "content": {"application/json": {"schema": {"type": "string"}}}}
ITEMS = {"type": "object", "required": ["items"], "properties": {
    "items": {"type": "array", "items": {"type": "string"}}, "next_page": {"type": "string", "nullable": True}}}


def document(paginated, websocket, extra=0, version="1.2.3"):
    q = lambda n, ty="string", req=False: {"name": n, "in": "query", "required": req, "style": "form", "schema": {"type": ty}}
    paths = {"/plain": {"get": {"operationId": "plain_op", "tags": ["zone"], "responses": {"200": OK}}}}
    if paginated or extra & 1:
        # extra & 1: marked as paginated but not one: a query parameter is required
        paths["/page"] = {"get": {"operationId": "page_op", "tags": ["zone"], "x-dropshot-pagination": {"required": []},
                                  "parameters": [q("limit", "integer"), q("page_token")] + ([] if paginated else [q("must", req=True)]),
                                  "responses": {"200": {"description": "", "content": {"application/json": {"schema": {"$ref": "#/components/schemas/ItemPage"}}}},
                                                "4XX": {"description": ""}}}}
    if websocket:
        paths["/ws"] = {"get": {"operationId": "ws_op", "tags": ["zone"], "x-dropshot-websocket": {},
                                "responses": {"default": {"description": "", "content": {"*/*": {"schema": {}}}}}}}
    if extra & 2:
        paths = dict(reversed(list(paths.items())))
        paths["/last"] = {"post": {"operationId": "last_op", "requestBody": {"content": {"application/octet-stream": {"schema": {"type": "string", "format": "binary"}}}},
                                   "responses": {"204": {"description": ""}}}}
    return {"openapi": "3.0.3", "info": {"title": "t", "version": version}, "tags": [{"name": "zone"}], "paths": paths,
            "components": {"schemas": {"ItemPage": ITEMS}}}


FLAGS = [(p, w, x) for p in (False, True) for w in (False, True) for x in (0, 1, 2, 3)]


def tla(o):
    """The call as the specification sees it: bytes beside the texts it inspects."""
    return dict(o, kb=by(o["key"]), ab=by(o["a"]), bb=by(o["b"]), bs=o.get("bs", []))


# ------------------------------------------------------------------- the macro
MNAME = {"interface": "interface", "tag": "tags", "inner": "inner_type", "pre": "pre_hook", "preA": "pre_hook_async",
         "post": "post_hook", "postA": "post_hook_async", "map": "map_type", "unknown": "unknown_crates"}


def tok(v):
    """A JSON value in the macro's notation."""
    if isinstance(v, dict):
        return "{ %s }" % ", ".join('%s = %s' % (k, tok(x)) for k, x in v.items())
    if isinstance(v, list):
        return "[%s]" % ", ".join(tok(x) for x in v)
    return json.dumps(v)


def bounds(rng):
    bs = [{"maybe": rng.random() < .5, "name": rng.choice(["FromStr", "Display", "Default", "FromStr", "Display", "Hash"])}
          for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 4]))]
    have = ["FromStr", "Display"]
    for b in bs:
        if b["name"] in ("FromStr", "Display", "Default"):
            have = [x for x in have if x != b["name"]] + ([] if b["maybe"] else [b["name"]])
    return bs, sorted(have)


DERIVES = ["D1", "zz::D1", "::zz::D1", "a::D1", "D", "D12", "zz::d1", "a::b::c::D5", "zz::D2", "Debug", "serde::Serialize", "Clone"]


def wide(rng):
    """A setter call with texts that resemble each other."""
    o = {"set": rng.choice(["derive", "derive", "derive", "crate", "patch", "replace", "convert", "pre", "preA", "post", "postA", "inner", "map"]),
         "key": "", "a": "", "b": "", "xs": []}
    k = o["set"]
    if k == "derive":
        o["a"] = rng.choice(DERIVES)
    elif k == "crate":
        o.update(key=rng.choice(["c", "c1", "c-1", "c_1", "C1", "c11"]), a=rng.choice(["1.0.0", "1.0.1", "10.0.0", "*", "!"]), b=rng.choice(["", "", "c", "c1", "rn"]))
    elif k == "patch":
        o.update(key=rng.choice(["T", "T1", "TT1", "t1", "ItemPage"]), a=rng.choice(["", "T1", "Rn", "rn"]), xs=rng.sample(DERIVES, rng.choice([0, 1, 2, 5])))
    elif k == "replace":
        o.update(key=rng.choice(["T", "T1", "TT1", "t1"]), a=rng.choice(["R", "zz::R", "::zz::R", "a::R", "zz::r"]), xs=rng.sample(["Display", "FromStr", "Default"], rng.randint(0, 3)))
    elif k == "convert":
        o.update(key=json.dumps({"format": rng.choice(["zz-a", "zz-A", "zz-aa"]), "type": rng.choice(["string", "integer"])}, separators=(",", ":")), a=rng.choice(["C", "zz::C", "a::C"]),
                 xs=rng.sample(["Display", "FromStr", "Default"], rng.randint(0, 3)))
    elif k == "map":
        o["a"] = rng.choice(["M", "zz::M", "::zz::M", "zz::m"])
    else:
        o["a"] = rng.choice(["zzh_h", "zzh_hh", "zzh_H", "zzh_h1", "zzh_h11"])
    return o


def macro_case(rng, k, docs):
    """(macro tokens, the event's arguments, the same settings as setter calls, document)"""
    ops, lib, keys = [], [], []
    di = rng.randrange(len(docs))
    ext, where = rng.choice([("json", "rel"), ("json", "abs"), ("yaml", "rel")])
    spec = ("docs/d%d.%s" if where == "rel" else "@/docs/d%d.%s") % (di, ext)
    kv = []
    simple = k % 12 == 0

    def op(set, key="", a="", b="", xs=(), bs=(), lb=None):
        o = {"set": set, "key": key, "a": a, "b": b, "xs": list(xs), "bs": list(bs)}
        ops.append(o)
        lib.append(lb or {x: o[x] for x in ("set", "key", "a", "b", "xs")})
    if not simple:
        p = rng.choice([.2, .5, .8, 1])
        hook = lambda n: rng.choice(["zzh_%s%d", "crate::hooks::zzh_%s%d", "crate::zzh_%s%d::<u8>", "|a, b| zzh_%s%d(a, b)"]) % (n, rng.randrange(9))
        inter = rng.choice(["Positional", "Builder"])
        if rng.random() < p:
            op("interface", a=inter)
            kv.append(("interface", inter))
        else:
            inter = "Positional"
        if rng.random() < p:
            t = rng.choice(["Merged", "Separate"]) if inter == "Builder" else "Merged"
            op("tag", a=t)
            kv.append(("tags", t))
        if rng.random() < p:
            a = rng.choice(["zzh_In", "crate::zzh_In2", "std::sync::Arc<zzh_In3>", "(zzh_A, u8)"])
            op("inner", a=re.search(r"zzh_\w+", a).group(), lb={"set": "inner", "key": "", "a": a, "b": "", "xs": []})
            kv.append(("inner_type", a))
        for s in ("pre", "preA", "post", "postA"):
            if rng.random() < p:
                a = hook(s)
                op(s, a=re.search(r"zzh_\w+", a).group(), lb={"set": s, "key": "", "a": a, "b": "", "xs": []})
                kv.append((MNAME[s], "(%s)" % a if "|" in a else a))
        if rng.random() < p:
            a = rng.choice(["zz::Map", "std::collections::BTreeMap", "::indexmap::IndexMap"])
            op("map", a=a)
            kv.append(("map_type", a))
        if rng.random() < p:
            a = rng.choice(["Generate", "Allow", "Deny"])
            op("unknown", a=a)
            kv.append(("unknown_crates", a))
        if rng.random() < p:
            ds = rng.sample(DERIVES, rng.choice([0, 1, 2, 3, 4, len(DERIVES)]))
            for d in ds:
                op("derive", a=d)
            kv.append(("derives", "[%s]" % ", ".join(ds)))
        if rng.random() < p:
            cs = []
            for n in rng.sample(["c1", "c-2", "c_3", "Crate4", "c5x"], rng.randint(0, 4)):
                v, r = rng.choice(["1.0.0", "*", "!", "0.10.25", "12.0.1"]), rng.choice(["", "", "orig-%s" % n, "o_%s" % n])
                o = {"set": "crate", "key": r or n, "a": v, "b": n if r else "", "xs": []}
                op("crate", key=n, a=v, b=r, lb=o)
                cs.append('"%s" = "%s%s"' % (n, r + "@" if r else "", v))
            kv.append(("crates", "{ %s }" % ", ".join(cs)))
        if rng.random() < p:
            ps = []
            for n in rng.sample(["T1", "T2", "ItemPage", "T4"], rng.randint(0, 3)):
                r, xs = rng.choice(["", "Rn", "NewName"]), rng.sample(["zz::P1", "P2", "zz::P3"], rng.randint(0, 3))
                op("patch", key=n, a=r, xs=xs)
                m = ([("rename", '"%s"' % r)] if r else []) + ([("derives", "[%s]" % ", ".join(xs))] if xs or rng.random() < .3 else [])
                rng.shuffle(m)
                ps.append("%s = { %s }" % (n, ", ".join("%s = %s" % x for x in m)))
            kv.append(("patch", "{ %s }" % ", ".join(ps)))

        def typed(a):
            bs, have = bounds(rng)
            return bs, have, a + (" : " + " + ".join(("?" if b["maybe"] else "") + b["name"] for b in bs) if bs else "")
        if rng.random() < p:
            rs = []
            for n in rng.sample(["T1", "T2", "T5", "Other"], rng.randint(0, 3)):
                a = rng.choice(["zz::R1", "crate::zz::R2", "R3"])
                bs, have, txt = typed(a)
                op("replace", key=n, a=a, bs=bs, lb={"set": "replace", "key": n, "a": a, "b": "", "xs": have})
                rs.append("%s = %s" % (n, txt))
            kv.append(("replace", "{ %s }" % ", ".join(rs)))
        if rng.random() < p:
            rs = []
            for sc in rng.sample([{"type": "string", "format": "zz-a"}, {"type": "integer", "format": "zz-b"}, {"type": "string", "format": "zz-c"}, {"type": "boolean", "title": "Zz"}], rng.randint(0, 3)):
                a = rng.choice(["zz::C1", "crate::zz::C2", "C3"])
                bs, have, txt = typed(a)
                key = json.dumps(sc, sort_keys=True, separators=(",", ":"))
                op("convert", key=key, a=a, bs=bs, lb={"set": "convert", "key": key, "a": a, "b": "", "xs": have})
                rs.append("%s = %s" % (tok(sc), txt))
            kv.append(("convert", "{ %s }" % ", ".join(rs)))
    kv.append(("spec", '"%s"' % spec))
    rng.shuffle(kv)
    readable = True
    bad = None
    if k % 4 == 3 and not simple:
        bad = rng.choice(["key", "spec", "file", "notdoc", "interface", "tag", "unknown", "crate", "crate", "crate", "dup"])
        if bad == "key":
            kv.insert(rng.randint(0, len(kv)), (rng.choice(["hook", "Interface", "inner", "derive", "tag", "prehook", "type_map"]), rng.choice(['"x"', "Builder", "[]", "{}"])))
        elif bad == "spec":
            kv = [x for x in kv if x[0] != "spec"]
        elif bad in ("file", "notdoc"):
            kv = [(a, ('"docs/none.json"' if bad == "file" else '"docs/notdoc.json"') if a == "spec" else b) for a, b in kv]
            readable = False
        elif bad in ("interface", "tag", "unknown"):
            v = {"interface": ["builder", "Merged", "Positionals"], "tag": ["merged", "Builder", "Split"], "unknown": ["generate", "Reject", "Builder"]}[bad]
            v = rng.choice(v)
            kv = [x for x in kv if x[0] != MNAME[bad]] + [(MNAME[bad], v)]
            op(bad, a=v)
        elif bad == "crate":
            n, r, v = rng.choice([("c 1", "", "1.0.0"), ("a.b", "", "*"), ("c9", "x/y", "1.0.0"), ("c9", "", "1.0"), ("c9", "", "v1.0.0"),
                                  ("c9", "", "01.0.0"), ("c9", "", "latest"), ("c9", "o", "1"), ("c9", "", ""), ("c9", "", "1.0.0.0"), ("c9", "o p", "*")])
            kv = [x for x in kv if x[0] != "crates"] + [("crates", '{ "%s" = "%s%s" }' % (n, r + "@" if r else "", v))]
            op("crate", key=n, a=v, b=r)
        elif bad == "dup":
            kv.append(rng.choice(kv))
    text = ('"%s"' % spec) if simple else ",\n  ".join("%s = %s" % x for x in kv) + rng.choice(["", ","])
    return text, {"keys": [x[0] for x in kv], "ops": [tla(o) for o in ops], "readable": readable}, lib, di, bad


def yaml(v, ind=0):
    pad = "  " * ind
    if isinstance(v, dict) and v:
        return "".join("%s%s:%s" % (pad, json.dumps(k) if not k.isidentifier() else k,
                                    "\n" + yaml(x, ind + 1) if isinstance(x, (dict, list)) and x else " " + json.dumps(x) + "\n") for k, x in v.items())
    if isinstance(v, list) and v:
        return "".join("%s-\n%s" % (pad, yaml(x, ind + 1)) for x in v)
    return pad + json.dumps(v) + "\n"


def macro_crate():
    """A copy of the macro's sources that can also write its output to a file."""
    d = os.path.join(BUILD, "macro-dump")
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(REPO, "progenitor-macro", "src"), os.path.join(d, "src"))
    with open(os.path.join(d, "src", "lib.rs"), "a") as f:
        f.write("""
/// Writes what `generate_api!` makes of the arguments to the file named first.
#[proc_macro]
pub fn zz_dump(item: TokenStream) -> TokenStream {
    let mut it = item.into_iter();
    let path = it.next().unwrap().to_string();
    it.next();
    let out = generate_api(it.collect());
    std::fs::write(path.trim_matches('"'), out.to_string()).unwrap();
    TokenStream::new()
}
""")
    with open(os.path.join(ROOT, "harness", "macro-shim", "Cargo.toml")) as f:
        t = f.read()
    t = t.replace('path = "/repo/progenitor-macro/src/lib.rs"', 'path = "src/lib.rs"').replace('"../../', '"%s/' % ROOT).replace('"../', '"%s/harness/' % ROOT)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(t)
    return d


def macros(c, docs, n):
    """Expands n uses of the macro; yields (event arguments, setter calls, document, output file)."""
    md = macro_crate()
    d = os.path.join(c.work, "dumps")
    os.makedirs(os.path.join(d, "src"))
    os.makedirs(os.path.join(d, "docs"))
    os.makedirs(os.path.join(d, "out"))
    for k, doc in enumerate(docs):
        with open(os.path.join(d, "docs", "d%d.json" % k), "w") as f:
            json.dump(doc, f)
        with open(os.path.join(d, "docs", "d%d.yaml" % k), "w") as f:
            f.write("# a document\n" + yaml(doc))
    with open(os.path.join(d, "docs", "notdoc.json"), "w") as f:
        f.write('{"hello": "world"}')
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "dumps"\nversion = "0.0.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\nprogenitor-macro = { path = "%s" }\n' % md)
    cases, src = [], []
    for k in range(n):
        text, ev, lib, di, bad = macro_case(c.rng, k, docs)
        out = os.path.join(d, "out", "m%d.rs" % k)
        text = text.replace("@/docs", d + "/docs")
        src.append('progenitor_macro::zz_dump!("%s", %s);\n' % (out, text))
        cases.append((ev, lib, di, out, text, bad))
    with open(os.path.join(d, "src", "main.rs"), "w") as f:
        f.write("".join(src) + "fn main() {}\n")
    env = dict(os.environ, TYPIFY_EMBED_SETTINGS="1")
    os.environ["TYPIFY_EMBED_SETTINGS"] = "1"
    try:
        rc, out = cargo(d, "tmac")
    finally:
        del os.environ["TYPIFY_EMBED_SETTINGS"]
    missing = [x for x in cases if not os.path.exists(x[3])]
    if missing:
        if "could not compile `dumps`" in out:
            raise Violation("the macro panics", json.dumps({"invocation": missing[0][4], "compiler": out[-3000:]}))
        raise ToolError("the macro crate does not build:\n" + out[-4000:])
    log("%d macro uses expanded" % n)
    return cases


MACRO_MAIN = '''
mod hooks {
    pub fn pre(_: &String, r: &reqwest::Request) { super::seen("pre", r) }
    pub fn pre1(r: &reqwest::Request) { super::seen("pre1", r) }
    pub async fn prea(_: &String, r: &mut reqwest::Request) -> Result<(), String> { super::seen("prea", r); Ok(()) }
    pub fn post(_: &String, _: &Result<reqwest::Response, reqwest::Error>) {}
    pub async fn posta(_: &String, _: &Result<reqwest::Response, reqwest::Error>) -> Result<(), String> { Ok(()) }
}
fn seen(_: &str, _: &reqwest::Request) {}
mod a { progenitor::generate_api!("docs/d.json"); }
mod b { progenitor::generate_api!(spec = "docs/d.json", interface = Builder, inner_type = String, pre_hook = crate::hooks::pre, post_hook = crate::hooks::post); }
mod c { progenitor::generate_api!(inner_type = String, pre_hook_async = crate::hooks::prea, post_hook_async = crate::hooks::posta, tags = Separate, interface = Builder, spec = "docs/d.json",); }
mod d { progenitor::generate_api!(spec = "docs/d.yaml", pre_hook = (|r| crate::hooks::pre1(r)), derives = [PartialEq]); }
fn main() {
    let mut v = vec![];
    for (k, base) in serde_json::from_str::<Vec<String>>(&std::env::args().nth(1).unwrap()).unwrap().iter().enumerate() {
        let inner = format!("inner-{k}-{base}");
        let http = reqwest::Client::new();
        for (w, x) in [a::Client::new(base), a::Client::new_with_client(base, http.clone())].into_iter().enumerate() {
            let _: &reqwest::Client = x.client();
            v.push(serde_json::json!({"api": "a", "w": w, "baseurl": x.baseurl(), "version": x.api_version(), "inner": ""}));
        }
        for (w, x) in [b::Client::new(base, inner.clone()), b::Client::new_with_client(base, http.clone(), inner.clone())].into_iter().enumerate() {
            let _: &reqwest::Client = x.client();
            v.push(serde_json::json!({"api": "b", "w": w, "baseurl": x.baseurl(), "version": x.api_version(), "inner": x.inner()}));
        }
        for (w, x) in [c::Client::new(base, inner.clone()), c::Client::new_with_client(base, http.clone(), inner.clone())].into_iter().enumerate() {
            let _: &reqwest::Client = x.client();
            let y = x.clone();
            v.push(serde_json::json!({"api": "c", "w": w, "baseurl": y.baseurl(), "version": y.api_version(), "inner": y.inner()}));
        }
        for (w, x) in [d::Client::new(base), d::Client::new_with_client(base, http.clone())].into_iter().enumerate() {
            v.push(serde_json::json!({"api": "d", "w": w, "baseurl": x.baseurl(), "version": x.api_version(), "inner": ""}));
        }
    }
    println!("{}", serde_json::to_string(&v).unwrap());
}
'''


def compiled(c):
    """Macro uses compiled and run."""
    version = c.rng.choice(["0.0.1", "2024-01-01", "v1 \"beta\"", "1.2.3-rc.1+b", "\u00e9\\n", ""])
    d, _, t, _ = c._drv
    t.join()
    os.makedirs(os.path.join(d, "docs"), exist_ok=True)
    doc = document(True, True, 2, version)
    doc["components"] = {"schemas": {"ItemPage": ITEMS}}
    with open(os.path.join(d, "docs", "d.json"), "w") as f:
        json.dump(doc, f)
    with open(os.path.join(d, "docs", "d.yaml"), "w") as f:
        f.write(yaml(doc))
    b = c.build_driver({"main.rs": MACRO_MAIN})
    bases = ["http://h", "http://h/", "https://h:1/a/b/", "http://h//x", "http://\u00e9/%20?q#f", "not a url", ""]
    p = subprocess.run([b, json.dumps(bases)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    if p.returncode:
        raise Violation("a client made by the macro dies", p.stdout.decode("utf8", "replace")[-2000:])
    ev = []
    got = json.loads(p.stdout)
    for k, base in enumerate(bases):
        for x in got[8 * k:8 * k + 8]:
            ev.append({"ev": "self", "baseurl": by(x["baseurl"]), "version": by(x["version"]), "inner": by(x["inner"]),
                       "given": {"baseurl": by(base), "version": by(version), "inner": by("inner-%d-%s" % (k, base)) if x["api"] in "bc" else []}})
    c.notes["compiled_macro_clients"] = len(ev)
    return [{"events": [e]} for e in ev]


def run(c):
    c.start_driver_deps('progenitor = { path = "%s/harness/progenitor-shim", features = ["macro"] }\n' % ROOT)
    c.build_gen()
    inv = "INIT SInit\nNEXT MNext\nCONSTANT MaxCalls = %d\nCONSTANT MaxNew = %d\nINVARIANT LastWins\nINVARIANT Commute\nINVARIANT InEffect\nINVARIANT NothingElse\nINVARIANT Kept\n"
    r = c.design("MC_Settings", inv % ((3, 1) if c.thorough else (2, 2)), deadlock=False)
    ops = c.serialized(r, "ops.json")
    rng = c.rng
    docs = [document(*f) for f in FLAGS]
    hist = [[]] + [[o] for o in ops]
    pairs = [[o, p] for o in ops for p in ops]
    hist += pairs if c.thorough else rng.sample(pairs, 900)
    for _ in range(6000 if c.thorough else 700):
        n = rng.choice([3, 4, 6, 10, 20, 40])
        some = rng.sample(ops, rng.randint(1, len(ops)))
        hist.append([rng.choice(some) for _ in range(n)])
    for _ in range(6000 if c.thorough else 700):
        hist.append([wide(rng) if rng.random() < .9 else rng.choice(ops) for _ in range(rng.choice([2, 3, 4, 6, 10, 30]))])
    jobs, meta = [], []
    for k, h in enumerate(hist):
        script = [{"ev": "call", "o": o} for o in h]
        if not h:
            script.append({"ev": "new", "default": True})
        for _ in range(rng.choice([0, 0, 1, 2])):
            script.insert(rng.randint(0, len(script)), {"ev": "new"})
        script.append({"ev": "new"})
        di = k % len(docs)
        jobs.append({"doc": docs[di], "runs": [{"style": "history", "script": script}]})
        meta.append((script, FLAGS[di]))
    sess = []
    for line in c.generate(jobs):
        script, fl = meta[line["job"]]
        if line["r"] != "ok":
            raise Violation("the generator dies on a history of settings", json.dumps({"script": script, "answer": line})[:4000])
        ev = list(script)
        for g, o in enumerate(line["outs"]):
            o.setdefault("told", {})
            ev.append(dict(o, ev="output", g=g + 1, paginated=fl[0], websocket=fl[1]))
        sess.append({"events": ev})
    c.notes["setting_histories"] = len(sess)
    c.sample({"calls": [e.get("o") for e in sess[40]["events"]][:4]})
    # the macro
    cases = macros(c, docs, 900 if c.thorough else 160)
    jobs = [{"doc": docs[di], "runs": [{"style": "history", "script": ([{"ev": "call", "o": o} for o in lib] if not bad else []) + [{"ev": "new"}], "beside": out}]}
            for _, lib, di, out, _, bad in cases]
    n0 = len(sess)
    for line in c.generate(jobs, tag="mac"):
        ev, lib, di, out, text, bad = cases[line["job"]]
        m = line["outs"][0].get("macro") or {"r": line["outs"][0]["r"]}
        sess.append({"events": [dict(m, ev="macro", **ev)]})
    c.notes["macro_uses"] = len(cases)
    c.notes["macro_uses_refused"] = sum(1 for s in sess[n0:] if s["events"][0]["r"] == "err")
    sess += compiled(c)
    c.validate("TraceSettings", "INIT TInit\nNEXT TNext\n", sess, what="generation settings",
               describe=lambda i: cases[i - n0][4] if n0 <= i < n0 + len(cases) else None)
