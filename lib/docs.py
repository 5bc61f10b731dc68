"""Abstract API documents.

An operation is a dict:
  id, method, path, params=[{name, in, ty, required}], body={ct, ty}|None,
  responses=[{status, kind, ty}], tags=[...], paginated, websocket,
  rust (method name in generated code), summary, description
The abstract document is what the TLA+ specifications read; this module turns
it into OpenAPI text and into the glue that calls the generated client.
"""
import json

SCALARS = {
    # ty: (schema, rust type, passed by reference?)
    "str": ({"type": "string"}, "String", "str"),
    "i64": ({"type": "integer", "format": "int64"}, "i64", "val"),
    "i32": ({"type": "integer", "format": "int32"}, "i32", "val"),
    "u64": ({"type": "integer", "format": "uint64", "minimum": 0}, "u64", "val"),
    "u32": ({"type": "integer", "format": "uint32", "minimum": 0}, "u32", "val"),
    "u8": ({"type": "integer", "format": "uint8", "minimum": 0}, "u8", "val"),
    "nzu32": ({"type": "integer", "format": "uint32", "minimum": 1}, "::std::num::NonZeroU32", "val"),
    "f64": ({"type": "number", "format": "double"}, "f64", "val"),
    "f32": ({"type": "number", "format": "float"}, "f32", "val"),
    "bool": ({"type": "boolean"}, "bool", "val"),
    "uuid": ({"type": "string", "format": "uuid"}, "uuid::Uuid", "ref"),
    "datetime": ({"type": "string", "format": "date-time"}, "chrono::DateTime<chrono::offset::Utc>", "ref"),
}


def schema(ty):
    if ty in SCALARS:
        return dict(SCALARS[ty][0])
    if ty.startswith("arr:"):
        return {"type": "array", "items": schema(ty[4:])}
    if ty.startswith("map:"):
        return {"type": "object", "additionalProperties": schema(ty[4:])}
    if ty.startswith("ref:"):
        return {"$ref": "#/components/schemas/" + ty[4:]}
    if ty.startswith("raw:"):        # inline schema text
        return json.loads(ty[4:])
    raise ValueError(ty)


def rust(ty, mod, comps):
    if ty in SCALARS:
        return SCALARS[ty][1]
    if ty.startswith("arr:"):
        return "Vec<%s>" % rust(ty[4:], mod, comps)
    if ty.startswith("map:"):
        return "::std::collections::HashMap<String, %s>" % rust(ty[4:], mod, comps)
    if ty.startswith("ref:"):
        return "%s::types::%s" % (mod, comps[ty[4:]].get("rust", ty[4:]))
    if ty == "raw:{}":
        return "serde_json::Value"
    return "_"


def passing(ty, comps):
    if ty in SCALARS:
        return SCALARS[ty][2]
    if ty.startswith("ref:"):
        return comps[ty[4:]].get("pass", "ref")
    return "ref"


def openapi(doc):
    """doc: {version, ops, components: {name: {schema, pass}}, paths_params?, tags?}"""
    paths = {}
    named = {"parameters": {}, "requestBodies": {}, "responses": {}}

    def refd(kind, item, hops):
        """item, or a chain of `hops` references to it"""
        for _ in range(hops):
            # keys are shared by the three name spaces on purpose
            key = "k%d" % len(named[kind])
            named[kind][key] = item
            item = {"$ref": "#/components/%s/%s" % (kind, key)}
        return item

    def param(p):
        q = {"name": p["name"], "in": p["in"], "required": p.get("docreq", p["required"]), "schema": schema(p["ty"])}
        if p.get("nullable"):      # never required, whatever the document says
            q["schema"] = dict(q["schema"], nullable=True) if "$ref" not in q["schema"] else {"nullable": True, "allOf": [q["schema"]]}
        if p.get("desc"):
            q["description"] = p["desc"]
        if p["in"] == "query" and p.get("style", True):
            q["style"] = "form"
        return refd("parameters", q, p.get("ref", 0))
    for o in doc["ops"]:
        op = {"operationId": o["id"], "responses": {}}
        if o.get("tags"):
            op["tags"] = o["tags"]
        if o.get("summary"):
            op["summary"] = o["summary"]
        if o.get("description"):
            op["description"] = o["description"]
        ps = [param(p) for p in o.get("olevel", o.get("params", []))]
        if ps:
            op["parameters"] = ps
        b = o.get("body")
        if b:
            op["requestBody"] = refd("requestBodies", {"required": True, "content": {b["ct"]: {"schema": body_schema(b)}}}, b.get("ref", 0))
        for r in o.get("responses", []):
            x = {"description": r.get("desc", "")}
            if r["kind"] == "json":
                x["content"] = {r.get("ct", "application/json"): {"schema": schema(r["ty"])}}
            elif r["kind"] == "raw":
                x["content"] = {r.get("ct", "*/*"): {"schema": {}}}
            op["responses"][r["status"]] = refd("responses", x, r.get("ref", 0))
        if o.get("paginated"):
            op["x-dropshot-pagination"] = {"required": o.get("first_page_required", [])} if o["paginated"] is True else o["paginated"]
        if o.get("websocket"):
            op["x-dropshot-websocket"] = {}
        paths.setdefault(o["path"], {})[o["method"]] = op
        if o.get("plevel") and "parameters" not in paths[o["path"]]:
            paths[o["path"]]["parameters"] = [param(p) for p in o["plevel"]]
    d = {"openapi": doc.get("openapi", "3.0.3"),
         "info": {"title": doc.get("title", "t"), "version": doc.get("version", "1.2.3")},
         "paths": paths}
    if doc.get("components"):
        d["components"] = {"schemas": {k: v["schema"] for k, v in doc["components"].items()}}
    for k, v in named.items():
        if v:
            d.setdefault("components", {})[k] = dict(sorted(v.items(), key=lambda kv: hash_order(kv[0])))
    if doc.get("tags"):
        d["tags"] = doc["tags"]
    return d


def hash_order(k):
    return sum(ord(c) * 7 ** n for n, c in enumerate(k)) % 11, k


def body_schema(b):
    ct = b["ct"].split(";")[0]
    if ct == "application/octet-stream":
        return {"type": "string", "format": "binary"}
    if ct in ("text/plain", "text/x-markdown"):
        return {"type": "string"}
    return schema(b["ty"])


def order(o):
    """Positional order promised by C16."""
    names = path_names(o["path"])
    ps = o.get("params", [])
    path = sorted([p for p in ps if p["in"] == "path"], key=lambda p: names.index(p["name"]))
    q = sorted([p for p in ps if p["in"] == "query"], key=lambda p: p["name"].encode())
    h = sorted([p for p in ps if p["in"] == "header"], key=lambda p: p["name"].encode())
    return path + q + h


def path_names(t):
    out, cur, inp = [], "", False
    for c in t:
        if c == "{" and not inp:
            inp, cur = True, ""
        elif c == "}" and inp:
            inp = False
            out.append(cur)
        elif inp:
            cur += c
    return out


def rname(p):
    return p.get("rust") or p["name"].replace("-", "_").lower()


def raw_body(o):
    b = o.get("body")
    if not b:
        return None
    ct = b["ct"].split(";")[0]
    if ct == "application/octet-stream":
        return "bytes"
    if ct in ("text/plain", "text/x-markdown"):
        return "text"
    return None


OBS = {"json": "rt::js", "none": "rt::un", "raw": "rt::st", "upgrade": "rt::up"}


def kinds(o):
    """(success kind, error kind) of the operation's result type."""
    rs = o.get("responses", [])

    def k(r):
        if r["kind"] == "json":
            return "json"
        if o.get("websocket"):
            return "upgrade"
        return r["kind"]
    succ = [k(r) for r in rs if r["status"] == "default" or r["status"][0] == "2" or r["status"] == "101"]
    err = [k(r) for r in rs if r["status"] == "default" or r["status"][0] in "45"]
    declared = [r for r in rs if r["status"] == "default" or r["status"][0] == "2"]
    if not declared:
        succ.append("raw")
    if o.get("websocket"):
        succ.append("upgrade")
    return (succ[0] if succ else "none"), (err[0] if err else "none")


def glue(doc, mod, style, extra_client=""):
    """Rust source of `pub async fn call(ctx, client, op, args) -> Value`."""
    comps = doc.get("components", {})
    arms = []
    for o in doc["ops"]:
        sk, ek = kinds(o)
        rn = o.get("rust") or o["id"]
        fin = "rt::outcome(r, %s, %s).await" % (OBS[sk], OBS[ek])
        L = []
        if style == "positional":
            args = []
            for n, p in enumerate(order(o)):
                t, how = rust(p["ty"], mod, comps), passing(p["ty"], comps)
                if p["required"]:
                    L.append("let p%d: %s = rt::de(a, %s);" % (n, t, rs(p["name"])))
                    args.append({"val": "p%d", "ref": "&p%d", "str": "&p%d"}[how] % n)
                else:
                    L.append("let p%d: Option<%s> = rt::de(a, %s);" % (n, t, rs(p["name"])))
                    args.append({"val": "p%d", "ref": "p%d.as_ref()", "str": "p%d.as_deref()"}[how] % n)
            if o.get("body"):
                rb = raw_body(o)
                if rb == "bytes":
                    L.append('let pb: Vec<u8> = rt::de(a, "body");')
                    args.append("pb")
                elif rb == "text":
                    L.append('let pb: String = rt::de(a, "body");')
                    args.append("pb")
                else:
                    ty = o["body"]["ty"]
                    L.append('let pb: %s = rt::de(a, "body");' % rust(ty, mod, comps))
                    args.append({"val": "pb", "ref": "&pb", "str": "&pb"}[passing(ty, comps)])
            L.append("let r = c.%s(%s).await;" % (rn, ", ".join(args)))
        else:
            call = builder_call(o, mod, style)
            L.append("#[allow(unused_mut)] let mut q = %s;" % call)
            for p in order(o):
                t = rust(p["ty"], mod, comps)
                L.append("if rt::has(a, %s) { q = q.%s(rt::de::<%s>(a, %s)); }"
                         % (rs(p["name"]), rname(p), t, rs(p["name"])))
            if o.get("body"):
                rb = raw_body(o)
                t = {"bytes": "Vec<u8>", "text": "String"}.get(rb) or rust(o["body"]["ty"], mod, comps)
                L.append('if rt::has(a, "body") { q = q.body(rt::de::<%s>(a, "body")); }' % t)
            L.append("let r = q.send().await;")
        arms.append("        %s => { %s %s }" % (rs(o["id"]), "\n            ".join(L), fin))
    return """
#[allow(unused_variables, unused_imports, deprecated)]
pub async fn call(c: &%s::Client, op: &str, a: &serde_json::Value) -> serde_json::Value {
    match op {
%s
        x => panic!("harness: no operation {x}"),
    }
}
""" % (mod, "\n".join(arms))


def builder_call(o, mod, style):
    """The builder of an operation; in the separate style through the trait
    of the tag the scenario names."""
    rn = o.get("rust") or o["id"]
    if style != "separate" or not o.get("tags"):
        return "c.%s()" % rn
    trs = o.get("tag_rust") or [trait_name(t) for t in o["tags"]]
    return 'match a["__tag"].as_u64().unwrap_or(0) { %s }' % " ".join(
        "%s => %s::prelude::%s::%s(c)," % ("_" if k == len(trs) - 1 else k, mod, t, rn) for k, t in enumerate(trs))


def trait_name(t):
    """The trait of a tag (C15's mapping; TraceNames and TraceStyles judge
    the real one)."""
    import re
    if t in ("+1", "-1"):
        return {"+1": "Clientplus1Ext", "-1": "Clientminus1Ext"}[t]
    words = re.findall(r"[A-Z]+(?=[A-Z][a-z])|[A-Z]*[a-z0-9]*[a-z][a-z0-9]*|[A-Z0-9]+", re.sub("'", "", t))
    p = "".join(w.capitalize() for w in words) or "X"
    p = "_" + p if p[0].isdigit() else p
    return "Client%sExt" % (p + "_" if p == "Self" else p)



def rs(s):
    """A Rust string literal."""
    return '"' + "".join(c if 32 <= ord(c) < 127 and c not in '"\\' else "\\u{%x}" % ord(c) for c in s) + '"'


MAIN = """// generated by /verif/lib/docs.py
#![allow(warnings)]
use rt::Ctx;
use serde_json::{json, Value};
%(mods)s

fn handler(ctx: Ctx, sc: Value) -> futures::future::BoxFuture<'static, Value> {
    Box::pin(async move {
        let base = sc["base"].as_str().unwrap_or("");
        let url = sc["url"].as_str().map(|s| s.to_string()).unwrap_or_else(|| ctx.server.url(base));
        let op = sc["op"].as_str().unwrap_or("").to_string();
        let a = sc["args"].clone();
        %(before)s
        match sc["api"].as_str().unwrap_or("") {
%(arms)s
            x => panic!("harness: no api {x}"),
        }
    })
}
%(extra)s
fn main() { rt::run_main(handler) }
"""


def build_apis(check, apis, extra="", extra_arms="", extra_mods="", before="", settings=None, files=None, stubs=True):
    """apis: {api name: (doc, style)}.  Generates, writes glue, compiles.
    Returns the driver binary; raises Violation when the generator refuses or
    the generated code does not compile."""
    gd = check.gen_dir()
    jobs, names = [], list(apis)
    for n in names:
        doc, style = apis[n][0], apis[n][1]
        st = apis[n][2] if len(apis[n]) > 2 else (settings or {})
        jobs.append({"doc": openapi(doc), "runs": [{"style": style, "settings": st,
                                                    "out": gd + "/" + n + ".rs"}]})
    from lib.core import Violation
    for line in (check.generate(jobs) if jobs else []):
        if line["r"] != "ok":
            raise Violation("the generator refuses or fails on a document it must serve (%s)" % line["r"],
                            json.dumps({"api": names[line["job"]], "msg": line.get("msg")}))
    mods, arms, fs, gives = [], [], {}, set()
    for n in names:
        doc, style = apis[n][0], apis[n][1]
        st = apis[n][2] if len(apis[n]) > 2 else (settings or {})
        fs["glue_%s.rs" % n] = glue(doc, "crate::" + n, style)
        if "script" in doc.get("glue", ()):
            src, g = script_glue(doc, "crate::" + n, style)
            fs["glue_%s.rs" % n] += src
            gives |= g
        if any(o.get("paginated") for o in doc["ops"]):
            fs["glue_%s.rs" % n] += stream_glue(doc, "crate::" + n, style)
        mods.append('#[path = "api/%s.rs"] pub mod %s;\nmod glue_%s;' % (n, n, n))
        arms.append('            "%s" => { let c = %s::Client::new_with_client(&url, rt::http_client()%s); '
                    'for _ in 1..sc["times"].as_u64().unwrap_or(1) { let mut o = glue_%s::call(&c, &op, &a).await; '
                    'o["e"] = json!("out"); ctx.log.push(o); } glue_%s::call(&c, &op, &a).await }'
                    % (n, n, ", crate::inner(&ctx, &sc)" if st.get("inner_type") else "", n, n))
    if gives:
        extra += give_types(gives)
        for n in names:
            arms.append('            "script_%s" => { let c = %s::Client::new_with_client(&url, rt::http_client()); glue_%s::script(&c, &op, &a).await }' % (n, n, n))
    fs["main.rs"] = MAIN % {"mods": "\n".join(mods) + extra_mods, "arms": "\n".join(arms) + extra_arms,
                            "extra": extra, "before": before}
    fs.update(files or {})
    return check.build_driver(fs)


# ---------------------------------------------------------------- trace encoding
def by(s):
    return list(s.encode("utf8")) if isinstance(s, str) else list(s)


def tagged(v, marks=False):
    """A JSON value as a uniform tagged tree TLC can compare.  With marks, a
    number literal written with a fraction or exponent is told apart and the
    text of the nearest double is kept beside it."""
    if v is None:
        return {"k": "null", "s": [], "a": [], "o": []}
    if v is True or v is False:
        return {"k": "bool", "s": by("true" if v else "false"), "a": [], "o": []}
    if isinstance(v, (int, float)):
        if isinstance(v, int) and not -2**63 <= v < 2**64:
            v = float(v)            # as every JSON reader with 64-bit integers takes it
        m = [tagged("float")] if marks and isinstance(v, float) else []
        f = [[by(num(float(v))), tagged(None)]] if marks else []
        return {"k": "num", "s": by(num(v)), "a": m, "o": f}
    if isinstance(v, str):
        return {"k": "str", "s": by(v), "a": [], "o": []}
    if isinstance(v, list):
        return {"k": "arr", "s": [], "a": [tagged(x, marks) for x in v], "o": []}
    return {"k": "obj", "s": [], "a": [], "o": [[by(k), tagged(x, marks)] for k, x in
                                                sorted(v.items(), key=lambda kv: by(kv[0]))]}


def num(v):
    if isinstance(v, float):
        if v == int(v) and abs(v) < 1e15:
            return str(int(v))
        return repr(v)
    return str(v)


def parse_json(bs, marks=False):
    """(ok, tagged)"""
    def bad(x):
        raise ValueError(x)

    def pairs(ps):
        if len(set(k for k, _ in ps)) != len(ps):
            raise ValueError("duplicate key")
        return dict(ps)
    try:
        t = bytes(bs).decode("utf8")
        if t.startswith("\ufeff"):
            raise ValueError("BOM")
        v = json.loads(t, parse_constant=bad, object_pairs_hook=pairs)
        json.dumps(v, ensure_ascii=False).encode("utf8")
        return True, tagged(v, marks)
    except Exception:
        return False, tagged(None)


def argval(ty, v):
    """Value of an argument as the specification sees it."""
    if v is None:
        return {"k": "absent", "s": [], "a": [], "m": []}
    if isinstance(v, list):
        return {"k": "list", "s": [], "a": [text(x) for x in v], "m": []}
    if isinstance(v, dict):
        return {"k": "map", "s": [], "a": [], "m": [[by(k), text(x)] for k, x in v.items() if x is not None]}
    return {"k": "text", "s": text(v), "a": [], "m": []}


def text(v):
    if v is True or v is False:
        return by("true" if v else "false")
    if isinstance(v, (int, float)):
        return by(num(v))
    return by(v)


def exch(o):
    """Requests the server saw, normalised."""
    out = []
    for e in o["log"]:
        if e.get("e") == "req":
            if e.get("bad"):
                out.append({"method": "?", "target": [], "headers": [], "body": [], "framed": False,
                            "complete": False})
            else:
                out.append({"method": e["method"], "target": e["target"], "headers": e["headers"],
                            "body": e["body"], "framed": e["framed"], "complete": e["complete"]})
    return out


def stream_glue(doc, mod, style):
    """Rust source of `pub async fn stream(ctx, client, op, args, polls)`: asks
    a paginated stream for elements and logs what it gives."""
    comps = doc.get("components", {})
    arms = []
    for o in doc["ops"]:
        if not o.get("paginated"):
            continue
        rn, L, args = o.get("rust") or o["id"], [], []
        if style == "positional":
            for n, p in enumerate(order(o)):
                if p["name"] == "page_token":
                    continue
                t, how = rust(p["ty"], mod, comps), passing(p["ty"], comps)
                if p["required"]:
                    L.append("let p%d: %s = rt::de(a, %s);" % (n, t, rs(p["name"])))
                    args.append({"val": "p%d", "ref": "&p%d", "str": "&p%d"}[how] % n)
                else:
                    L.append("let p%d: Option<%s> = rt::de(a, %s);" % (n, t, rs(p["name"])))
                    args.append({"val": "p%d", "ref": "p%d.as_ref()", "str": "p%d.as_deref()"}[how] % n)
            if o.get("body"):
                ty = o["body"]["ty"]
                L.append('let pb: %s = rt::de(a, "body");' % rust(ty, mod, comps))
                args.append({"val": "pb", "ref": "&pb", "str": "&pb"}[passing(ty, comps)])
            L.append("let s = c.%s_stream(%s);" % (rn, ", ".join(args)))
        else:
            L.append("#[allow(unused_mut)] let mut q = %s;" % builder_call(o, mod, style))
            for p in order(o):
                L.append("if rt::has(a, %s) { q = q.%s(rt::de::<%s>(a, %s)); }"
                         % (rs(p["name"]), rname(p), rust(p["ty"], mod, comps), rs(p["name"])))
            if o.get("body"):
                L.append('if rt::has(a, "body") { q = q.body(rt::de::<%s>(a, "body")); }' % rust(o["body"]["ty"], mod, comps))
            L.append("let s = q.stream();")
        arms.append("        %s => { %s rt::poll_stream(ctx, s, polls).await }" % (rs(o["id"]), "\n            ".join(L)))
    return """
#[allow(unused_variables, unused_imports, deprecated)]
pub async fn stream(ctx: &rt::Ctx, c: &%s::Client, op: &str, a: &serde_json::Value, polls: u64) -> serde_json::Value {
    match op {
%s
        x => panic!("harness: no stream {x}"),
    }
}
""" % (mod, "\n".join(arms))


# ---------------------------------------------------------------- builder scripts
CONV = {"u8": "i64", "u32": "i64", "i32": "i64", "i64": "u64", "u64": "i64", "nzu32": "u32", "str": "String"}


def conv_src(ty, comps):
    if ty in CONV:
        return CONV[ty]
    if ty.startswith("ref:") and "enum" in comps[ty[4:]]["schema"]:
        return "String"
    return None


def script_glue(doc, mod, style):
    """`pub async fn script(ctx, client, op, args) -> Value` performing the
    setter calls of args["calls"] on the operation's builder, and the
    conversions that fail.  Returns (source, {target types})."""
    comps = doc.get("components", {})
    arms, gives = [], set()

    def member_arms(fields):
        out = []
        for f in fields:
            t = rust(f["ty"], mod, comps)
            tt = t if f["req"] else "Option<%s>" % t
            gives.add((t, f["req"]))
            out.append('(%s, "set") => b.%s(rt::de::<%s>(m, "v")),' % (rs(f["n"]), f.get("rust", f["n"]), tt))
            out.append('(%s, "bad") => b.%s(crate::Give::<%s>::new()),' % (rs(f["n"]), f.get("rust", f["n"]), t))
            cs = conv_src(f["ty"], comps)
            if cs and f["req"]:
                out.append('(%s, "conv") => b.%s(rt::de::<%s>(m, "v")),' % (rs(f["n"]), f.get("rust", f["n"]), cs))
        return "\n".join(out)
    for o in doc["ops"]:
        rn = o.get("rust") or o["id"]
        L = []
        for p in order(o):
            t = rust(p["ty"], mod, comps)
            gives.add((t, True))
            L.append('(%s, "set") => q.%s(rt::de::<%s>(s, "v")),' % (rs(p["name"]), rname(p), t))
            L.append('(%s, "bad") => q.%s(crate::Give::<%s>::new()),' % (rs(p["name"]), rname(p), t))
            cs = conv_src(p["ty"], comps)
            if cs:
                L.append('(%s, "conv") => q.%s(rt::de::<%s>(s, "v")),' % (rs(p["name"]), rname(p), cs))
        raw, b = raw_body(o), o.get("body")
        if raw:
            t = {"bytes": "Vec<u8>", "text": "String"}[raw]
            L.append('("body", "set") => q.body(rt::de::<%s>(s, "v")),' % t)
            L.append('("body", "bad") => q.body(crate::Give::<%s>::new()),' % {"bytes": "reqwest::Body", "text": "String"}[raw])
            gives.add(({"bytes": "reqwest::Body", "text": "String"}[raw], True))
        elif b:
            t = rust(b["ty"], mod, comps)
            gives.add((t, True))
            L.append('("body", "set") => q.body(rt::de::<%s>(s, "v")),' % t)
            L.append('("body", "bad") => q.body(crate::Give::<%s>::new()),' % t)
            cs = conv_src(b["ty"], comps)
            if cs:
                L.append('("body", "conv") => q.body(rt::de::<%s>(s, "v")),' % cs)
            if o.get("members"):
                step = "for m in s[\"m\"].as_array().unwrap() { b = match (m[\"n\"].as_str().unwrap(), m[\"k\"].as_str().unwrap()) { %s x => panic!(\"harness: member {x:?}\") }; } b" % member_arms(o["members"])
                L.append('("body", "map") => q.body_map(|b| { let mut b = b; %s }),' % step)
                L.append('("body", "build") => q.body({ let mut b = %s::builder(); %s }),' % (t, step))
        if not raw:
            L.append('("", "clone") => { let r = q.clone(); drop(q); r }')
        else:
            L.append('("", "clone") => q,')
        call = builder_call(o, mod, style)
        sk, ek = kinds(o)
        fin = "rt::outcome(q.send().await, %s, %s).await" % (OBS[sk], OBS[ek])
        if o.get("paginated"):
            fin = "if a[\"stream\"].as_bool().unwrap_or(false) { rt::first_of(q.stream()).await } else { %s }" % fin
        arms.append("""        %s => {
            let mut q = %s;
            for s in a["calls"].as_array().unwrap() {
                q = match (s["p"].as_str().unwrap(), s["k"].as_str().unwrap()) { %s
                    x => panic!("harness: setter {x:?}") };
            }
            %s
        }""" % (rs(o["id"]), call, "\n".join(L), fin))
    return """
#[allow(unused_variables, unused_imports, unused_mut, deprecated)]
pub async fn script(c: &%s::Client, op: &str, a: &serde_json::Value) -> serde_json::Value {
    match op {
%s
        x => panic!("harness: no operation {x}"),
    }
}
""" % (mod, "\n".join(arms)), gives


def give_types(gives):
    """A value whose conversion to any of the types fails."""
    out = ["""
pub struct Give<T>(std::marker::PhantomData<fn() -> T>);
impl<T> Give<T> { pub fn new() -> Self { Give(std::marker::PhantomData) } }
pub struct Nope;
impl std::fmt::Display for Nope { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("nope") } }
"""]
    for t in sorted({t for t, _ in gives}):
        out.append("impl TryFrom<Give<%s>> for %s { type Error = Nope; fn try_from(_: Give<%s>) -> Result<Self, Nope> { Err(Nope) } }" % (t, t, t))
    for t in sorted({t for t, r in gives if not r}):
        out.append("impl TryFrom<Give<%s>> for Option<%s> { type Error = Nope; fn try_from(_: Give<%s>) -> Result<Self, Nope> { Err(Nope) } }" % (t, t, t))
    return "\n".join(out)


# ---------------------------------------------------------------- mocks
REASON = {200: "ok", 201: "created", 202: "accepted", 203: "non_authoritative_information", 204: "no_content",
          400: "bad_request", 401: "unauthorized", 404: "not_found", 409: "conflict", 418: "im_a_teapot",
          500: "internal_server_error", 503: "service_unavailable", 505: "http_version_not_supported"}


def then_name(r):
    """The method that sets a declared response."""
    s = r["status"]
    if s == "default":
        return "default_response"
    if s.upper().endswith("XX"):
        return {"2": "success", "4": "client_error", "5": "server_error"}[s[0]]
    return REASON.get(int(s), "status_" + s)


def mock_glue(doc, mod, mockmod):
    """`pub fn decide(sc) -> Value`: shows a request to mocks with various
    expectations, and asks them for answers."""
    comps = doc.get("components", {})
    arms, thens = [], []
    for o in doc["ops"]:
        rn = o.get("rust") or o["id"]
        L = []
        for p in order(o):
            if p["in"] == "header":
                continue
            t, how = rust(p["ty"], mod, comps), passing(p["ty"], comps)
            ref = {"val": t, "ref": "&" + t, "str": "&str"}[how]
            give = {"val": "v", "ref": "&v", "str": "v.as_str()"}[how]
            m = {"into_inner": "into_inner_"}.get(rname(p), rname(p))
            L.append('(%s, "set") => { let v: %s = rt::de(e, "v"); w.%s(%s) }' % (rs(p["name"]), t, m, give))
            if not p["required"]:
                L.append('(%s, "none") => w.%s(None::<%s>),' % (rs(p["name"]), m, ref))
        raw = raw_body(o)
        if raw == "bytes":
            L.append('("body", "set") => w.body(e["v"].clone()),')
        elif raw == "text":
            L.append('("body", "set") => w.body(rt::de::<String>(e, "v")),')
        elif o.get("body"):
            L.append('("body", "set") => { let v: %s = rt::de(e, "v"); w.body(&v) }' % rust(o["body"]["ty"], mod, comps))
        arms.append("""        %s => server.%s(|w, _t| {
            #[allow(unused_mut)] let mut w = w;
            for e in d["exps"].as_array().unwrap() {
                w = match (e["n"].as_str().unwrap(), e["k"].as_str().unwrap()) { %s
                    x => panic!("harness: expectation {x:?}") };
            }
            let _ = w.into_inner();
        }),""" % (rs(o["id"]), rn, "\n".join(L)))
        T = []
        for k, r in enumerate(o.get("responses", [])):
            args = [] if r["status"][0].isdigit() and r["status"].isdigit() else ['d["given"].as_u64().unwrap() as u16']
            pre = ""
            if r["kind"] == "json":
                pre = 'let v: %s = rt::de(d, "v");' % rust(r["ty"], mod, comps)
                args.append("&v")
            elif r["kind"] == "raw" and not o.get("websocket"):
                args.append('d["v"].clone()')
            T.append("%d => { %s t.%s(%s) }" % (k, pre, then_name(r), ", ".join(args)))
        thens.append("""        %s => server.%s(|_w, t| { let t = match d["resp"].as_u64().unwrap() { %s x => panic!("harness: response {x}") }; let _ = t.into_inner(); }),"""
                     % (rs(o["id"]), rn, "\n".join(T)))
    return """
use serde_json::{json, Value};
use %s::MockServerExt;
fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        if m.starts_with("harness") { eprintln!("{m}"); std::process::exit(77); }
        m
    })
}
pub fn one(req: &httpmock::HttpMockRequest, d: &Value) -> Value {
    let server = httpmock::MockServer::start();
    let r = quiet(|| {
        let m = match d["op"].as_str().unwrap() {
%s
            x => panic!("harness: no mock {x}"),
        };
        m.accepts(req)
    });
    match r { Ok(a) => json!({"accept": a, "panic": false}), Err(m) => json!({"accept": false, "panic": true, "msg": m}) }
}
pub fn answer(d: &Value) -> Value {
    let server = httpmock::MockServer::start();
    let r = quiet(|| {
        let m = match d["op"].as_str().unwrap() {
%s
            x => panic!("harness: no mock {x}"),
        };
        m.answer()
    });
    match r {
        Ok(a) => json!({"panic": false, "status": a.status, "headers": a.headers, "body": a.body}),
        Err(m) => json!({"panic": true, "msg": m}),
    }
}
pub fn decide(sc: &Value) -> Value {
    let r = &sc["req"];
    let bytes = |v: &Value| -> Vec<u8> { v.as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect() };
    let text = |v: &Value| String::from_utf8_lossy(&bytes(v)).into_owned();
    let out: Vec<Value> = if r.is_null() {
        sc["answers"].as_array().unwrap().iter().map(answer).collect()
    } else {
        let hs = r["headers"].as_array().unwrap().iter().map(|h| (h[0].as_str().unwrap().to_string(), text(&h[1]))).collect();
        let req = httpmock::request(r["method"].as_str().unwrap(), &text(&r["target"]), hs, bytes(&r["body"]));
        sc["decisions"].as_array().unwrap().iter().map(|d| one(&req, d)).collect()
    };
    json!({"k": "mock", "d": out})
}
""" % (mockmod, "\n".join(arms), "\n".join(thens))


# ---------------------------------------------------------------- command lines
def pascal(s):
    return "".join(w.capitalize() for w in s.split("_"))


def cli_glue(doc, mod, name):
    """Module with the generated command line `name` over client `mod`, a
    recording CliConfig and `pub async fn run(ctx, url, sc) -> Value`."""
    overs, cmds = [], []
    for o in doc["ops"]:
        rn = o.get("rust") or o["id"]
        overs.append("    fn execute_%s(&self, m: &clap::ArgMatches, request: &mut %s::builder::%s) -> anyhow::Result<()> { self.over() }" % (rn, mod, pascal(rn)))
        cmds.append('        %s => gen::CliCommand::%s,' % (rs(o["id"]), pascal(rn)))
    return """
use serde_json::{json, Value};
use %(mod)s::{Error, ResponseValue};
#[allow(dead_code, unused)]
pub mod gen {
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/api/%(name)s.rs"));
}
struct Rec { ctx: rt::Ctx, stop: bool }
impl Rec {
    fn log(&self, v: Value) { self.ctx.log.push(v) }
    fn over(&self) -> anyhow::Result<()> {
        self.log(json!({"e": "over"}));
        if self.stop { anyhow::bail!("stopped") }
        Ok(())
    }
}
fn kind<T>(e: &Error<T>) -> &'static str {
    match e {
        Error::InvalidRequest(_) => "InvalidRequest",
        Error::CommunicationError(_) => "CommunicationError",
        Error::ErrorResponse(_) => "ErrorResponse",
        Error::InvalidUpgrade(_) => "InvalidUpgrade",
        Error::ResponseBodyError(_) => "ResponseBodyError",
        Error::InvalidResponsePayload(..) => "InvalidResponsePayload",
        Error::UnexpectedResponse(_) => "UnexpectedResponse",
        #[allow(unreachable_patterns)]
        _ => "PreHookError",
    }
}
fn err<T>(n: &str, e: &Error<T>) -> Value {
    json!({"e": "cb", "n": n, "k": kind(e), "st": e.status().map(|s| s.as_u16()).unwrap_or(0)})
}
impl gen::CliConfig for Rec {
    fn success_item<T>(&self, value: &ResponseValue<T>) where T: schemars::JsonSchema + serde::Serialize + std::fmt::Debug {
        self.log(json!({"e": "cb", "n": "success_item", "v": serde_json::to_value(&**value).unwrap(), "st": value.status().as_u16()}))
    }
    fn success_no_item(&self, value: &ResponseValue<()>) {
        self.log(json!({"e": "cb", "n": "success_no_item", "st": value.status().as_u16()}))
    }
    fn error<T>(&self, value: &Error<T>) where T: schemars::JsonSchema + serde::Serialize + std::fmt::Debug { self.log(err("error", value)) }
    fn list_start<T>(&self) where T: schemars::JsonSchema + serde::Serialize + std::fmt::Debug { self.log(json!({"e": "cb", "n": "list_start"})) }
    fn list_item<T>(&self, value: &T) where T: schemars::JsonSchema + serde::Serialize + std::fmt::Debug {
        self.log(json!({"e": "cb", "n": "list_item", "v": serde_json::to_value(value).unwrap()}))
    }
    fn list_end_success<T>(&self) where T: schemars::JsonSchema + serde::Serialize + std::fmt::Debug { self.log(json!({"e": "cb", "n": "list_end_success"})) }
    fn list_end_error<T>(&self, value: &Error<T>) where T: schemars::JsonSchema + serde::Serialize + std::fmt::Debug { self.log(err("list_end_error", value)) }
%(overs)s
}
pub async fn run(ctx: rt::Ctx, url: String, sc: Value) -> Value {
    let cmd = match sc["op"].as_str().unwrap() {
%(cmds)s
        x => panic!("harness: no command {x}"),
    };
    let listed = gen::CliCommand::iter().filter(|c| format!("{c:?}") == format!("{cmd:?}")).count();
    let command = gen::Cli::<Rec>::get_command(cmd);
    let text = |s: Option<&clap::builder::StyledStr>| s.map(|s| s.to_string()).unwrap_or_default();
    let flags: Vec<Value> = command.get_arguments().map(|a| json!({"f": a.get_long().unwrap_or(""), "req": a.is_required_set(), "help": text(a.get_help())})).collect();
    let def = json!({"e": "def", "flags": flags, "listed": listed, "about": [text(command.get_about()), text(command.get_long_about())]});
    let argv: Vec<String> = serde_json::from_value(sc["argv"].clone()).unwrap();
    let matches = command.no_binary_name(true).try_get_matches_from(argv);
    ctx.log.push(def);
    match matches {
        Err(e) => { ctx.log.push(json!({"e": "refused", "msg": e.to_string()})); json!({"k": "refused"}) }
        Ok(m) => {
            let cli = gen::Cli::new(%(mod)s::Client::new_with_client(&url, rt::http_client()), Rec { ctx: ctx.clone(), stop: sc["stop"].as_bool().unwrap() });
            let r = cli.execute(cmd, &m).await;
            json!({"k": "end", "ok": r.is_ok()})
        }
    }
}
""" % {"mod": mod, "name": name, "overs": "\n".join(overs), "cmds": "\n".join(cmds)}
