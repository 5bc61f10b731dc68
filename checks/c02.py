"""C02: query parameters."""
from lib.sess import Builder
from lib.docs import build_apis, by
from lib.call import CFG
from checks.c01 import HOT, rand_text

DYN = r"""
use serde::ser::*;
fn leak(v: &Value) -> &'static str {
    let b: Vec<u8> = v["s"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
    Box::leak(String::from_utf8(b).unwrap().into_boxed_str())
}
fn name(v: &Value) -> &'static str { leak(&json!({"s": v["n"]})) }
struct Dyn<'a>(&'a Value);
impl serde::Serialize for Dyn<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let v = self.0;
        let t = leak(v);
        let c: Vec<(&'static str, Dyn)> =
            v["c"].as_array().unwrap().iter().map(|x| (name(x), Dyn(&x["v"]))).collect();
        match v["k"].as_str().unwrap() {
            "scalar" => match v["t"].as_str().unwrap_or("str") {
                "str" => s.serialize_str(t),
                "bool" => s.serialize_bool(t == "true"),
                "i8" => s.serialize_i8(t.parse().unwrap()),
                "i16" => s.serialize_i16(t.parse().unwrap()),
                "i32" => s.serialize_i32(t.parse().unwrap()),
                "i64" => s.serialize_i64(t.parse().unwrap()),
                "u8" => s.serialize_u8(t.parse().unwrap()),
                "u16" => s.serialize_u16(t.parse().unwrap()),
                "u32" => s.serialize_u32(t.parse().unwrap()),
                "u64" => s.serialize_u64(t.parse().unwrap()),
                "f32" => s.serialize_f32(t.parse().unwrap()),
                "f64" => s.serialize_f64(t.parse().unwrap()),
                "char" => s.serialize_char(t.chars().next().unwrap()),
                "collect" => s.collect_str(t),
                x => panic!("{x}"),
            },
            "uvar" => s.serialize_unit_variant("E", 0, t),
            "none" => s.serialize_none(),
            "unit" => s.serialize_unit(),
            "ustruct" => s.serialize_unit_struct("U"),
            "some" => s.serialize_some(&c[0].1),
            "newtype" => s.serialize_newtype_struct("N", &c[0].1),
            "nvariant" => s.serialize_newtype_variant("E", 1, t, &c[0].1),
            "seq" => {
                let mut q = s.serialize_seq(Some(c.len()))?;
                for (_, x) in &c { q.serialize_element(x)?; }
                q.end()
            }
            "map" => {
                let mut q = s.serialize_map(None)?;
                for (n, x) in &c { q.serialize_entry(n, x)?; }
                q.end()
            }
            "struct" => {
                let mut q = s.serialize_struct("S", c.len())?;
                for (n, x) in &c { q.serialize_field(n, x)?; }
                q.end()
            }
            "tuple" => {
                let mut q = s.serialize_tuple(c.len())?;
                for (_, x) in &c { q.serialize_element(x)?; }
                q.end()
            }
            "tstruct" => {
                let mut q = s.serialize_tuple_struct("T", c.len())?;
                for (_, x) in &c { q.serialize_field(x)?; }
                q.end()
            }
            "tvariant" => {
                let mut q = s.serialize_tuple_variant("E", 2, t, c.len())?;
                for (_, x) in &c { q.serialize_field(x)?; }
                q.end()
            }
            "svariant" => {
                let mut q = s.serialize_struct_variant("E", 3, t, c.len())?;
                for (n, x) in &c { q.serialize_field(n, x)?; }
                q.end()
            }
            x => panic!("{x}"),
        }
    }
}
fn queries(sc: &Value) -> Value {
    let cl = reqwest::Client::new();
    let out: Vec<Value> = sc["cases"].as_array().unwrap().iter().map(|case| {
        let mut rb = cl.get("http://127.0.0.1/x");
        for p in case.as_array().unwrap() {
            let d = Dyn(&p["v"]);
            rb = rb.query(&progenitor_client::QueryParam::new(name(p), &d));
        }
        match rb.build() {
            Ok(r) => json!({"ok": true, "query": r.url().query().unwrap_or("").as_bytes()}),
            Err(_) => json!({"ok": false, "query": []}),
        }
    }).collect();
    json!({"k": "queries", "out": out})
}
"""

Q = lambda n, ty, req=False, **k: dict({"name": n, "in": "query", "ty": ty, "required": req}, **k)
OK = [{"status": "200", "kind": "json", "ty": "raw:{}"}]
COMPS = {
    "Color": {"schema": {"type": "string", "enum": ["red", "dark green", "a&b", "50%", "x=y+z"]}, "pass": "val"},
    "Filter": {"schema": {"type": "object", "required": ["name"], "properties": {
        "name": {"type": "string"}, "size": {"type": "integer", "format": "int64"},
        "on": {"type": "boolean"}, "tag": {"type": "string"}}}, "pass": "ref"},
    "Nested": {"schema": {"type": "object", "required": ["list"], "properties": {
        "list": {"type": "array", "items": {"type": "string"}}}}, "pass": "ref"},
}


def doc():
    ops = []

    def op(i, path, params, method="get"):
        ops.append({"id": i, "method": method, "path": path, "params": params, "responses": OK})
    op("one", "/one", [Q("q", "str", True)])
    op("opt", "/opt", [Q("q", "str")])
    op("scal", "/scal", [Q("i", "i64", True), Q("u", "u64"), Q("s", "i32"), Q("b", "bool"), Q("f", "f64"),
                         Q("id", "uuid"), Q("t", "datetime"), Q("c", "ref:Color"), Q("y", "u8"), Q("z", "nzu32"), Q("w", "f32")], "post")
    op("lists", "/lists", [Q("ls", "arr:str"), Q("li", "arr:i64", True), Q("lc", "arr:ref:Color")])
    op("obj", "/obj", [Q("filter", "ref:Filter", True), Q("q", "str")], "delete")
    op("objo", "/objo", [Q("filter", "ref:Filter"), Q("name", "str"), Q("m", "map:str")])
    op("weird", "/weird", [Q("a[b]", "str", rust="a_b"), Q("x&y", "str", rust="x_y"), Q("p=q", "str", rust="p_q"),
                           Q("50%", "str", rust="_50"), Q("s p", "str", rust="s_p"), Q("\u00fc", "str"),
                           Q("plus+", "str", rust="plus"), Q("type", "str", rust="type_"), Q("h#", "str", rust="h")], "put")
    op("mixed", "/m/{p}/z", [{"name": "p", "in": "path", "ty": "str", "required": True},
                             {"name": "x-h", "in": "header", "ty": "str", "required": False, "rust": "x_h"},
                             Q("a", "str", True), Q("b", "arr:str"), Q("c", "i64")], "patch")
    op("null", "/null", [Q("ls", "arr:str", docreq=True, nullable=True), Q("i", "i64", docreq=True, nullable=True), Q("c", "ref:Color", nullable=True), Q("q", "str", nullable=True),
                         Q("m", "map:str", docreq=True, nullable=True), Q("z", "str", True)])
    op("nested", "/nested", [Q("n", "ref:Nested", True), Q("q", "str")])
    return {"components": COMPS, "ops": ops}


SCAL = {"i8": ["-128", "127", "0", "-1"], "i16": ["-32768", "32767", "-255"], "i32": ["-2147483648", "2147483647", "-16777217", "-65535"],
        "i64": ["-9223372036854775808", "9223372036854775807", "-1", "9007199254740993", "-9007199254740995", "4294967296"],
        "u8": ["255", "0", "128"], "u16": ["65535", "32768"], "u32": ["4294967295", "16777217", "2147483648"],
        "u64": ["18446744073709551615", "9007199254740993", "9223372036854775809", "4294967296"],
        "f32": ["0.5", "-1.25", "0.1", "3.3", "-0.007", "16777.2", "99999.9", "-0.0", "1.0"],
        "f64": ["-0.05", "123456.789", "0.1", "1.5", "0.30000000000000004", "2.2250738585072", "-98765.4321", "-0.0", "1.0", "NaN", "inf", "-inf"],
        "char": ["a", "A", "&", "\u00e9", "\u0130", "\U0001f600", "%", "\0", " ", "+"], "bool": ["true", "false"], "collect": ["x&y"], "str": HOT}
BITS = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "u8": 8, "u16": 16, "u32": 32, "u64": 64}


def integer(rng, t):
    """Any integer of the type, all magnitudes being equally likely."""
    b = rng.randint(0, BITS[t] - (t[0] == "i"))
    n = rng.getrandbits(b) if b else 0
    return str(-n - 1 if t[0] == "i" and rng.random() < .5 else n)


NAMES = ["ids[]", "a[b]", "a[]", "[]", "a.b", "A", "aB", "a ", " a", "a+", "%5B", "a[0]", "$f", "a,b", "a|b", "a;b", "\u00fc", "a/b", "a:", "type", "_", "-a"]


def dec(rng):
    n, k = rng.randint(10001, 999999), rng.randint(1, 5)
    n += n % 10 == 0
    t = str(n)
    return rng.choice(["", "-"]) + (t[:-k] or "0") + "." + t[-k:]


def rand_val(rng, d):
    k = rng.choice(["scalar"] * 6 + ["uvar", "none", "some", "newtype", "nvariant", "seq", "seq", "map", "struct",
                                     "tstruct", "tvariant", "svariant", "ustruct"])
    if d == 0:
        k = rng.choice(["scalar", "scalar", "uvar", "none"])
    kid = lambda: {"n": by(rand_text(rng, 5)), "v": rand_val(rng, d - 1)}
    if k == "scalar":
        t = rng.choice(list(SCAL))
        if t in ("f32", "f64") and rng.random() < .5:       # six digits are exact in both
            return {"k": k, "t": t, "s": by(dec(rng)), "c": []}
        if t in BITS and rng.random() < .7:
            return {"k": k, "t": t, "s": by(integer(rng, t)), "c": []}
        return {"k": k, "t": t, "s": by(rng.choice(SCAL[t]) if t != "str" or rng.random() < .5 else rand_text(rng, 12)), "c": []}
    if k in ("uvar", "none", "ustruct"):
        return {"k": k, "s": by(rand_text(rng, 6)) if k == "uvar" else [], "c": []}
    if k in ("some", "newtype"):
        return {"k": k, "s": [], "c": [kid()]}
    if k == "nvariant":
        return {"k": k, "s": by(rand_text(rng, 6)), "c": [kid()]}
    n = rng.choice([0, 1, 1, 2, 3, 6])
    if k in ("tvariant", "svariant", "tstruct"):
        return {"k": k, "s": by("v"), "c": [kid() for _ in range(n)]}
    return {"k": k, "s": [], "c": [kid() for _ in range(n)]}


def run(c):
    c.start_driver_deps()
    c.build_gen()
    cfg = "INIT Init\nNEXT Next\nCONSTANTS Depth = %d\nTransparent = %s\nINVARIANT WrapperIsRight\n" \
          "INVARIANT RoundTrip\nINVARIANT Undisturbed\nINVARIANT ErrorIsFinal\n"
    r = c.design("MC_Query", cfg % (2, "TRUE"), deadlock=False)
    vals = c.serialized(r, "scen.json")
    c.expect_broken("MC_Query", cfg % (1, "FALSE"), deadlock=False, tag="MC_Query_opaque_newtype")
    d = doc()
    binary = build_apis(c, {"pos": (d, "positional"), "bld": (d, "builder")}, extra=DYN,
                        extra_arms='            "queries" => queries(&sc),\n')
    P = by("p")
    if not c.thorough:
        small = [v for v in vals if sum(len(str(x)) for x in v["c"]) < 60]
        vals = small + c.rng.sample(vals, min(len(vals), 2500))
    cases = [[{"n": P, "v": v}] for v in vals]
    for t, xs in SCAL.items():
        for x in xs:
            sv = {"k": "scalar", "t": t, "s": by(x), "c": []}
            for v in (sv, {"k": "some", "s": [], "c": [{"n": [], "v": sv}]},
                      {"k": "seq", "s": [], "c": [{"n": [], "v": sv}, {"n": [], "v": sv}]},
                      {"k": "newtype", "s": [], "c": [{"n": [], "v": sv}]},
                      {"k": "struct", "s": [], "c": [{"n": by("m"), "v": sv}]},
                      {"k": "map", "s": [], "c": [{"n": by("m"), "v": sv}]}):
                cases.append([{"n": P, "v": v}])
                if t == "str" and len(cases) % 3 == 0:
                    cases.append([{"n": by(x), "v": v}, {"n": by("z"), "v": sv}])
    for t in BITS:
        for _ in range(400 if c.thorough else 60):
            cases.append([{"n": P, "v": {"k": "scalar", "t": t, "s": by(integer(c.rng, t)), "c": []}}])
    seq = lambda *xs: {"k": "seq", "s": [], "c": [{"n": [], "v": {"k": "scalar", "t": "str", "s": by(x), "c": []}} for x in xs]}
    for n in NAMES:
        cases += [[{"n": by(n), "v": seq("a", "b", "a")}], [{"n": by(n), "v": seq("a")}], [{"n": by(n), "v": seq("v")["c"][0]["v"]}, {"n": by(n), "v": seq("", "x")}]]
    for _ in range(20000 if c.thorough else 1500):
        cases.append([{"n": by(rand_text(c.rng, 6)), "v": rand_val(c.rng, 2)} for _ in range(c.rng.choice([1, 1, 2, 3]))])
    # --- generated clients
    ops = {o["id"]: o for o in d["ops"]}
    B = Builder()
    n = 0

    def value(ty):
        rng = c.rng
        txt = lambda: rng.choice(HOT) if rng.random() < .6 else rand_text(rng, 16)
        if ty == "str":
            return txt()
        if ty.startswith("arr:"):
            return [value(ty[4:]) for _ in range(rng.choice([0, 1, 2, 3, 7]))]
        if ty == "map:str":
            return {txt(): txt() for _ in range(rng.choice([0, 1, 3]))}
        return {"i64": lambda: rng.choice([0, -1, 2**63 - 1, -2**63, 2**53 + 1, int(integer(rng, "i64"))]), "u64": lambda: rng.choice([0, 2**64 - 1, 2**53 + 1, int(integer(rng, "u64"))]),
                "i32": lambda: rng.choice([-2**31, 7, int(integer(rng, "i32"))]), "u8": lambda: rng.choice([0, 255]), "nzu32": lambda: rng.choice([1, 2**32 - 1]),
                "bool": lambda: rng.random() < .5, "f64": lambda: rng.choice([0.5, -0.05, 123456.75, 0.1, 0.30000000000000004]),
                "f32": lambda: rng.choice([0.1, -0.7, 3.3, 1.5, 16777.2, 0.001]),
                "uuid": lambda: "67e55044-10b1-426f-9247-bb680e5fe0c8", "datetime": lambda: "2024-02-29T23:59:59.123456Z",
                "ref:Color": lambda: rng.choice(COMPS["Color"]["schema"]["enum"]),
                "ref:Filter": lambda: {k: v for k, v in {"name": txt(), "size": rng.choice([None, -4]),
                                       "on": rng.choice([None, True]), "tag": rng.choice([None, txt()])}.items() if v is not None},
                }[ty]()
    for rnd in range(60 if c.thorough else 12):
        for o in d["ops"]:
            if o["id"] == "nested":
                continue
            for api in ("pos", "bld"):
                args = {}
                for p in o["params"]:
                    if p["in"] == "header":
                        args[p["name"]] = "h"
                    elif p["required"] or c.rng.random() < .65:
                        args[p["name"]] = value(p["ty"])
                B.add(api, d, o, args, base=c.rng.choice(["", "/base"]))
    for api in ("pos", "bld"):
        for h in (HOT if c.thorough else HOT[::3]):
            B.add(api, d, ops["one"], {"q": h})
        for args in ({"n": {"list": ["a"]}}, {"n": {"list": []}, "q": "x"}):
            B.add(api, d, ops["nested"], args, bad=["n"])
    chunk = 2000
    scen = [{"api": "queries", "cases": cases[k:k + chunk], "script": []} for k in range(0, len(cases), chunk)]
    nq = len(scen)
    obs = c.run_driver(binary, scen + B.scenarios())
    res = [x for o in obs[:nq] for x in o["out"].get("out", [])]
    if len(res) != len(cases):
        from lib.core import Violation
        raise Violation("the query serializer panicked or hung", str([o["out"].get("k") for o in obs[:nq]]) +
                        str([o.get("panic") for o in obs[:nq]]))
    strip = lambda v: {"k": v["k"], "s": v["s"], "c": [{"n": x["n"], "v": strip(x["v"])} for x in v["c"]]}
    qs = [{"form": False, "params": [{"n": p["n"], "v": strip(p["v"])} for p in case], "res": r} for case, r in zip(cases, res)]
    c.validate("TraceQuery", "INIT TInit\nNEXT TNext\n", qs, what="query serializer",
               describe=lambda i: {"params": cases[i], "query": bytes(res[i]["query"]).decode("latin1")})
    net = B.sessions(obs[nq:])
    c.sample({"value": cases[50], "query": bytes(res[50]["query"]).decode()})
    c.sample({"call": B.items[3][0], "requests": [bytes(e["target"]).decode("latin1") for e in net[3]["events"] if e["e"] == "req"]})
    c.notes["serializer_values"] = len(cases)
    c.notes["generated_client_calls"] = len(net)
    c.validate("TraceCall", CFG("C02"), net, describe=lambda i: B.items[B.index[i]][0], tag="TraceCall")
