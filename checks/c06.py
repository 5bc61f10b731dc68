"""C06: a decoded response is the server's own."""
import json
from lib.sess import Builder, resp
from lib.docs import build_apis, by
from lib.call import CFG, mc_call
from checks.c01 import HOT, rand_text

COMPS = {
    "Thing": {"schema": {"type": "object", "required": ["name", "items", "id"], "properties": {
        "name": {"type": "string"}, "items": {"type": "array", "items": {"type": "integer", "format": "int64"}},
        "id": {"type": "string", "format": "uuid"}, "note": {"type": "string"},
        "ratio": {"type": "number", "format": "double"}, "on": {"type": "boolean"},
        "inner": {"$ref": "#/components/schemas/Inner"}, "color": {"$ref": "#/components/schemas/Color"}}}, "pass": "ref"},
    "Inner": {"schema": {"type": "object", "required": ["k", "small"], "properties": {
        "k": {"type": "string"}, "small": {"type": "integer", "format": "uint8", "minimum": 0}}}, "pass": "ref"},
    "Color": {"schema": {"type": "string", "enum": ["red", "dark green", ""]}, "pass": "val"},
    "Err": {"schema": {"type": "object", "required": ["message"], "properties": {
        "message": {"type": "string"}, "error_code": {"type": "string"}}}, "pass": "ref"},
}
TYPES = ["str", "i64", "u64", "i32", "u8", "bool", "f64", "uuid", "arr:str", "arr:ref:Inner", "map:i64", "ref:Thing", "ref:Color",
         "raw:{}", "arr:arr:u8"]


def doc():
    ops = []
    for k, ty in enumerate(TYPES):
        ops.append({"id": "t%d" % k, "method": "get", "path": "/t%d" % k, "params": [], "responses": [
            {"status": "2XX", "kind": "json", "ty": ty}, {"status": "4XX", "kind": "json", "ty": "ref:Err"},
            {"status": "5XX", "kind": "json", "ty": "ref:Err"}]})
    ops.append({"id": "none", "method": "post", "path": "/none", "params": [], "responses": [
        {"status": "204", "kind": "none"}, {"status": "200", "kind": "none"}, {"status": "4XX", "kind": "none"}]})
    ops.append({"id": "rawr", "method": "put", "path": "/raw", "params": [], "responses": [
        {"status": "200", "kind": "raw"}, {"status": "400", "kind": "raw"}]})
    ops.append({"id": "dflt", "method": "put", "path": "/dflt", "params": [], "responses": [
        {"status": "default", "kind": "json", "ty": "ref:Err"}]})
    return {"components": COMPS, "ops": ops}


def good(rng, ty):
    txt = lambda: rng.choice(HOT) if rng.random() < .6 else rand_text(rng, 20)
    uu = "67e55044-10b1-426f-9247-bb680e5fe0c8"
    if ty.startswith("arr:"):
        return [good(rng, ty[4:]) for _ in range(rng.choice([0, 1, 2, 5]))]
    if ty.startswith("map:"):
        return {txt(): good(rng, ty[4:]) for _ in range(rng.choice([0, 1, 3]))}
    some = lambda d: {k: v for k, v in d.items() if v != "-"}
    return {"str": txt, "i64": lambda: rng.choice([0, -2**63, 2**63 - 1]), "u64": lambda: rng.choice([0, 2**64 - 1]),
            "i32": lambda: rng.choice([-2**31, 2**31 - 1]), "u8": lambda: rng.choice([0, 255]), "bool": lambda: rng.random() < .5,
            "f64": lambda: rng.choice([0, 1, -0.5, 1e300, 2.5e-7, 12345678.125]), "uuid": lambda: uu,
            "ref:Color": lambda: rng.choice(["red", "dark green", ""]),
            "ref:Inner": lambda: {"k": txt(), "small": rng.choice([0, 255, 7])},
            "ref:Err": lambda: some({"message": txt(), "error_code": rng.choice(["-", None, txt()])}),
            "ref:Thing": lambda: some({"name": txt(), "items": [1, -2][:rng.randint(0, 2)], "id": uu, "note": rng.choice(["-", None, txt()]),
                                       "ratio": rng.choice(["-", None, 1, 0.25]), "on": rng.choice(["-", None, True]),
                                       "inner": rng.choice(["-", None, {"k": txt(), "small": 9, "zzz": [1, {}]}]),
                                       "color": rng.choice(["-", None, "red"]), "unknown": rng.choice(["-", 1, {"a": []}])}),
            "raw:{}": lambda: rng.choice([None, 1.5, [1, "x", {"a": [None, True]}], {"k": {"": txt()}}, txt(), -7, 1e100])}[ty]()


def breakit(rng, v):
    """Values that often do not fit the type."""
    k = rng.randrange(9)
    if k == 0:
        return rng.choice([None, 1, -1, 1.0, 0.5, 256, 2**31, 2**63, -2**63 - 1, 2**64, "x", "Red", True, [], {}, [None], {"k": 1}])
    if isinstance(v, dict) and v:
        n = rng.choice(sorted(v))
        d = dict(v)
        if k < 5:
            del d[n]
        else:
            d[n] = breakit(rng, d[n])
        return d
    if isinstance(v, list) and v:
        return v[:-1] + [breakit(rng, v[-1])]
    return rng.choice([None, 1, "x", -1, 300, 1.0, [v], {"a": v}, 2**64, False])


def text_of(rng, v):
    t = json.dumps(v, ensure_ascii=rng.random() < .5, indent=rng.choice([None, None, 1]))
    b = t.encode("utf8")
    k = rng.randrange(12)
    if k == 0:
        b = b" \t\r\n" + b + b"\n "
    elif k == 1 and len(b) > 1:
        b = b[:rng.randrange(1, len(b))]
    elif k == 2:
        b = b + rng.choice([b"x", b",", b"{}", b"\0", b"]"])
    elif k == 3:
        b = rng.choice([b"", b"\xef\xbb\xbf" + b, b"\xff\xfe", b'"\xff"', b"nul", b"'a'", b"\xc3", b"NaN", b"[1,]", b"//x", b"01", b"+1", b'"\\ud800"', b'"\\x"', b'"\x01"'])
    return b


def fixed(rng, ty):
    """Bodies every typed operation is given once: none of them, or exactly the value written in them, may be accepted."""
    v = json.dumps(good(rng, ty), ensure_ascii=False).encode("utf8")
    big = json.dumps({"k": "x" * 5000, "message": "y" * 3000}).encode()
    bad = []
    for t in (b'"a\xffb"', b'"\xc3"', b'"\xed\xa0\x80"', b'"\xf4\x90\x80\x80"', b'"\xc0\xaf"'):
        bad.append({"a": [t], "m": b'{"x":' + t + b'}'}.get(ty[0], t) if ty[0] != "a" else b"[" + t + b"]")
        if ty in ("ref:Thing", "ref:Inner"):     # (in a member that is not part of the type the text is skipped, not decoded)
            bad.append(json.dumps({**good(rng, ty), {"ref:Thing": "name", "ref:Inner": "k"}[ty]: "@@"}).encode().replace(b'"@@"', t))
    return bad + [b" " * 9000 + v + b" " * 9000, b" " * 3000 + v + b"?", big + b"x" * 3000, v[:-1] + b"\0", b"\0" + v, v + b"\n" + v, b"\x0b" + v, b"\xc2\xa0" + v,
                  b'{"error":' + v + b"}", b"[" + v + b"]", b'"' + v.replace(b'"', b'\\"') + b'"', v if ty == "uuid" else v.upper(), b"\xef\xbb\xbf" + v]


HEADS = [[], [("content-type", "application/json")], [("X-Dup", "a"), ("x-dup", "b"), ("X-DUP", "a")],
         [("x-empty", ""), ("x-obs", b"\xe9\xff"), ("set-cookie", "a=1"), ("set-cookie", "b=2")],
         [("content-type", "text/html"), ("x-request-id", "0123"), ("retry-after", "0")],
         [("x-%d" % k, "v" * k) for k in range(40)],
         [("content-encoding", "identity"), ("etag", '"a"'), ("last-modified", "now"), ("vary", "*"), ("link", "<a>; rel=next"), ("link", "<b>")],
         [("server", "s"), ("date", "d"), ("age", "1"), ("allow", "GET"), ("location", "/x"), ("www-authenticate", "Basic"), ("www-authenticate", "B"),
          ("cache-control", "no-store"), ("content-language", "en"), ("content-disposition", "inline"), ("content-range", "bytes 0-1/2"),
          ("accept-ranges", "none"), ("warning", "199"), ("pragma", "x"), ("expires", "0"), ("via", "1.1 x"), ("upgrade", "h2c"), ("api-version", "9"),
          ("accept", "a/b"), ("authorization", "t"), ("cookie", "c"), ("user-agent", "u"), ("host", "h"), ("trailer", "x"), ("te", "trailers"),
          ("proxy-authenticate", "P"), ("keep-alive", "timeout=5"), ("strict-transport-security", "max-age=1"), ("content-type", "text/plain")]]

RV = """
fn rv(sc: &Value) -> Value {
    use progenitor_client::ResponseValue;
    let one = |case: &Value| -> Value {
        let mut h = reqwest::header::HeaderMap::new();
        for p in case["init"]["headers"].as_array().unwrap() {
            let n: Vec<u8> = rt::bytes_arg(p, "n"); let v: Vec<u8> = rt::bytes_arg(p, "v");
            h.append(reqwest::header::HeaderName::from_bytes(&n).unwrap(), reqwest::header::HeaderValue::from_bytes(&v).unwrap());
        }
        let st = reqwest::StatusCode::from_u16(case["init"]["status"].as_u64().unwrap() as u16).unwrap();
        let inner: String = rt::de(&case["init"], "inner");
        let mut r = ResponseValue::new(inner, st, h);
        let mut obs = vec![];
        for op in case["ops"].as_array().unwrap() {
            let op = op.as_str().unwrap();
            obs.push(match op {
                "status" => json!({"n": r.status().as_u16()}),
                "headers" => json!({"h": r.headers().iter().map(|(k, v)| json!([k.as_str().as_bytes(), v.as_bytes()])).collect::<Vec<_>>()}),
                "length" => match r.content_length() { Some(n) => json!({"s": n.to_string().as_bytes()}), None => json!({"s": [110, 111, 110, 101]}) },
                "deref" => { let s: &String = &*r; json!({"s": s.as_bytes()}) }
                "as_ref" => { let s: &String = r.as_ref(); json!({"s": s.as_bytes()}) }
                "debug" => json!({"s": format!("{r:?}").as_bytes()}),
                "set" => { *r = "set".to_string(); json!({"s": []}) }
                "push" => { r.push('p'); json!({"s": []}) }
                "map" => { r = r.map::<_, _, ()>(|s| format!("m{s}")).unwrap(); json!({"s": []}) }
                "into_inner" => json!({"s": r.into_inner().as_bytes()}).also(&mut obs, &mut r_done),
                x => panic!("{x}"),
            });
        }
        json!(obs)
    };
    json!({"k": "rv", "out": sc["cases"].as_array().unwrap().iter().map(one).collect::<Vec<_>>()})
}
""".replace('''                "into_inner" => json!({"s": r.into_inner().as_bytes()}).also(&mut obs, &mut r_done),
''', '''                "into_inner" => {
                    let (st, h) = (r.status(), r.headers().clone());
                    let inner = r.into_inner();
                    let v = json!({"s": inner.as_bytes()});
                    r = ResponseValue::new(inner, st, h);
                    v
                }
''')


def run(c):
    c.start_driver_deps()
    c.build_gen()
    mc_call(c, "hooks")
    r = c.design("MC_RespValue", "INIT Init\nNEXT Next\nCONSTANT MaxOps = %d\nINVARIANT Untouched\nPROPERTY OnlyWritersWrite\n" % (4 if c.thorough else 3),
                 deadlock=False)
    cases = c.serialized(r, "scen.json")
    inits = [{"inner": "v", "status": 200, "headers": []},
             {"inner": "", "status": 404, "headers": [{"n": by("content-length"), "v": by("17")}, {"n": by("x"), "v": by("1")}, {"n": by("x"), "v": by("0")}]},
             {"inner": "\"q\"", "status": 599, "headers": [{"n": by("content-length"), "v": by("x1")}]},
             {"inner": "z", "status": 101, "headers": [{"n": by("content-length"), "v": by("18446744073709551615")}]},
             {"inner": "z", "status": 999, "headers": [{"n": by("content-length"), "v": by("18446744073709551616")}]},
             {"inner": "z", "status": 100, "headers": [{"n": by("content-length"), "v": by("-1")}, {"n": by("content-length"), "v": by("5")}]},
             {"inner": "z", "status": 204, "headers": [{"n": by("content-length"), "v": [0xe9]}, {"n": by("content-type"), "v": [0xe9, 9, 32]}]}]
    lens = ["0", "00", "007", "1", "9", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "99999999999999999999", "", " 1", "1 ",
            "1,1", "1, 1", "0x10", "1e3", "1.0", "none", "\u0661", "000000000000000000000000001", "00018446744073709551616"]
    inits += [{"inner": "w", "status": c.rng.choice([200, 204, 206, 301, 304, 503]), "headers": [{"n": by("content-length"), "v": by(x)}]} for x in lens]
    readings = [["length", "set", "length"], ["headers", "map", "length", "headers", "status"]]
    cases = [{"init": ini, "ops": ops} for ini in inits for ops in
             readings + (cases if c.thorough else c.rng.sample(cases, min(len(cases), 400 if len(ini["headers"]) != 1 else 60)))]
    d = doc()
    binary = build_apis(c, {"pos": (d, "positional"), "bld": (d, "builder")}, extra=RV,
                        extra_arms='            "rv" => rv(&sc),\n')
    B = Builder()
    rng = c.rng
    n = 0
    for o in d["ops"]:
        fixes = fixed(rng, TYPES[int(o["id"][1:])]) if o["id"].startswith("t") else []
        for _ in range(400 if c.thorough else 60):
            n += 1
            api = ("pos", "bld")[n % 2]
            st = rng.choice([200, 200, 200, 201, 206, 299, 400, 404, 500, 204, 304, 302])
            isty = o["id"].startswith("t")
            ty = (TYPES[int(o["id"][1:])] if st < 300 else "ref:Err") if isty else "ref:Err"
            v = good(rng, ty)
            if rng.random() < .35:
                v = breakit(rng, v)
            b = text_of(rng, v)
            fx = None
            if isty and len(fixes) and rng.random() < (.5 if c.thorough else .8):
                b = fx = fixes.pop()
                st = 200
            if o["id"] in ("none", "rawr") and rng.random() < .7:
                b = rng.choice([b"", b"\0" * 5, bytes(range(256)), b"not json", b"{", b"x" * 70000])
            fr = rng.choice(["length", "length", "chunked", "close"])
            cut = rng.choice([None, None, None, rng.randint(0, max(0, len(b) - 1))]) if len(b) > 0 and fx is None else None
            chunks = None
            if fr == "chunked":
                snt = b if cut is None else b[:cut]
                pos = sorted(rng.sample(range(1, len(snt)), min(len(snt) - 1, rng.randint(0, 3)))) if len(snt) > 1 else []
                chunks = [snt[a:z] for a, z in zip([0] + pos, pos + [len(snt)]) if snt[a:z]]
            after = rng.choice([[], [{"rst": 1}]]) if cut is not None and fr != "close" and o["id"] != "rawr" else []
            B.add(api, d, o, answer=resp(st, b, rng.choice(HEADS), framing=fr, cut=cut, chunks=chunks, after=[]))
    obs = c.run_driver(binary, [{"api": "rv", "cases": cases, "script": []}] + B.scenarios(), lanes=12)
    res = obs[0]["out"].get("out")
    if res is None:
        from lib.core import Violation
        raise Violation("ResponseValue panicked", str(obs[0].get("panic")))
    rs = []
    for case, o in zip(cases, res):
        ini = case["init"]
        rs.append({"inner": by(ini["inner"]), "status": ini["status"], "headers": [[h["n"], h["v"]] for h in ini["headers"]],
                   "events": [{"op": op, **{"n": 0, "s": [], "h": [], **ob}} for op, ob in zip(case["ops"], o)]})
    c.validate("TraceRespValue", "INIT TInit\nNEXT TNext\n", rs, what="ResponseValue", describe=lambda i: cases[i])
    net = B.sessions(obs[1:])
    c.sample({"ops": cases[33]["ops"], "observed": res[33]})
    c.sample({"answer": bytes(B.items[9][1]["ans"]["body"]).decode("latin1"), "outcome": net[9]["events"][-1]["k"]})
    c.notes["response_value_histories"] = len(cases)
    c.notes["generated_client_calls"] = len(net)
    c.validate("TraceCall", CFG("C06"), net, describe=lambda i: B.items[B.index[i]][0], tag="TraceCall")
