"""C01: path parameter confinement."""
from lib.sess import Builder, oprec, NOBODY, NOCFG, OKNULL
from lib.docs import build_apis, by, argval
from lib.call import CFG

BYTES = "{97, 47, 92, 37, 63, 35, 46, 50, 101, 9, 195, 32, 123, 58, 64}"
ESC = "{" + ", ".join(map(str, list(range(32)) + [127] + [ord(c) for c in ' "#<>?`{}/%\\'])) + "}"

P = lambda n, ty="str": {"name": n, "in": "path", "ty": ty, "required": True}
OK = [{"status": "200", "kind": "json", "ty": "raw:{}"}]


def op(i, path, params, method="get"):
    return {"id": i, "method": method, "path": path, "params": params, "responses": OK}


COLOR = {"schema": {"type": "string", "enum": ["red", "dark green", "a/b", "50%", "..x"]}, "pass": "val"}


def doc():
    return {"components": {"Color": COLOR}, "ops": [
        op("plain", "/a/{x}", [P("x")]),
        op("mid", "/a/{x}/z", [P("x")], "put"),
        op("two", "/{x}-{y}", [P("x"), P("y")], "delete"),
        op("verb", "/p{x}:v", [P("x")]),
        op("root", "/{x}", [P("x")], "post"),
        op("swap", "/w/{zz}/{aa}/{mm}/", [P("aa"), P("mm"), P("zz")]),
        op("adj", "/j/{x}{y}", [P("x"), P("y")]),
        op("dup", "/v1//dup///{x}//q", [P("x")]),
        op("wk", "/.well-known/{x}/..y/z..", [P("x")]),
        op("uni", "/k\u00e9/a b/{x}/~!$&'()*+,;=:@", [P("x")]),
        op("kebab", "/k/{some-id}/{type}", [P("some-id"), dict(P("type"), rust="type_")]),
        op("typed", "/t/{i}/{u}/{b}/{d}/{c}/{f}", [P("i", "i64"), P("u", "uuid"), P("b", "bool"),
                                                   P("d", "datetime"), P("c", "ref:Color"), P("f", "f64")]),
        op("noparam", "/just/a/path", []),
    ]}


HOT = ["", "/", "//", "\\", "%", "?", "#", ".", "..", "...", "./", "../", "..\\", "%2e", "%2E%2e", ".%2e", "%2f",
       "%5c", "%00", "a/b", "a\\b", "a?b=c", "a#f", "a%20b", "+", " ", "\t", "\n", "\r\n", "\0", "\x7f", "\u0080",
       "@", ":", "http://evil.example/", "//evil.example", "user:pw@evil", "a;b=c", "a&b=c", "a=b", "{x}", "{}", "\u00e9",
       "\u2024", "\u2215", "\u29f8", "\uff0e\uff0e", "\uff0f", "\U0001f600", "\ufeff", "\u202e", "\ud7ff", "\uffff",
       "'", '"', "<", ">", "`", "|", "^", "[", "]", "~", "!", "$", "*", "(", ")", ",", "%%", "%zz", "%2", "a" * 300,
       "..;", ";..", "..%2f", "%252f", "con", "\x0b", "\x1f", "=", "x.", ".x", " .. ", "%u002e", "\u2028"]


def long_texts(rng, sizes=(60, 130, 260, 520, 1030, 2060, 4100)):
    """Long values, with every length of character across round positions."""
    out = []
    for n in sizes:
        pad = "".join(rng.choice("ab/%. \u00e9") for _ in range(rng.randint(0, 3)))
        out.append(pad + rng.choice(["\u00e9", "\u4e2d", "\U0001f600", "/\u00e9", "%2f"]) * (n // rng.randint(2, 3)))
        out.append(rand_text(rng, 8) + "x" * (n - 8) + rand_text(rng, 16))
    return out


def rand_text(rng, n):
    pools = ["abcXYZ019", "./\\%?#&=+;:@ ", "".join(map(chr, range(0, 33))) + "\x7f", "\u00e9\u00df\u4e2d\U0001f600\u2024\uff0f",
             '"<>`{}|^[]~!$\'()*,', "%2e%2f%5C%00"]
    s = "".join(rng.choice(rng.choice(pools)) for _ in range(rng.randint(0, n)))
    return s


LAYER_A = """
fn target(url: &str) -> serde_json::Value {
    let port = url.split(':').nth(2).unwrap().split('/').next().unwrap().to_string();
    match reqwest::Client::new().get(url).build() {
        Ok(r) => {
            let u = r.url();
            let host = u.host_str() == Some("127.0.0.1") && u.port().map(|p| p.to_string()) == Some(port)
                && u.username() == "" && u.password().is_none() && u.scheme() == "http";
            let mut t = u.path().to_string();
            if let Some(q) = u.query() { t.push('?'); t.push_str(q); }
            if let Some(f) = u.fragment() { t.push('#'); t.push_str(f); }
            if !host { t = "!host".into(); }
            json!({"k": "targets", "t": t.as_bytes()})
        }
        Err(e) => json!({"k": "targets", "t": b"!refused"}),
    }
}
fn enc(sc: &Value) -> Value {
    // encode_path exactly as generated code uses it, in many templates
    let vals: Vec<String> = rt::de(sc, "vals");
    let pre = sc["pre"].as_str().unwrap(); let post = sc["post"].as_str().unwrap();
    let base = sc["base"].as_str().unwrap();
    let out: Vec<Value> = vals.iter().map(|v| {
        let u = format!("http://127.0.0.1:7{}{}{}{}", base, pre, progenitor_client::encode_path(&v.to_string()), post);
        target(&u)["t"].clone()
    }).collect();
    json!({"k": "enc", "t": out})
}
"""


def run(c):
    c.start_driver_deps()
    c.build_gen()
    n = 4 if c.thorough else 3
    r = c.design("MC_Path", "INIT Init\nNEXT Next\nCONSTANTS MaxLen = %d\nBytes = %s\nEscaped = %s\n"
                 "INVARIANT Confined\nINVARIANT OnlyDots\n" % (n, BYTES, ESC), deadlock=False)
    vals = c.serialized(r, "scen.json")
    # the specification notices the mistakes it is about
    for drop in (92, 47, 37, 63, 35):
        esc = ESC.replace(" %d," % drop, "").replace(", %d}" % drop, "}")
        c.expect_broken("MC_Path", "INIT Init\nNEXT Next\nCONSTANTS MaxLen = 1\nBytes = %s\nEscaped = %s\n"
                        "INVARIANT Confined\n" % (BYTES, esc), deadlock=False, tag="MC_Path_no%d" % drop)
    d = doc()
    binary = build_apis(c, {"pos": (d, "positional"), "bld": (d, "builder")}, extra=LAYER_A,
                        extra_arms='            "enc" => enc(&sc),\n')
    ops = {o["id"]: o for o in d["ops"]}
    B = Builder()
    # --- the whole enumeration through encode_path and the real URL parser
    txt = lambda v: bytes([x for b in v for x in ([195, 169] if b == 195 else [b])]).decode("utf8")
    words = [txt(v) for v in vals] + HOT + [chr(k) for k in range(0x0, 0x300)]
    words += long_texts(c.rng)
    words += [rand_text(c.rng, 24) for _ in range(6000 if c.thorough else 800)]
    if c.thorough:
        words += [chr(k) for k in range(0x300, 0x110000, 37) if not 0xD800 <= k <= 0xDFFF]
    templates = [("/a/", ""), ("/a/", "/z"), ("/p", ":v"), ("/", "")]
    encs, tmpl = [], []
    for (pre, post) in (templates if c.thorough else templates[:3]):
        encs.append({"api": "enc", "base": "/b", "pre": pre, "post": post, "vals": words, "script": []})
        tmpl.append(pre + "{x}" + post)
    # --- the generated clients over the network
    picks = HOT + long_texts(c.rng) + c.rng.sample(words, 3000 if c.thorough else 250)
    bases = ["", "/base", "/base/v1", "/"]
    names = ["plain", "mid", "two", "verb", "root", "swap", "adj", "dup", "wk", "uni", "kebab"]
    k = 0
    for w in picks:
        for nm in (names if c.thorough else c.rng.sample(names, 2)):
            o = ops[nm]
            k += 1
            args = {p["name"]: w if j == 0 else c.rng.choice(HOT[:60] + ["v"] * 30) for j, p in
                    enumerate(c.rng.sample(o["params"], len(o["params"])))}
            B.add(["pos", "bld"][k % 2], d, o, args, base=bases[k % len(bases)])
    for api in ("pos", "bld"):
        B.add(api, d, ops["noparam"], {}, base="/base")
        for j in range(20):
            B.add(api, d, ops["typed"], {
                "i": c.rng.choice([0, -1, 2**63 - 1, -2**63, 42]), "u": "67e55044-10b1-426f-9247-bb680e5fe0%02x" % j,
                "b": j % 2 == 0, "d": "2024-02-29T23:59:5%d+00:00" % (j % 10),
                "c": c.rng.choice(COLOR["schema"]["enum"]), "f": c.rng.choice([0.5, -1.25, 3.0, 1e-3])})
    scen = encs + B.scenarios()
    obs = c.run_driver(binary, scen)
    sess = []
    for e, t, o in zip(encs, tmpl, obs):
        od = oprec(d, op("x", t, [P("x")]))
        for w, tg in zip(e["vals"], o["out"].get("t") or [None] * len(e["vals"])):
            evs = [{"e": "req", "method": "GET", "target": tg, "headers": [], "body": [], "complete": True,
                    "jsonok": False, "json": {"k": "null"}, "fresh": True}] if tg is not None else []
            sess.append({"base": by("/b"), "version": [], "op": od, "args": [argval("str", w)], "body": NOBODY,
                         "cfg": NOCFG, "ans": {"k": "fail"}, "mayfail": False,
                         "events": evs + [{"e": "out", "k": "x", "st": 0}]})
    na = len(sess)
    net = B.sessions(obs[len(encs):])
    # Display of typed values is the text the specification compares with
    for s in net:
        for a in s["args"]:
            if a["k"] == "text" and bytes(a["s"]).endswith(b"+00:00"):
                a["s"] = by(bytes(a["s"]).decode().replace("T", " ").replace("+00:00", " UTC"))
    sess += net
    c.sample({"template": tmpl[0], "value": words[777], "target": bytes(sess[777]["events"][0]["target"] or []).decode()})
    c.sample({"call": B.items[5][0], "requests": [bytes(e["target"]).decode("latin1") for e in net[5]["events"] if e["e"] == "req"]})
    c.notes["encode_path_values"] = na
    c.notes["generated_client_calls"] = len(net)
    c.validate("TraceCall", CFG("C01", ["D2"]), sess, describe=lambda i: (scen[i - na + len(encs)] if i >= na else None))
