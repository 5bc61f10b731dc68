"""C03: verb and body."""
import json
from lib.sess import Builder, resp
from lib.docs import build_apis, by
from lib.call import CFG, mc_call
from checks.c01 import HOT, rand_text
from checks.c02 import DYN, SCAL, rand_val

OK = [{"status": "200", "kind": "none"}]
JOK = [{"status": "200", "kind": "json", "ty": "raw:{}"}]
COMPS = {
    "Thing": {"schema": {"type": "object", "required": ["name", "items"], "properties": {
        "name": {"type": "string"}, "items": {"type": "array", "items": {"type": "integer", "format": "int64"}},
        "note": {"type": "string"}, "ratio": {"type": "number", "format": "double"}, "on": {"type": "boolean"},
        "inner": {"$ref": "#/components/schemas/Inner"}}}, "pass": "ref"},
    "Inner": {"schema": {"type": "object", "required": ["k"], "properties": {
        "k": {"type": "string"}, "more": {"type": "object", "additionalProperties": {"type": "string"}}}}, "pass": "ref"},
    "Form": {"schema": {"type": "object", "required": ["user"], "properties": {
        "user": {"type": "string"}, "age": {"type": "integer", "format": "int64"}, "ok": {"type": "boolean"},
        "last name": {"type": "string"}, "a&b": {"type": "string"}}}, "pass": "ref"},
    "BadForm": {"schema": {"type": "object", "required": ["list"], "properties": {
        "list": {"type": "array", "items": {"type": "string"}}, "user": {"type": "string"}}}, "pass": "ref"},
    "Color": {"schema": {"type": "string", "enum": ["red", "dark green", "a&b"]}, "pass": "val"},
}
METHODS = ["get", "put", "post", "delete", "options", "head", "patch", "trace"]


def doc():
    ops = [{"id": "v_" + m, "method": m, "path": "/v", "params": [], "responses": OK} for m in METHODS]
    n = 0
    for m in ("post", "put", "patch", "delete"):
        for (nm, ct, ty) in (("thing", "application/json", "ref:Thing"), ("str", "application/json", "str"),
                             ("list", "application/json; charset=utf-8", "arr:str"), ("int", "application/json", "i64"),
                             ("map", "application/json", "map:i64"), ("any", "application/json", "raw:{}"),
                             ("color", "application/json", "ref:Color"),
                             ("form", "application/x-www-form-urlencoded", "ref:Form"),
                             ("badform", "application/x-www-form-urlencoded", "ref:BadForm"),
                             ("oct", "application/octet-stream", "bytes"), ("txt", "text/plain", "str"),
                             ("md", "text/x-markdown", "str")):
            n += 1
            if m in ("patch", "delete") and nm not in ("thing", "form", "oct", "txt"):
                continue
            ops.append({"id": "b_%s_%s" % (m, nm), "method": m, "path": "/b/" + nm, "params": [],
                        "body": {"ct": ct, "ty": ty}, "responses": OK if n % 2 else JOK, "nm": nm})
    # bodies together with every other kind of parameter
    ops.append({"id": "all", "method": "put", "path": "/all/{p}", "params": [
        {"name": "p", "in": "path", "ty": "str", "required": True},
        {"name": "q", "in": "query", "ty": "str", "required": False},
        {"name": "x-h", "in": "header", "ty": "str", "required": False}],
        "body": {"ct": "application/json", "ty": "ref:Inner"}, "responses": JOK, "nm": "inner"})
    return {"components": COMPS, "ops": ops}


def value(rng, nm):
    txt = lambda: rng.choice(HOT) if rng.random() < .6 else rand_text(rng, 20)
    some = lambda d: {k: v for k, v in d.items() if v is not None}
    inner = lambda: some({"k": txt(), "more": rng.choice([None, {txt(): txt(), "z": ""}])})
    f = {"thing": lambda: some({"name": txt(), "items": [rng.choice([0, -1, 2**63 - 1]) for _ in range(rng.choice([0, 1, 3]))],
                                "note": rng.choice([None, txt()]), "ratio": rng.choice([None, 0.5, -1e300, 3.0]),
                                "on": rng.choice([None, True, False]), "inner": rng.choice([None, inner()])}),
         "inner": inner, "str": txt, "list": lambda: [txt() for _ in range(rng.choice([0, 1, 4]))],
         "int": lambda: rng.choice([0, -2**63, 2**63 - 1]), "map": lambda: {txt(): rng.choice([0, 7]) for _ in range(rng.choice([0, 1, 3]))},
         "any": lambda: rng.choice([None, True, [], {}, "x", 1.5, [1, {"a": [None, txt()]}], {"k": {"k": {"k": []}}}]),
         "color": lambda: rng.choice(COMPS["Color"]["schema"]["enum"]),
         "form": lambda: some({"user": txt(), "age": rng.choice([None, -3]), "ok": rng.choice([None, True, False]),
                               "last name": rng.choice([None, txt()]), "a&b": rng.choice([None, txt()])}),
         "badform": lambda: {"list": rng.choice([[], ["a"]])},
         "oct": lambda: rng.choice([b"", bytes(range(256)), b"\r\n\r\n", b"\0" * 9, bytes(rng.randrange(256) for _ in range(300)),
                                    b"0123456789" * 7000]),
         "txt": txt, "md": txt}[nm]()
    return list(f) if isinstance(f, bytes) else f


FORM = """
fn forms(sc: &Value) -> Value {
    use progenitor_client::RequestBuilderExt;
    let cl = reqwest::Client::new();
    let out: Vec<Value> = sc["cases"].as_array().unwrap().iter().map(|v| {
        let d = Dyn(v);
        let rb: Result<_, progenitor_client::Error<()>> = cl.post("http://127.0.0.1/x").form_urlencoded(&d);
        match rb {
            Ok(rb) => match rb.build() {
                Ok(r) => json!({"ok": true, "ct": r.headers().get("content-type").map(|v| v.as_bytes().to_vec()).unwrap_or_default(),
                    "query": r.body().and_then(|b| b.as_bytes()).unwrap_or(b"")}),
                Err(_) => json!({"ok": false, "invalid": false, "ct": [], "query": []}),
            },
            Err(e) => json!({"ok": false, "invalid": matches!(e, progenitor_client::Error::InvalidRequest(_)), "ct": [], "query": []}),
        }
    }).collect();
    json!({"k": "forms", "out": out})
}
"""


def run(c):
    c.start_driver_deps()
    c.build_gen()
    r = c.design("MC_Query", "INIT Init\nNEXT Next\nCONSTANTS Depth = %d\nTransparent = TRUE\nINVARIANT FormRight\n"
                 "INVARIANT RoundTrip\n" % (2 if c.thorough else 1), deadlock=False)
    vals = c.serialized(r, "scen.json")
    mc_call(c, "hooks")
    d = doc()
    binary = build_apis(c, {"pos": (d, "positional"), "bld": (d, "builder")}, extra=DYN + FORM,
                        extra_arms='            "forms" => forms(&sc),\n')
    B = Builder()
    ops = {o["id"]: o for o in d["ops"]}
    rounds = 40 if c.thorough else 6
    for o in d["ops"]:
        for api in ("pos", "bld"):
            if not o.get("body"):
                B.add(api, d, o, base="/base", answer=resp(200, b""))
                continue
            for _ in range(rounds):
                v = value(c.rng, o["nm"])
                if api == "bld" and v is None:
                    continue
                args = {}
                if o["id"] == "all":
                    args = {"p": "x/y", **({"q": "1"} if c.rng.random() < .5 else {}), **({"x-h": "v"} if c.rng.random() < .5 else {})}
                bad = o["nm"] == "badform"
                B.add(api, d, o, args, body=v, body_bad=bad, strict=bad,
                      answer=resp(200, b"{}" if o["responses"] is JOK else b"ignored"))
    forms = [v for v in vals if v["k"] in ("map", "struct")] + [v for v in vals if v["k"] not in ("map", "struct")][::5]
    for _ in range(6000 if c.thorough else 700):
        v = rand_val(c.rng, 2)
        if c.rng.random() < .7:
            v["k"] = c.rng.choice(["map", "struct"])
        if v["k"] in ("some", "newtype", "nvariant") and not v["c"]:
            continue
        forms.append(v)
    obs = c.run_driver(binary, [{"api": "forms", "cases": forms, "script": []}] + B.scenarios())
    res = obs[0]["out"].get("out")
    if res is None:
        from lib.core import Violation
        raise Violation("form encoding panicked", str(obs[0].get("panic")))
    strip = lambda v: {"k": v["k"], "s": v["s"], "c": [{"n": x["n"], "v": strip(x["v"])} for x in v["c"]]}
    fs = [{"form": True, "params": [{"n": [], "v": strip(v)}], "res": dict({"invalid": False}, **r)} for v, r in zip(forms, res)]
    c.validate("TraceQuery", "INIT TInit\nNEXT TNext\n", fs, what="form bodies",
               describe=lambda i: {"value": forms[i], "body": bytes(res[i]["query"]).decode("latin1")})
    net = B.sessions(obs[1:])
    k = next(j for j, it in enumerate(B.items) if it[0]["op"] == "b_post_form")
    c.sample({"call": B.items[k][0], "requests": [{"m": e["method"], "body": bytes(e["body"]).decode("latin1")} for e in net[k]["events"] if e["e"] == "req"]})
    c.notes["form_values"] = len(forms)
    c.notes["generated_client_calls"] = len(net)
    c.validate("TraceCall", CFG("C03"), net, describe=lambda i: B.items[B.index[i]][0], tag="TraceCall")
