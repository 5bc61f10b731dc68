"""C04: api-version and header parameters."""
from lib.sess import Builder
from lib.docs import build_apis, by
from lib.call import CFG, mc_call
from checks.c01 import HOT, rand_text

JOK = [{"status": "200", "kind": "json", "ty": "raw:{}"}]
NOK = [{"status": "200", "kind": "none"}]
COMPS = {"Color": {"schema": {"type": "string", "enum": ["red", "dark green", "a,b", " lead"]}, "pass": "val"},
         "Inner": {"schema": {"type": "object", "required": ["k"], "properties": {"k": {"type": "string"}}}, "pass": "ref"}}
H = lambda n, ty="str", req=False, **k: dict({"name": n, "in": "header", "ty": ty, "required": req}, **k)


def doc(version):
    ops = []

    def op(i, params, method="get", responses=JOK, **k):
        ops.append(dict({"id": i, "method": method, "path": "/" + i, "params": params, "responses": responses}, **k))
    op("none", [])
    op("plain", [], "post", NOK)
    op("one", [H("x-one", req=True)])
    op("opt", [H("x-opt")], "put")
    op("case", [H("X-Mixed-Case", rust="x_mixed_case"), H("ETag", rust="e_tag"), H("if-none-match")])
    op("many", [H("x-a", req=True), H("x-b", "i64"), H("x-c", "bool"), H("x-d", "uuid"), H("x-e", "ref:Color"),
                H("x-f", "u8", True), H("x-g", "str")], "delete")
    op("under", [H("x_under"), H("x-under2"), H("type", rust="type_"), H("!tok", rust="tok")])
    op("null", [H("x-n1", docreq=True, nullable=True), H("x-n2", "i64", nullable=True), H("x-n3", "uuid", docreq=True, nullable=True), H("x-n4", req=True),
                {"name": "nq", "in": "query", "ty": "str", "required": False, "docreq": True, "nullable": True}])
    op("mixed", [{"name": "p", "in": "path", "ty": "str", "required": True},
                 {"name": "q", "in": "query", "ty": "str", "required": False}, H("x-h", req=True), H("cookie"), H("user-agent")],
       "patch", path_="/mixed/{p}", body={"ct": "application/json", "ty": "ref:Inner"})
    op("form", [H("x-h")], "post", body={"ct": "application/x-www-form-urlencoded", "ty": "ref:Inner"})
    op("raw", [H("x-h")], "post", [{"status": "200", "kind": "raw"}], body={"ct": "application/octet-stream", "ty": "bytes"})
    for o in ops:
        if "path_" in o:
            o["path"] = o.pop("path_")
    return {"components": COMPS, "ops": ops, "version": version}


VERSIONS = ["1.2.3", "", "2024-01-31.1", "v1 beta; x=\"y\"", "1.0 \u2013 beta"]


def run(c):
    c.start_driver_deps()
    c.build_gen()
    mc_call(c, "hooks")
    c.design("MC_Headers", "INIT Init\nNEXT Next\nINVARIANT Sound\nINVARIANT OneVersion\n", deadlock=False)
    apis = {}
    for k, v in enumerate(VERSIONS):
        for style in ("positional", "builder"):
            apis["%s%d" % (style[:1], k)] = (doc(v), style)
    binary = build_apis(c, apis)
    B = Builder()

    def value(ty):
        if ty == "str":
            return c.rng.choice(HOT + ["v", "a, b", "W/\"x\""] * 12) if c.rng.random() < .7 else rand_text(c.rng, 14)
        return {"i64": -2**63, "bool": True, "uuid": "67e55044-10b1-426f-9247-bb680e5fe0c8", "u8": 255,
                "ref:Color": c.rng.choice(COMPS["Color"]["schema"]["enum"])}[ty]
    for api, (d, style) in apis.items():
        ver = VERSIONS.index(d["version"])
        for o in d["ops"]:
            rounds = (40 if c.thorough else 8) if ver == 0 else 2
            for _ in range(rounds if o["params"] else 1):
                args = {p["name"]: value(p["ty"]) for p in o["params"]
                        if p["required"] or c.rng.random() < .6}
                body = {"application/json": {"k": "v"}, "application/x-www-form-urlencoded": {"k": "v"},
                        "application/octet-stream": [1, 2]}.get((o.get("body") or {"ct": ""})["ct"])
                B.add(api, d, o, args, body=body)
        if ver == 0:
            one = next(o for o in d["ops"] if o["id"] == "one")
            for k in range(0, 256 if c.thorough else 160):
                B.add(api, d, one, {"x-one": "a" + chr(k) + "b"})
            for h in HOT:
                B.add(api, d, one, {"x-one": h})
    obs = c.run_driver(binary, B.scenarios())
    net = B.sessions(obs)
    c.sample({"call": B.items[40][0], "headers": [[bytes(h[0]).decode(), bytes(h[1]).decode("latin1")] for e in net[40]["events"] if e["e"] == "req" for h in e["headers"]]})
    c.notes["generated_client_calls"] = len(net)
    c.validate("TraceCall", CFG("C04", ["D18"]), net, describe=lambda i: B.items[B.index[i]][0])
