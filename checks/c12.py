"""C12: websocket upgrades.

Operations marked x-dropshot-websocket in several response shapes are called
through both interface styles against every kind of answer; the upgrade
request, the outcome and the bytes passed through the connection in both
directions are validated against Call (UpgradeRequestOK, Classify, TunnelOK),
and the keys of all calls against TraceKeys.
"""
from lib.sess import Builder, resp, fail
from lib.docs import build_apis, by
from lib.call import CFG, mc_call


def doc():
    P = lambda n, i, r=True: {"name": n, "in": i, "ty": "str", "required": r}
    J = lambda st: {"status": st, "kind": "json", "ty": "str"}
    R = lambda st: {"status": st, "kind": "raw"}
    W = lambda id, rs, **kw: dict({"id": id, "method": "get", "path": "/" + id, "params": [], "websocket": True, "responses": rs}, **kw)
    return {"components": {}, "ops": [
        W("dflt", [R("default")]),
        W("dflt_none", [{"status": "default", "kind": "none"}]),
        W("parms", [R("default")], path="/parms/{p}", params=[P("p", "path"), P("q", "query", False), P("x-h", "header", False), P("x-g", "header")]),
        W("two", [{"status": "200", "kind": "none"}, J("4XX"), J("5XX")]),
        W("two_b", [{"status": "2XX", "kind": "none"}, J("404")]),
        W("switch", [{"status": "101", "kind": "none"}, {"status": "200", "kind": "none"}, J("4XX")]),
    ]}


def run(c):
    c.start_driver_deps()
    c.build_gen()
    mc_call(c, "hooks")
    d = doc()
    binary = build_apis(c, {"pos": (d, "positional"), "bld": (d, "builder")})
    B = Builder()
    rng = c.rng
    UP = [("connection", "Upgrade"), ("upgrade", "websocket"), ("sec-websocket-accept", "s3pPLMBiTxaQ9kYGzzhZRbK+xOo=")]
    datas = [[], [b"x"], [b"\0\r\n\xff" * 3], [b"hello", b"", b"world"], [bytes(range(256))] * 4,
             [b"HTTP/1.1 200 OK\r\n\r\n"], [bytes(rng.randrange(256) for _ in range(40000 if not c.thorough else 400000))]]

    def args(o):
        a = {p["name"]: rng.choice(["v", "a b", "x-y"]) for p in o["params"]}
        if a and rng.random() < .4:
            a.pop("q")
        if a and rng.random() < .4:
            a.pop("x-h")
        return a

    def switch(api, o, push, chunks, hs=UP, times=1, split=False):
        """The server switches, pushes, then echoes."""
        a = resp(101, b"", hs, framing="none")
        head = a.acts[0]["bytes"]
        if split:
            a.acts = [{"bytes": head[:20]}, {"sleep": 3}, {"bytes": head[20:] + list(push[:1])}, {"bytes": list(push[1:])}]
        else:
            a.acts = [{"bytes": head + list(push)}]
        a.acts.append({"echo": 1})
        B.add(api, d, o, args(o), answer=a, extra={"ws": [list(x) for x in chunks]}, push=push, times=times)
    for api in ("pos", "bld"):
        for o in d["ops"]:
            for n in range(40 if c.thorough else 7):
                switch(api, o, rng.choice([b"", b"hi", b"\x81\x05Hello", bytes(range(256))]), datas[n % len(datas)],
                       times=rng.choice([1, 1, 2, 3]), split=n % 2)
            switch(api, o, b"p", [b"x"], [("upgrade", "websocket")])
            switch(api, o, b"p", [b"x"], [("Connection", "upgrade"), ("Upgrade", "WebSocket"), ("x-request-id", "7"), ("x-dup", "1"), ("x-dup", "2")])
            for st in (200, 201, 204, 299, 300, 302, 400, 404, 426, 499, 500, 503, 599):
                for b in ([b'"e"', b"", b"oops"] if c.thorough else [rng.choice([b'"e"', b'"e"', b"", b"oops"])]):
                    B.add(api, d, o, args(o), answer=resp(st, b, [("content-type", "application/json")] + (UP if rng.random() < .3 else [])))
            B.add(api, d, o, args(o), answer=fail([]))
            B.add(api, d, o, args(o), answer=fail([{"text": "HTTP/1.1 101 Swi"}]))
            B.add(api, d, o, args(o), answer=fail([{"rst": 1}]))
        bad = d["ops"][2]
        B.add(api, d, bad, {"p": "v", "x-g": "a\nb"}, answer=fail([]))
    obs = c.run_driver(binary, B.scenarios(), lanes=12)
    net = B.sessions(obs)
    keys = [v for s in net for e in s["events"] if e["e"] == "req" for n, v in e["headers"] if n == by("sec-websocket-key")]
    c.notes["keys"] = len(keys)
    c.notes["upgraded"] = sum(1 for s in net if s["events"][-1].get("value", {}).get("k") == "upgraded")
    c.sample({"op": "parms", "request": bytes(net[2]["events"][0].get("target", [])).decode("latin1"), "outcome": net[2]["events"][-1]["k"]})
    c.validate("TraceCall", CFG("C12"), net, describe=lambda i: B.items[B.index[i]][0])
    c.validate("TraceKeys", "INIT TInit\nNEXT TNext\nINVARIANTS Distinct Random\n", keys, what="websocket keys")
