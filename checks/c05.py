"""C05: outcome and dispatch."""
from lib.sess import Builder, resp, fail
from lib.docs import build_apis, by
from lib.call import CFG, mc_call

CUT = "cut"


def status(st, codes={}):
    return {"default": "default", "range": "%dXX" % st["n"], "code": str(codes.get(st["n"], st["n"]))}[st["k"]]


def some_codes(rng):
    """Which statuses the model's 200, 201, 302, 404 and 500 stand for."""
    a, b = rng.sample([200, 201, 202, 204, 250, 298, 299], 2)
    return {200: a, 201: b, 302: rng.choice([300, 302, 307, 399]), 404: rng.choice([400, 401, 404, 418, 450, 498, 499]),
            500: rng.choice([500, 501, 503, 550, 598, 599])}


def fails():
    t = lambda s: [{"text": s}]
    return [("close", []), ("reset", [{"rst": 1}]), ("garbage", t("NOT HTTP AT ALL\r\n\r\n")),
            ("half head", t("HTTP/1.1 200 OK\r\ncontent-le")), ("bad status", t("HTTP/1.1 2x0 OK\r\n\r\n")),
            ("bad lengths", t("HTTP/1.1 200 OK\r\ncontent-length: 1\r\ncontent-length: 2\r\n\r\nab")),
            ("bad header", t("HTTP/1.1 200 OK\r\nx y\0z: 1\r\n\r\n")), ("half head reset", t("HTTP/1.1 404 N") + [{"rst": 1}])]


def run(c):
    c.start_driver_deps()
    c.build_gen()
    r = mc_call(c, "all" if c.thorough else "some")
    sets = [x["r"] for x in c.serialized(r, "scen.json")]
    c.rng.shuffle(sets)
    # a response may not be declared twice; keep one of each shape class first
    def sig(rs):
        return (tuple(sorted(status(e["st"]) for e in rs)))
    seen, pick = set(), []
    for rs in sets:
        if sig(rs) not in seen and len(rs) > 0:
            seen.add(sig(rs))
            pick.append(rs)
    pick = pick[:260 if c.thorough else 56]
    rest = [rs for rs in sets if rs not in pick]
    pick += [[]] + rest[:120 if c.thorough else 40]
    docs, near = {"pos": [], "bld": []}, {}
    for k, rs in enumerate(pick):
        rs = list(rs)
        codes = some_codes(c.rng) if k % 3 else {}
        near["op%d" % k] = [codes[n] + d for n in (200, 404, 500) for d in (-1, 0, 1)] if codes else []
        c.rng.shuffle(rs)           # order in the document must not matter
        docs["pos" if k % 2 else "bld"].append({
            "id": "op%d" % k, "method": c.rng.choice(["get", "put", "post", "delete"]), "path": "/op%d" % k, "params": [],
            "responses": [{"status": status(e["st"], codes), "kind": e["kind"], "ty": "str"} for e in rs]})
    hd = [{"id": "hd", "method": "head", "path": "/hd", "params": [], "responses": [
        {"status": "200", "kind": "none"}, {"status": "4XX", "kind": "json", "ty": "str"}]}]
    docs["pos"] += hd
    D = {k: {"ops": v, "components": {}} for k, v in docs.items()}
    binary = build_apis(c, {"pos": (D["pos"], "positional"), "bld": (D["bld"], "builder")})
    B = Builder()
    J = [("content-type", "application/json")]
    stati = [200, 201, 204, 206, 299, 300, 302, 304, 400, 404, 418, 499, 500, 503, 599]
    if c.thorough:
        stati += [101, 202, 226, 301, 308, 399, 401, 410, 429, 502, 600, 999]
    for api, d in D.items():
        for o in d["ops"]:
            if o["id"] == "hd":
                continue
            base = stati if c.thorough or not near[o["id"]] else c.rng.sample(stati, 8)
            for st in sorted(set(base + [n for n in near[o["id"]] if n >= 200])):
                B.add(api, d, o, answer=resp(st, b'"a"', J))
            for st in c.rng.sample(stati, len(stati) if c.thorough else 4):
                B.add(api, d, o, answer=resp(st, b'1', J))
                B.add(api, d, o, answer=resp(st, b'"', J, framing="chunked"))
                B.add(api, d, o, answer=resp(st, b'"abcdefgh"', J, cut=3))
                B.add(api, d, o, answer=resp(st, b'"abcdefgh"', J, framing="chunked", cut=3, after=[{"rst": 1}]))
            for name, acts in (fails() if c.thorough else c.rng.sample(fails(), 3)):
                B.add(api, d, o, answer=fail(acts))
            if c.rng.random() < .3:
                B.add(api, d, o, answer=fail([]), url="http://127.0.0.1:1")
    for st in (200, 404, 500):
        a = resp(st, b'"a"', J)
        a.ans.update(body=[], jsonok=False, complete=True)
        a.acts = a.acts[:1]
        B.add("pos", D["pos"], hd[0], answer=a)
    # a redirect is an answer like any other
    for api, d in D.items():
        for o in d["ops"][:10]:
            B.add(api, d, o, answer=resp(302, b'', [("location", "/elsewhere")]))
    obs = c.run_driver(binary, B.scenarios(), lanes=12)
    net = B.sessions(obs)
    c.sample({"responses": B.items[3][1]["op"]["responses"], "status": 206, "outcome": {k: v for k, v in net[3]["events"][-1].items() if k in ("k", "status")}})
    c.notes["response_sets"] = len(pick)
    c.notes["generated_client_calls"] = len(net)
    c.validate("TraceCall", CFG("C05"), net, describe=lambda i: B.items[B.index[i]][0])
