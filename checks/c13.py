"""C13: which documents are accepted.

TLC enumerates documents (paths that are references, operations with and
without ids, equal ids in every pair of places, versions) and checks that one
pass over the document decides the declarative property.  The documents,
concretised with every HTTP method and with longer random documents, are given
to the real generator through every entry point (validation, the client styles,
CLI and mock generation); every verdict is validated by TraceDoc.
"""
import json
from lib.docs import by

METHODS = ["get", "put", "post", "delete", "options", "head", "patch", "trace"]
STYLES = ["validate", "positional", "builder", "separate", "cli", "cli_merged", "httpmock", "httpmock_merged"]
GOODV = ["3.0.0", "3.0.1", "3.0.2", "3.0.3", "3.0.4", "3.0.10"]
BADV = ["3.1.0", "2.0", "3.1.3", "4.0.0", "3", "3.0", "30.0.0", "13.0.3", "3.00.1", "", "v3.0.3", "2.3.0.1", "3.1.0-3.0.3", "03.0.3", "3,0,3"]


def concretise(rng, d, ids):
    """(OpenAPI document, specification document)"""
    v = bytes(d["version"]).decode()
    v = {"3.0.3": lambda: rng.choice(GOODV), "3.1.0": lambda: rng.choice(BADV), "2.0": lambda: rng.choice(BADV)}.get(v, lambda: v)()
    paths, spec = {}, []
    for n, p in enumerate(d["paths"]):
        path = rng.choice(["/p%d", "/p%d/x", "/q/p%d", "/z%d"]) % n
        if p["ref"]:
            paths[path] = {"$ref": rng.choice(["#/components/pathItems/x", "other.json#/paths/~1a", "./x.yaml"])}
            spec.append({"ref": True, "ops": []})
            continue
        ms = rng.sample(METHODS, len(p["ops"]))
        item, so = {}, []
        if rng.random() < .2:
            item["parameters"] = [{"name": "q", "in": "query", "style": "form", "schema": {"type": "string"}}]
        for m, o in zip(ms, p["ops"]):
            op = {"responses": {"200": {"description": ""}}}
            if rng.random() < .3:
                op["tags"] = [rng.choice(["t", "u"])]
            if o["has"]:
                op["operationId"] = ids[bytes(o["id"]).decode()]
            item[m] = op
            so.append((METHODS.index(m), {"has": o["has"], "id": by(op.get("operationId", ""))}))
        paths[path] = item
        spec.append({"ref": False, "ops": [x for _, x in sorted(so, key=lambda t: t[0])]})
    return {"openapi": v, "info": {"title": "t", "version": "1"}, "paths": paths}, {"version": by(v), "paths": spec}


IDS = [{"a": "a", "b": "b"}, {"a": "fetch_thing", "b": "put_thing"}, {"a": "x.y", "b": "x-z"}, {"a": "listAll", "b": "listall2"}, {"a": "\u00e9t\u00e9", "b": "\u00e9"}, {"a": "get", "b": "post"},
       # distinct IDs that are easily mistaken for one another
       {"a": "listDisks", "b": "listdisks"}, {"a": "LIST", "b": "list"}, {"a": "a.b", "b": "a_b"}, {"a": "getX", "b": "get-x"}, {"a": "ab", "b": "abc"},
       {"a": "op", "b": "op "}, {"a": "x1", "b": "x_1"}, {"a": "\u00c9t\u00e9", "b": "\u00e9t\u00e9"}, {"a": "", "b": "_"}]


def run(c):
    c.build_gen()
    r = c.design("MC_Doc", "INIT MInit\nNEXT DNext\nCONSTANT MaxOps = %d\nINVARIANT ScanIsProperty\n" % (3 if c.thorough else 2), deadlock=False)
    docs = c.serialized(r, "scen.json")
    rng = c.rng
    letters = [chr(97 + k) for k in range(26)]
    n = lambda x, k: [{"ref": False, "ops": x}] * k
    rnd = []
    for _ in range(3000 if c.thorough else 500):
        ids = rng.sample(["op%d" % k for k in range(40)], rng.randint(2, 24))
        ops = [{"has": True, "id": by(x)} for x in ids]
        paths = []
        while ops:
            k = rng.randint(1, min(8, len(ops)))
            paths.append({"ref": False, "ops": ops[:k]})
            ops = ops[k:]
        fault = rng.choice(["none", "none", "dup", "dup", "missing", "ref", "version"])
        where = rng.choice(paths)
        if fault == "dup" and sum(len(p["ops"]) for p in paths) > 1:
            j = rng.randrange(len(where["ops"]))
            where["ops"][j] = {"has": True, "id": rng.choice([o["id"] for p in paths for k, o in enumerate(p["ops"]) if p is not where or k != j])}
        elif fault == "missing":
            where["ops"][rng.randrange(len(where["ops"]))] = {"has": False, "id": []}
        elif fault == "ref":
            paths.insert(rng.randint(0, len(paths)), {"ref": True, "ops": []})
        rnd.append({"version": by("3.0.3") if fault != "version" else by("2.0"), "paths": paths})
    jobs, sess = [], []

    class Same(dict):
        def __missing__(self, k):
            return k
    for k, d in enumerate(docs + rnd):
        doc, spec = concretise(rng, d, rng.choice(IDS) if k < len(docs) else Same())
        styles = STYLES if k % 5 == 0 or c.thorough else ["validate"] + rng.sample(STYLES[1:], 3)
        jobs.append({"doc": doc, "runs": [{"style": s, "settings": {}} for s in styles]})
        sess.append({"doc": spec, "events": []})
    out = c.generate(jobs)
    for line in out:
        sess[line["job"]]["events"].append({"r": line["r"]})
    c.notes["documents"] = len(jobs)
    c.notes["generator_runs"] = len(out)
    c.notes["refused"] = sum(1 for l in out if l["r"] == "err")
    c.sample({"doc": json.dumps(jobs[7]["doc"])[:400], "verdicts": [e["r"] for e in sess[7]["events"]]})
    c.validate("TraceDoc", "INIT TInit\nNEXT TNext\n", sess, what="document acceptance", describe=lambda i: jobs[i])
