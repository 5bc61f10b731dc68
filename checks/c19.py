"""C19: converting a schema keeps what an instance must satisfy.

TLC checks the conversion of Schema.tla (every schema of up to two or three
keywords, typed or not, nullable or not, against every value of the model
keeps its meaning under a reading OpenAPI allows), and that known wrong
conversions are noticed.  The same schemas and random deep ones (references,
combinations, annotations, large limits) then go through the real conversion;
TraceSchema evaluates the document's schema and the schema the type generator
received on the model's values and on values made for the schema.
"""
import json
from decimal import Decimal
from lib.core import Violation
from lib import schemas as S

# A nullable combination whose combination itself accepts null.
D36 = [{"nullable": True, "allOf": [{"type": "string", "nullable": True}]},
       {"nullable": True, "anyOf": [{"type": "integer"}, {"type": "string", "nullable": True}]},
       {"nullable": True, "oneOf": [{"type": "integer"}, {"enum": [None]}]},
       {"nullable": True, "not": {"type": "string"}}]


def doc(comps, body=None, param=None):
    op = {"operationId": "op", "responses": {"200": {"description": "ok"}}}
    if body:
        op["responses"]["200"]["content"] = {"application/json": {"schema": body[0]}}
        op["requestBody"] = {"required": True, "content": {"application/json": {"schema": body[1]}}}
    if param:
        op["parameters"] = [{"name": "p%d" % k, "in": "header" if k else "query", "required": True, "schema": s} for k, s in enumerate(param)]
    return {"openapi": "3.0.0", "info": {"title": "t", "version": "1"}, "paths": {"/x": {"post": op}}, "components": {"schemas": comps}}


def refs(s, out):
    if isinstance(s, dict):
        if isinstance(s.get("$ref"), str):
            out.add(s["$ref"])
        for k, v in s.items():
            if k not in ("default", "example", "enum") and not k.startswith("x-"):
                refs(v, out)
    elif isinstance(s, list):
        for v in s:
            refs(v, out)


def run(c):
    c.build_gen()
    rng = c.rng
    INV = 'INIT Init\nNEXT Next\nCONSTANTS Most = %d\nWrong = "%s"\nINVARIANTS %s\n'
    r = c.design("MC_Schema", INV % (3 if c.thorough else 2, "none", "Means Notes Strict"), deadlock=False, heap="12g")
    fam, common = c.serialized(r, "scen.json"), c.serialized(r, "vals.json")
    for w in ("excl", "arraytype", "null"):
        c.expect_broken("MC_Schema", INV % (2, w, "Means"), deadlock=False, tag="wrong-" + w)
    c.notes["schemas_of_the_model"] = len(fam)
    c.notes["values_of_the_model"] = len(common)

    # documents: (components, inline schemas, places that are judged)
    docs = []
    few = [f for f in fam if not f["types"] and f["nullable"]]
    rest = [f for f in fam if f["types"] or not f["nullable"]]
    n = 9000 if c.thorough else 1500
    pick = rng.sample(few, min(len(few), n // 3)) + rng.sample(rest, min(len(rest), n))
    for k in range(0, len(pick), 150):
        docs.append({"comps": {"S%d" % j: S.document(f, rng) for j, f in enumerate(pick[k:k + 150])}, "common": True, "vals": 0})
    for k in range(150 if c.thorough else 24):
        comps = {}
        names = ["C%d" % j for j in range(25)]
        for j, nme in enumerate(names):
            lower = names[:j]
            comps[nme] = S.schema(rng, rng.choice([1, 2, 2, 3]), names if rng.random() < .5 else lower, lower)
            if "$ref" in comps[nme] and comps[nme]["$ref"].split("/")[-1] not in lower:
                comps[nme] = {"type": "object", "properties": {"p": comps[nme]}}
        docs.append({"comps": comps, "common": False, "vals": 10,
                     "inline": [S.schema(rng, 2, names, names) for _ in range(4)]})
    docs.append({"comps": {"K%d" % k: s for k, s in enumerate(D36)}, "common": True, "vals": 0, "known": "D36"})
    jobs = [{"doc": doc(d["comps"], d.get("inline", [])[:2], d.get("inline", [])[2:]), "runs": [{"style": rng.choice(["positional", "builder"]), "settings": {}, "want": ["schemas"]}]}
            for d in docs]
    sess, where, kinds = [], [], {}
    for line in c.generate(jobs, "conv"):
        d = docs[line["job"]]
        got = {n: s for n, s in line.get("schemas", [])}
        raw = jobs[line["job"]]["doc"]
        want = dict(d["comps"])
        for nme, s in zip(("OpResponse", "OpBody", "OpP0", "OpP1"), d.get("inline", [])):
            want[nme] = s
        miss = [k for k in want if k not in got]
        if line["r"] == "panic" or miss:
            raise Violation("the generator does not hand over a schema of the document (%s)" % line["r"],
                            json.dumps({"msg": line.get("msg"), "missing": {k: want[k] for k in miss[:3]}}))
        # what the generator writes has to be read with exact numbers
        conv = {k: S.jschema(S.parse(json.dumps(got[k]))) for k in want}
        orig = {k: S.oas(S.parse(json.dumps(want[k]))) for k in want}
        for k, s in want.items():
            need, todo = set(), [s]
            while todo:
                f = set()
                refs(todo.pop(), f)
                for x in f - need:
                    need.add(x)
                    todo.append(d["comps"][x.split("/")[-1]])
            vals = [S.instance(rng, s, d["comps"]) for _ in range(d["vals"])]
            vals += [S.vary(rng, v) for v in vals] + ([None] if d["vals"] else [])
            sess.append({"o": orig[k], "j": conv[k], "oenv": [{"n": S.by(x), "s": orig[x.split("/")[-1]]} for x in sorted(need)],
                         "jenv": [{"n": S.by(x), "s": conv[x.split("/")[-1]]} for x in sorted(need)],
                         "vals": [S.val(v) for v in vals], "common": d["common"], "strict": bool(d.get("known")), "known": d.get("known", "")})
            where.append({"schema": s, "received": got[k], "values": vals})
            kinds[s.get("type", "none")] = kinds.get(s.get("type", "none"), 0) + 1
    c.notes["schemas_converted"] = len(sess)
    c.notes["by_type"] = kinds
    c.notes["pairs_of_schema_and_value"] = sum(len(s["vals"]) + (len(common) if s["common"] else 0) for s in sess)
    for k in (3, len(sess) // 2, len(sess) - 30):
        c.sample(where[k])
    c.assumptions += ["typify itself is not under test: what it makes of the schema it receives is not judged",
                      "integer bounds beyond 2^53 are not distinguished from their nearest double",
                      "the stand-in for openapiv3 decides the same schema kinds as the real crate"]
    c.validate("TraceSchema", "INIT TInit\nNEXT TNext\n", sess, files={"vals.json": common}, what="schema conversion", describe=lambda i: where[i], heap="12g")
