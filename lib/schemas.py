"""Schemas and JSON values for Schema.tla: encoding, and random generation."""
import json
from decimal import Decimal

PATS = ["^a", "b$", "^[a-z]+$", "^[0-9]{2}$", "x", "^$"]
TYPES = ["string", "number", "integer", "boolean", "array", "object"]
CAP = 1000000                # no value of the model is longer


def by(s):
    return list(s.encode())


def parse(text):
    return json.loads(text, parse_float=Decimal, parse_int=Decimal)


def num(n):
    t = format(abs(Decimal(str(n)) if not isinstance(n, Decimal) else n), "f")
    i, _, f = t.partition(".")
    i, f = i.lstrip("0"), f.rstrip("0")
    neg = n < 0 and bool(i or f)
    return {"neg": neg, "i": [int(c) for c in i], "f": [int(c) for c in f]}


def val(v):
    if v is None:
        return {"k": "null"}
    if isinstance(v, bool):
        return {"k": "bool", "b": v}
    if isinstance(v, (int, float, Decimal)):
        return {"k": "num", "n": num(v)}
    if isinstance(v, str):
        return {"k": "str", "s": [ord(c) for c in v]}
    if isinstance(v, list):
        return {"k": "arr", "a": [val(x) for x in v]}
    return {"k": "obj", "o": [{"n": by(k), "v": val(v[k])} for k in sorted(v)]}


def canon(v):
    return by(json.dumps(v, sort_keys=True, default=lambda d: str(d.normalize())))


def ann(s, example):
    return {"title": [by(s["title"])] if "title" in s else [], "descr": [by(s["description"])] if "description" in s else [],
            "dflt": [canon(s["default"])] if "default" in s else [], "ex": [canon(x) for x in example],
            "flags": [k for k in ("deprecated", "readOnly", "writeOnly") if s.get(k)],
            "fmt": [by(s["format"])] if "format" in s else [], "ext": [[by(k), canon(s[k])] for k in sorted(s) if k.startswith("x-")]}


ONOTES = {"discriminator", "externalDocs", "xml"}
BASE = {"type", "enum", "minLength", "maxLength", "pattern", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf", "properties",
        "required", "additionalProperties", "minProperties", "maxProperties", "items", "minItems", "maxItems", "uniqueItems", "allOf", "anyOf", "oneOf",
        "not", "title", "description", "default", "deprecated", "readOnly", "writeOnly", "format"}


def lim(s, k):
    return min(int(s[k]), CAP) if k in s else -1


def common(s, sub):
    ad = s.get("additionalProperties")
    return {"k": "s", "hasEnum": "enum" in s, "enum": [val(x) for x in s.get("enum", [])],
            "mult": [num(s["multipleOf"])] if "multipleOf" in s else [], "minl": lim(s, "minLength"), "maxl": lim(s, "maxLength"),
            "pat": [s["pattern"]] if "pattern" in s else [], "props": [{"n": by(k), "s": sub(v)} for k, v in s.get("properties", {}).items()],
            "req": sorted(by(r) for r in set(s.get("required", []))), "addl": [] if ad is None else [{"k": "any", "b": ad} if isinstance(ad, bool) else sub(ad)],
            "minp": lim(s, "minProperties"), "maxp": lim(s, "maxProperties"), "items": [sub(s["items"])] if "items" in s else [],
            "mini": lim(s, "minItems"), "maxi": lim(s, "maxItems"), "uniq": bool(s.get("uniqueItems")),
            "allOf": [sub(x) for x in s.get("allOf", [])], "anyOf": [sub(x) for x in s.get("anyOf", [])],
            "oneOf": [sub(x) for x in s.get("oneOf", [])], "not": [sub(s["not"])] if "not" in s else []}


def oas(s):
    """An OpenAPI 3.0 schema."""
    if "$ref" in s:
        return {"k": "ref", "to": by(s["$ref"])}
    r = common(s, oas)
    b = lambda k, x: [{"v": num(s[k]), "x": bool(s.get(x))}] if k in s else []
    r.update(types=[s["type"]] if "type" in s else [], nullable=bool(s.get("nullable")), lo=b("minimum", "exclusiveMinimum"),
             hi=b("maximum", "exclusiveMaximum"), ann=ann(s, [s["example"]] if "example" in s else []), unk=[])
    return r


def jschema(s):
    """A JSON schema (draft 7, as schemars writes it)."""
    if isinstance(s, bool):
        return {"k": "any", "b": s}
    if "$ref" in s:
        return {"k": "ref", "to": by(s["$ref"])}
    unk = [k for k in s if k not in BASE and k not in ("examples", "const") and not k.startswith("x-")]
    s = dict(s)
    if "const" in s:
        if "enum" in s:
            unk.append("const")
        else:
            s["enum"] = [s.pop("const")]
    if isinstance(s.get("items"), list):
        unk.append("items")
        del s["items"]
    r = common(s, jschema)
    b = lambda k, x: ([{"v": num(s[k]), "x": False}] if k in s else []) + ([{"v": num(s[x]), "x": True}] if x in s else [])
    t = s.get("type", [])
    r.update(types=[t] if isinstance(t, str) else t, nullable=False, lo=b("minimum", "exclusiveMinimum"), hi=b("maximum", "exclusiveMaximum"),
             ann=ann(s, s.get("examples", [])), unk=unk)
    return r


# ---------------------------------------------------------- from the model
def unnum(n):
    d = Decimal(("-" if n["neg"] else "") + ("".join(map(str, n["i"])) or "0") + ("." + "".join(map(str, n["f"])) if n["f"] else ""))
    return int(d) if not n["f"] else float(d)


def unval(v):
    k = v["k"]
    if k == "null":
        return None
    if k == "bool":
        return v["b"]
    if k == "num":
        return unnum(v["n"])
    if k == "str":
        return "".join(chr(c) for c in v["s"])
    if k == "arr":
        return [unval(x) for x in v["a"]]
    return {bytes(e["n"]).decode(): unval(e["v"]) for e in v["o"]}


def document(r, rng):
    """The OpenAPI schema a record of the model stands for."""
    if r["k"] == "any":
        return r["b"]
    s = {}
    if r["types"]:
        s["type"] = r["types"][0]
    if r["nullable"]:
        s["nullable"] = True
    if r["hasEnum"]:
        s["enum"] = [unval(v) for v in r["enum"]]
    for k, w, x in (("lo", "minimum", "exclusiveMinimum"), ("hi", "maximum", "exclusiveMaximum")):
        for b in r[k]:
            s[w] = unnum(b["v"])
            if b["x"]:
                s[x] = True
            elif rng.random() < .2:
                s[x] = False
    if r["mult"]:
        s["multipleOf"] = unnum(r["mult"][0])
    for k, w in (("minl", "minLength"), ("maxl", "maxLength"), ("minp", "minProperties"), ("maxp", "maxProperties"), ("mini", "minItems"), ("maxi", "maxItems")):
        if r[k] >= 0:
            s[w] = r[k]
    if r["pat"]:
        s["pattern"] = r["pat"][0]
    if r["props"]:
        s["properties"] = {bytes(p["n"]).decode(): document(p["s"], rng) for p in r["props"]}
    if r["req"]:
        s["required"] = [bytes(x).decode() for x in r["req"]]
    if r["addl"]:
        s["additionalProperties"] = document(r["addl"][0], rng)
    if r["items"]:
        s["items"] = document(r["items"][0], rng)
    if r["uniq"]:
        s["uniqueItems"] = True
    for k in ("allOf", "anyOf", "oneOf"):
        if r[k]:
            s[k] = [document(x, rng) for x in r[k]]
    if r["not"]:
        s["not"] = document(r["not"][0], rng)
    a = r["ann"]
    if a["title"]:
        notes(s, rng, .8)
    if a["fmt"]:
        s["format"] = rng.choice(FORMATS[s.get("type", "string")])
    return s


FORMATS = {"string": ["date", "date-time", "password", "byte", "binary", "uuid", "ip", "made-up format"], "number": ["float", "double", "decimal"],
           "integer": ["int32", "int64", "uint8", "uint64", "int128"], "boolean": ["flag"], "array": ["list"], "object": ["thing"]}
ANY = [None, True, False, 0, 1, 2, 3, 4, 7, -1, -3, 1.5, 2.0, 0.25, 100, 12345678901234, "", "a", "ab", "xb", "42", "abc", "aé😀", "é", [], [1], [1, 1], [1, 1.0], ["a", None],
       [[]], {}, {"p": 1}, {"p": None}, {"q": "a"}, {"p": "a", "q": 2}, {"p": 1, "q": [], "r": {}}, {"nested": {"p": 2}}]


def notes(s, rng, p):
    r = rng.random
    if r() < p:
        s["title"] = rng.choice(["A title", "", "t\nu", "ünï"])
    if r() < p:
        s["description"] = rng.choice(["Something to say.", "", "two\nlines \"quoted\" \\ {braces}", " padded ", "*/ end"])
    if r() < p / 2:
        s["default"] = rng.choice([x for x in ANY if x is not None])
    if r() < p / 2:
        s["example"] = rng.choice([x for x in ANY if x is not None])
    for f in ("deprecated", "readOnly", "writeOnly"):
        if r() < p / 3:
            s[f] = r() < .8
    if r() < p / 2:
        s["x-" + rng.choice(["rust-type", "a", "Order", "enum-names"])] = rng.choice(ANY)
        if r() < .3:
            s["x-more"] = {"k": [1, {"z": None}]}
    if r() < p / 5:
        s["externalDocs"] = {"url": "https://example.com"}
    return s


def schema(rng, depth, names, lower, plain=False):
    """A random schema; names: all components, lower: those a combination may
    refer to."""
    r = rng.random
    sub = lambda: schema(rng, depth - 1, names, lower)
    csub = lambda: {"$ref": "#/components/schemas/" + rng.choice(lower)} if lower and r() < .3 else schema(rng, depth - 1, lower, lower)
    if names and r() < .12 and not plain:
        return {"$ref": "#/components/schemas/" + rng.choice(names)}
    s = {}
    if r() < .7:
        s["type"] = rng.choice(TYPES)
    if r() < .4:
        s["nullable"] = r() < .85
    t = s.get("type")
    style = r()
    fams = [t] if t and style < .75 else rng.sample(TYPES, rng.choice([0, 1, 1, 2, 3]))
    if depth > 0 and not t and r() < .4:
        fams = [] if r() < .6 else fams
        for k in rng.sample(["allOf", "anyOf", "oneOf", "not"], rng.choice([1, 1, 1, 2, 3])):
            s[k] = csub() if k == "not" else [csub() for _ in range(rng.choice([1, 2, 2, 3]))]
    elif depth > 0 and r() < .12:
        k = rng.choice(["allOf", "anyOf", "oneOf", "not"])
        s[k] = csub() if k == "not" else [csub() for _ in range(rng.choice([1, 2]))]
    lens = [0, 1, 2, 2, 3, 2**32, 2**32 + 1, 2**33 + 2]
    for f in fams:
        if f == "string":
            for k in ("minLength", "maxLength"):
                if r() < .45:
                    s[k] = rng.choice(lens)
            if r() < .4:
                s["pattern"] = rng.choice(PATS)
        elif f in ("number", "integer"):
            for k, x in (("minimum", "exclusiveMinimum"), ("maximum", "exclusiveMaximum")):
                if r() < .6:
                    s[k] = rng.choice([0, 1, 2, 3, -1, -3, 100, 4294967296, 9007199254740992] + ([.5, 1.5, 2.25] if t != "integer" or r() < .3 else []))
                    if r() < .5:
                        s[x] = r() < .7
            if r() < .35:
                s["multipleOf"] = rng.choice([1, 2, 3, 10] + ([.25, .5, 1.5] if t != "integer" or r() < .3 else []))
        elif f == "array":
            if depth > 0 and r() < .6:
                s["items"] = sub()
            for k in ("minItems", "maxItems"):
                if r() < .4:
                    s[k] = rng.choice(lens)
            if r() < .35:
                s["uniqueItems"] = r() < .8
        elif f == "object":
            if depth > 0 and r() < .8:
                s["properties"] = {n: sub() for n in rng.sample(["p", "q", "r", "nested", "type", "a b", "Ü"], rng.choice([1, 2, 2, 3]))}
            if r() < .5:
                s["required"] = rng.sample(["p", "q", "r", "nested", "type", "a b", "Ü"], rng.choice([1, 1, 2]))
            if r() < .45:
                s["additionalProperties"] = rng.choice([False, True, sub() if depth > 0 else False])
            for k in ("minProperties", "maxProperties"):
                if r() < .25:
                    s[k] = rng.choice(lens)
    if r() < .25:
        e = rng.sample([x for x in ANY if not isinstance(x, (list, dict)) or r() < .3], rng.choice([1, 2, 3, 4]))
        if t and r() < .7:
            pool = {"string": ["a", "ab", "42", "", "é"], "number": [1, 1.5, 2, -3, 2.0], "integer": [0, 1, 2, 4, -3], "boolean": [True, False],
                    "array": [[], [1]], "object": [{}, {"p": 1}]}[t]
            e = rng.sample(pool, rng.choice([1, len(pool) // 2, len(pool)]) or 1)
            if r() < .4:
                e.insert(rng.randint(0, len(e)), None)
        s["enum"] = e
    if r() < .25:
        s["format"] = rng.choice(FORMATS[t or rng.choice(TYPES)])
    if r() < .5:
        notes(s, rng, .35)
    if "oneOf" in s and r() < .2:
        s["discriminator"] = {"propertyName": "type"}
    keys = list(s)
    rng.shuffle(keys)
    return {k: s[k] for k in keys}


def instance(rng, s, comps, depth=5):
    """A value that has a chance to satisfy s."""
    r = rng.random
    if isinstance(s, bool) or depth == 0 or r() < .06:
        return rng.choice(ANY)
    if "$ref" in s:
        return instance(rng, comps[s["$ref"].split("/")[-1]], comps, depth - 1)
    if s.get("nullable") and r() < .2:
        return None
    if "enum" in s and r() < .7:
        return rng.choice(s["enum"])
    for k in ("allOf", "anyOf", "oneOf"):
        if k in s and r() < .6:
            return instance(rng, rng.choice(s[k]), comps, depth - 1)
    t = s.get("type")
    if not t:
        fam = [f for f, ks in (("string", ("minLength", "maxLength", "pattern")), ("number", ("minimum", "maximum", "multipleOf")),
                               ("array", ("items", "minItems", "maxItems", "uniqueItems")),
                               ("object", ("properties", "required", "additionalProperties", "minProperties", "maxProperties"))) if any(k in s for k in ks)]
        if not fam:
            return rng.choice(ANY)
        t = rng.choice(fam)
    if t == "boolean":
        return r() < .5
    if t == "string":
        n = [x for k in ("minLength", "maxLength") if k in s and s[k] < 9 for x in (s[k] - 1, s[k], s[k] + 1) if x >= 0]
        if "pattern" in s and r() < .6:
            return rng.choice({"^a": ["a", "ab", "abc", "aé😀"], "b$": ["b", "ab", "xb"], "^[a-z]+$": ["a", "abc", "xyz"], "^[0-9]{2}$": ["42", "00"],
                               "x": ["x", "xb", "axa"], "^$": [""]}[s["pattern"]])
        return "".join(rng.choice("abxé😀4") for _ in range(rng.choice(n or [0, 1, 2, 3])))
    if t in ("number", "integer"):
        c = [s[k] + d for k in ("minimum", "maximum") if k in s for d in (-1, 0, 0, 1)]
        if "multipleOf" in s:
            c += [s["multipleOf"] * k for k in (-2, 0, 1, 2, 3)] + [x - x % s["multipleOf"] for x in c]
        x = rng.choice(c or [0, 1, 2, -1, 3])
        return x if r() < .8 else (x + .5 if abs(x) < 1e6 else x) if r() < .5 else float(x)
    if t == "array":
        n = [x for k in ("minItems", "maxItems") if k in s and s[k] < 9 for x in (s[k] - 1, s[k], s[k] + 1) if x >= 0]
        a = [instance(rng, s.get("items", True), comps, depth - 1) for _ in range(rng.choice(n or [0, 1, 2, 3]))]
        if a and r() < .15:
            a.append(a[0])
        return a
    o = {}
    for k, v in s.get("properties", {}).items():
        if r() < (.9 if k in s.get("required", []) else .6):
            o[k] = instance(rng, v, comps, depth - 1)
    for k in s.get("required", []):
        if k not in o and r() < .85:
            o[k] = instance(rng, s.get("additionalProperties", True), comps, depth - 1)
    if r() < .3:
        o[rng.choice(["extra", "p", "q", "zz"])] = instance(rng, s.get("additionalProperties", True), comps, depth - 1)
    return o


def vary(rng, v):
    """A near relative of v."""
    r = rng.random
    if isinstance(v, dict) and v and r() < .9:
        k = rng.choice(list(v))
        o = dict(v)
        if r() < .35:
            del o[k]
        else:
            o[k] = vary(rng, o[k])
        return o
    if isinstance(v, list) and v and r() < .9:
        a = list(v)
        k = rng.randrange(len(a))
        if r() < .3:
            del a[k]
        else:
            a[k] = vary(rng, a[k])
        return a
    if isinstance(v, str) and r() < .6:
        return v[:-1] if v and r() < .5 else v + rng.choice("abx4é")
    if isinstance(v, (int, float)) and not isinstance(v, bool) and r() < .7:
        return v + rng.choice([1, -1] + ([.5] if abs(v) < 1e6 else []))
    return rng.choice([None, None, *ANY])
