"""C24: descriptive text is documentation only, and all of it where it belongs.

TLC explores a writer of clients over small documents with all assignments of
texts: the code is the structure's alone and every text is said where it
belongs.  The real generator is then given documents of one structure with
several sets of texts (of all sorts of characters, at all descriptive places) in
every style; the code without documentation and the documentation of every
method, trait and client are validated by TraceDocs.
"""
import copy, json
from lib.docs import by

PIECES = ['"', "'", "\\", "\\\"", "\n", "\r\n", "\n\n", "*/", "/*", "//", "///", "//!", "#", '"#', '"]', "#[doc]", "{}", "{0}", "{", "}", "$x", "#x", "%s", "%20", "`", "```", "<b>", "&amp;",
          "\t", " ", "  ", "\u00e9", "\u4e2d\u6587", "\U0001f600", "\u200b", "\u2028", "\u202e", ".", ",", "..", ".,", "!", "fn f() {}", "); panic!(\"x\");", "\"; fn f() {} \"", "r#\"", "\\u{1}", "\\n",
          "\u0001", "\u007f", "\ufeff", "unsafe", "Sends a `GET` request", "- `x`: y", "Arguments:", "as a Stream", "Version: 9", "text"]

# words that could be taken for instructions
WORDS = ["Deprecated", "DEPRECATED", "deprecated", "Internal", "internal", "Private", "Hidden", "hidden", "Experimental", "Unstable", "Beta", "TODO", "FIXME", "XXX", "Ignore", "ignored", "skip",
         "Required", "Optional", "optional", "Default", "null", "none", "true", "false", "JSON", "application/json", "text/plain", "Paginated", "paginated", "Stream", "websocket", "upgrade", "Returns",
         "body", "p0", "p1", "{p0}", "op_0", "op_1", "/x0", "GET", "PUT", "get", "limit", "page_token", "Client", "alpha", "http://x.y/z?a=b#c", "self", "async", "crate::types", "@deprecated", "@internal",
         "x-internal", "rust", "```rust", "# Errors", "# Panics", "- item", "1. one", "\\[x\\]", "[x](y)", "[`Client`]", "=", "!Send", "<T>", "\u00c4", "0", "1.0"]


class Texts:
    def __init__(self, rng, tame=False):
        self.rng, self.n, self.tame = rng, 0, tame

    def __call__(self, p_empty=.25):
        """(text, marker): a text with a marker of its own, or nothing."""
        rng = self.rng
        if rng.random() < p_empty:
            return "", ""
        self.n += 1
        m = "zz%dz" % self.n
        if self.tame:
            return m, m
        k = rng.choice([0, 1, 2, 3, 5, 8])
        a = "".join(rng.choice(PIECES) for _ in range(k))
        b = "".join(rng.choice(PIECES) for _ in range(rng.choice([0, 1, 2, 3])))
        if rng.random() < .35:
            a = rng.choice(WORDS) + rng.choice(["", " ", ": ", ". ", ", ", "\n"]) + rng.choice(["", a])
        if rng.random() < .03:
            a = a + "long " * 60
        return a + m + b, m


S = {"type": "string"}


def structure(rng):
    """A document without any free text."""
    comps = {"ItemPage": {"type": "object", "required": ["items"], "properties": {"items": {"type": "array", "items": S}, "next_page": {"type": "string", "nullable": True}}}}
    paths, tags = {}, rng.sample(["alpha", "beta", "gamma"], rng.randint(0, 3))
    for k in range(rng.randint(1, 4)):
        ps = []
        for j in range(rng.choice([0, 1, 1, 2, 3])):
            loc = rng.choice(["query", "query", "header", "path"])
            ps.append({"name": "p%d" % j, "in": loc, "required": loc == "path" or rng.random() < .3, "schema": S,
                       "style": {"query": "form", "header": "simple", "path": "simple"}[loc]})
        o = {"operationId": "op_%d" % k, "parameters": ps, "responses": {}}
        for code in rng.sample(["200", "404", "5XX", "default"], rng.randint(1, 3)):
            o["responses"][code] = {"description": "", "content": {"application/json": {"schema": S}}}
        if rng.random() < .25:
            ps[:] = [p for p in ps if p["in"] != "query"] + [
                {"name": "limit", "in": "query", "required": False, "style": "form", "schema": {"type": "integer"}}, {"name": "page_token", "in": "query", "required": False, "style": "form", "schema": S}]
            o["x-dropshot-pagination"] = {"required": []}
            o["responses"] = {"200": {"description": "", "content": {"application/json": {"schema": {"$ref": "#/components/schemas/ItemPage"}}}}}
        elif rng.random() < .3:
            o["requestBody"] = {"content": {rng.choice(["application/json", "text/plain"]): {"schema": S}}}
        if tags and rng.random() < .7:
            o["tags"] = rng.sample(tags, rng.randint(1, len(tags)))
        path = "/x%d" % k + "".join("/{%s}" % p["name"] for p in ps if p["in"] == "path")
        paths[path] = {"get" if "requestBody" not in o else "put": o}
    return {"openapi": "3.0.3", "info": {"title": "", "version": "1.2.3"}, "paths": paths, "components": {"schemas": comps}, "tags": [{"name": t} for t in tags]}


def dress(rng, base, tame=False):
    """The document with texts, and what they were."""
    d, t = copy.deepcopy(base), Texts(rng, tame)
    said = {"title": t(0)[0], "about": "", "terms": "", "ops": [], "traits": {}}
    d["info"]["title"] = said["title"]
    for key, name in (("description", "about"), ("termsOfService", "terms")):
        x = t(.5)[0]
        if x:
            d["info"][key] = said[name] = x
    if rng.random() < .3:
        d["info"]["contact"] = {"name": t()[0], "url": "http://x/" + t()[0]}
        d["info"]["license"] = {"name": t()[0]}
    if rng.random() < .3:
        d["servers"] = [{"url": "http://" + t()[0], "description": t()[0]}]
    if rng.random() < .3:
        d["externalDocs"] = {"url": "http://y", "description": t()[0]}
    for g in d["tags"]:
        x = t()[0]
        if x:
            g["description"] = x
        said["traits"]["Client%sExt" % g["name"].capitalize()] = x
    for p in d["paths"].values():
        for key in ("summary", "description"):
            if rng.random() < .2:
                p[key] = t()[0]                                   # of the path item: no operation's
        for o in [v for k, v in p.items() if k in ("get", "put")]:
            e = {"id": o["operationId"], "summary": "", "description": "", "params": [], "marks": []}
            for key in ("summary", "description"):
                x, m = t()
                if x or rng.random() < .5:
                    o[key] = x
                e[key] = x
                e["marks"] += [m] if m else []
            for q in o["parameters"]:
                x, m = t()
                if x or rng.random() < .5:
                    q["description"] = x
                if rng.random() < .2:
                    q["example"] = t()[0]
                e["params"].append({"name": q["name"], "description": x})
                e["marks"] += [m] if m else []
            for r in o["responses"].values():
                r["description"] = t()[0]
            if "requestBody" in o and rng.random() < .7:
                x, m = t()
                o["requestBody"]["description"] = x
                e["params"].append({"name": "body", "description": x})
                e["marks"] += [m] if m else []
            if rng.random() < .2:
                o["externalDocs"] = {"url": "http://z", "description": t()[0]}
            said["ops"].append(e)
    return d, said


STYLES = ["positional", "builder", "separate", "httpmock"]


def run(c):
    c.build_gen()
    c.design("MC_Docs", "INIT MInit\nNEXT DNext\nCONSTANT Two = TRUE\nINVARIANT Said\nINVARIANT CodeIsStructure\n", deadlock=False)
    rng = c.rng
    jobs, meta, sess = [], [], []
    for s in range(800 if c.thorough else 90):
        base = structure(rng)
        sess.append({"events": []})
        for v in range(4):
            d, said = dress(rng, base, v == 0)
            jobs.append({"doc": d, "runs": [{"style": x, "settings": {}, "want": ["docs"]} for x in STYLES]})
            meta.append((s, said))
    for line in c.generate(jobs):
        s, said = meta[line["job"]]
        style = STYLES[line["run"]]
        docs = line.get("docs", [])
        methods = [] if style == "httpmock" else [
            {"op": n[:-7] if n.endswith("_stream") else n, "stream": n.endswith("_stream"), "doc": by(t)} for kind, n, t in docs if kind == "fn" and n.startswith("op_")]
        e = {"r": line["r"], "style": style, "mock": style == "httpmock", "code": line.get("bare", ""), "methods": methods,
             "client": by(next((t for kind, n, t in docs if (kind, n) == ("struct", "Client")), "")),
             "title": by(said["title"]), "about": by(said["about"]), "terms": by(said["terms"]),
             "traits": [{"text": by(said["traits"].get(n, "")), "doc": by(t)} for kind, n, t in docs if kind == "trait"],
             "ops": [{"id": o["id"], "summary": by(o["summary"]), "description": by(o["description"]), "marks": [by(m) for m in o["marks"]],
                      "params": [{"description": by(q["description"]), "token": q["name"] == "page_token"} for q in o["params"]]} for o in said["ops"]]}
        sess[s]["events"].append(e)
    c.notes["documents"] = len(jobs)
    c.sample({"texts": meta[2][1]})
    c.validate("TraceDocs", "INIT TInit\nNEXT TNext\n", sess, what="documentation", describe=lambda i: [json.dumps(jobs[k]["doc"])[:3000] for k in range(4 * i, 4 * i + 4)])
