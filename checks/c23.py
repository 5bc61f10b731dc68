"""C23: an operation that asks for something the client cannot send is refused.

TLC explores documents whose operations have parameters of every place and
style (own and of their path, replaced or not, dangling), bodies of every kind
and schema, and checks that reading a document part by part decides the
declarative property.  Those documents and longer random ones, concretised with
all sorts of harmless detail, inline or behind (chains of) references, are given
to the real generator in every style; every verdict is validated by TraceCarry.
"""
import json

MEDIA = {"json": ["application/json", "application/json; charset=utf-8", "application/json;v=1"],
         "form": ["application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=utf-8"],
         "octets": ["application/octet-stream", "application/octet-stream;x=y"],
         "text": ["text/plain", "text/plain; charset=utf-8", "text/x-markdown"],
         "xml": ["application/xml", "text/xml"], "multipart": ["multipart/form-data", "multipart/form-data; boundary=x"], "image": ["image/png"],
         "any": ["*/*", "application/*", "text/*"], "html": ["text/html", "text/markdown"], "csv": ["text/csv", "text/plainer"],
         "vendor": ["application/vnd.thing+json", "application/problem+json", "application/jsonp", "application/json-patch+json", "application/ld+json"],
         "nothing": ["json", "text", "", "plain/text", "octet-stream", "application/octet", "application"]}
CLIENT = ["positional", "builder", "separate"]
ALL = CLIENT + ["cli", "cli_merged", "httpmock", "httpmock_merged"]


class Concrete:
    def __init__(self, rng, d):
        self.rng, self.comps = rng, {"parameters": {}, "requestBodies": {}, "responses": {}, "schemas": {}}
        self.n = 0
        paths = {}
        for k, o in enumerate(d):
            self.op(paths, k, o)
        self.doc = {"openapi": "3.0.3", "info": {"title": "t", "version": "1"}, "paths": paths, "components": self.comps}

    def maybe_ref(self, kind, x, p=.3):
        for _ in range(3):
            if self.rng.random() > p:
                break
            self.n += 1
            name = self.rng.choice(["Item%d", "item_%d", "X-%d"]) % self.n
            self.comps[kind][name] = x
            x = {"$ref": "#/components/%s/%s" % (kind, name)}
        return x

    def op(self, paths, k, o):
        rng = self.rng
        names = {n: rng.choice(["%s%d", "x_%s%d", "Param%s%d", "page_token_%s%d"]) % (n, k) for n in {p["name"] for p in o["params"]}}
        own = {p["name"] for p in o["params"] if p["level"] == "op"}
        item, opn, segs = {}, {"operationId": "op_%d" % k, "responses": {}}, []
        for p in o["params"]:
            x, name = p["is"], names[p["name"]]
            if x["form"] == "dangling":
                q = {"$ref": "#/components/parameters/Missing"}
            else:
                q = {"name": name, "in": x["loc"], "style": x["style"], "required": x["loc"] == "path" or rng.random() < .5}
                if x["style"] in ("simple", "form") and rng.random() < .3:
                    del q["style"]                                    # these are the defaults
                sch = rng.choice([{"type": "string"}, {"type": "integer"}, {"type": "boolean"}, {"type": "string", "format": "uuid"}])
                if x["style"] in ("deepObject", "spaceDelimited", "pipeDelimited") and rng.random() < .7:
                    sch = {"type": "array", "items": {"type": "string"}} if x["style"] != "deepObject" else {"type": "object", "properties": {"m": {"type": "string"}}}
                if x["form"] == "schema":
                    q["schema"] = self.maybe_ref("schemas", sch, .2)
                else:
                    q["content"] = {"application/json": {"schema": sch}}
                for a, v in (("description", "text"), ("deprecated", True), ("example", "e"), ("explode", rng.random() < .5)):
                    if rng.random() < .2:
                        q[a] = v
                if x["loc"] == "query" and rng.random() < .2:
                    q["allowReserved"] = rng.random() < .5
                if x["loc"] == "path" and not (p["level"] == "path" and p["name"] in own):
                    segs.append("/{%s}" % name)
                q = self.maybe_ref("parameters", q)
            (item if p["level"] == "path" else opn).setdefault("parameters", []).append(q)
        b = o["body"]
        if b["media"] == "dangling":
            opn["requestBody"] = {"$ref": "#/components/requestBodies/Missing"}
        elif b["media"] != "none":
            opn["requestBody"] = self.maybe_ref("requestBodies", self.body(b))
        if o["resp"] == "dangling":
            opn["responses"] = {rng.choice(["200", "default", "4XX", "2XX", "500"]): {"$ref": "#/components/responses/Missing"}}
        else:
            r = {"description": "", "content": {"application/json": {"schema": {"type": "string"}}}}
            opn["responses"] = {rng.choice(["200", "default", "2XX"]): self.maybe_ref("responses", r)}
        if rng.random() < .3:
            opn["tags"] = ["t"]
        rng.shuffle(segs)
        item[rng.choice(["put", "post", "patch"])] = opn
        path = "/p%d%s" % (k, "".join(segs))
        paths[path] = item

    def body(self, b):
        rng = self.rng
        out = {"content": {}}
        if rng.random() < .7:
            out["required"] = rng.random() < .6
        if rng.random() < .3:
            out["description"] = "text"
        if b["media"] == "empty":
            return out
        if b["media"] == "several":
            for m in rng.sample([MEDIA[x][0] for x in ("json", "form", "octets", "text", "xml")], 2):
                out["content"][m] = {"schema": {"type": "string"}}
            return out
        s = b["schema"]
        base = {"type": "string"}
        if b["media"] == "octets" and s not in ("string",):
            base["format"] = "binary"
        sch = {"string": lambda: base, "binary": lambda: {"type": "string", "format": "binary"},
               "format": lambda: {"type": "string", "format": rng.choice(["date", "byte", "password", "uuid", "binary-ish"])},
               "pattern": lambda: dict(base, pattern="^a*$"), "enum": lambda: dict(base, enum=["a", "b"]),
               "minLength": lambda: dict(base, minLength=1), "maxLength": lambda: dict(base, maxLength=9),
               "nullable": lambda: dict(base, nullable=True), "default": lambda: dict(base, default="d"),
               "integer": lambda: {"type": "integer"}, "object": lambda: {"type": "object", "properties": {"m": {"type": "string"}}},
               "allOf": lambda: {"allOf": [base]}, "array": lambda: {"type": "array", "items": base},
               "encoding": lambda: {"type": "object", "properties": {"m": {"type": "string"}}}, "none": lambda: None}[s]()
        m = {}
        if sch is not None:
            for a, v in (("title", "Thing"), ("description", "text"), ("example", "e"), ("deprecated", True), ("readOnly", True), ("externalDocs", {"url": "http://x"}), ("x-ext", 1)):
                if rng.random() < .15:
                    sch[a] = v
            m["schema"] = self.maybe_ref("schemas", sch)
        if s == "encoding":
            m["encoding"] = {"m": {"contentType": "text/plain"}}
        out["content"][rng.choice(MEDIA[b["media"]])] = m
        return out


def run(c):
    c.build_gen()
    r = c.design("MC_Carry", "INIT MInit\nNEXT CNext\nCONSTANT Pairs = %s\nINVARIANT ScanIsProperty\nINVARIANT Local\n" % ("TRUE" if c.thorough else "FALSE"), deadlock=False)
    docs = c.serialized(r, "scen.json")
    rng = c.rng
    one = [d[0] for d in docs if len(d) == 1]
    fit = lambda o: all(p["is"] in GOOD for p in o["params"]) and o["resp"] != "dangling" and (o["body"]["media"] in ("none", "empty") or (o["body"]["media"], o["body"]["schema"]) in FIT)
    GOOD = [{"loc": "path", "style": "simple", "form": "schema"}, {"loc": "query", "style": "form", "schema": 1, "form": "schema"}, {"loc": "header", "style": "simple", "form": "schema"}]
    GOOD[1].pop("schema")
    FIT = {("octets", "binary"), ("text", "string")} | {(m, s) for m in ("json", "form") for s in ("string", "object", "integer", "array", "enum", "nullable")}
    good = [o for o in one if fit(o)]
    # longer documents: everything fits, or everything but one part of one operation
    rnd = []
    for _ in range(4000 if c.thorough else 900):
        d = [json.loads(json.dumps(rng.choice(good))) for _ in range(rng.randint(1, 12))]
        for o in d:
            o["params"] += [{"name": "m%d" % k, "level": rng.choice(["op", "op", "path"]), "is": rng.choice(GOOD)} for k in range(rng.choice([0, 0, 1, 3, 8]))]
            rng.shuffle(o["params"])
        if rng.random() < .6:
            o, x = rng.choice(d), rng.choice(one)
            w = rng.choice(["params", "params", "body"])
            if w == "body":
                o["body"] = x["body"]
            else:
                o["params"][rng.randint(0, len(o["params"])):0] = [dict(p, name="z" + p["name"]) for p in x["params"]]
        rnd.append(d)
    few = c.thorough or None
    jobs, sess = [], []
    for k, d in enumerate(docs + rnd):
        doc = Concrete(rng, d).doc
        styles = ALL if k % 5 == 0 or few else [rng.choice(CLIENT), rng.choice(ALL[3:])]
        jobs.append({"doc": doc, "runs": [{"style": s, "settings": {}} for s in styles]})
        sess.append({"doc": d, "events": []})
    for line in c.generate(jobs):
        sess[line["job"]]["events"].append({"r": line["r"], "style": jobs[line["job"]]["runs"][line["run"]]["style"], "msg": line.get("msg", "")[:200]})
    c.notes["documents"] = len(jobs)
    c.notes["refused"] = sum(1 for s in sess if s["events"][0]["r"] != "ok")
    c.sample({"doc": docs[7], "verdicts": sess[7]["events"]})
    c.validate("TraceCarry", "INIT TInit\nNEXT TNext\n", sess, what="a document the client could or could not carry", describe=lambda i: jobs[i])
