"""C22: the crate that `cargo progenitor` writes is complete and is what was asked for.

TLC explores histories of runs over one directory (every set of features, every
option, refused documents and arguments) and checks that the directory always
holds exactly what the last run that was not refused asked for, with everything
its code needs.  The same kind of histories is then run with the real command;
after every run the directory is read back (package, dependencies, the tokens of
every source file) and validated by TraceCrate, and a crate of every feature,
with and without the client included, is compiled with just the dependencies it
declares.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, tomllib
from lib.core import ROOT, BUILD, REPO, ToolError, Violation, cargo, cargo_env, CARGO, log
from checks.c21 import yaml

FEATS = ["paginated", "websocket", "uuid", "chrono", "pattern", "anyjson"]


def js(schema):
    return {"description": "", "content": {"application/json": {"schema": schema}}}


def document(rng, feats):
    q = lambda n, sch, req=False: {"name": n, "in": "query", "required": req, "style": "form", "schema": sch}
    S = {"type": "string"}
    paths, comps = {}, {}
    n = [0]

    def op(method, extra, responses, path=None):
        n[0] += 1
        o = {"operationId": "op_%d" % n[0], "responses": responses}
        if rng.random() < .5:
            o["tags"] = [rng.choice(["alpha", "beta"])]
        o.update(extra)
        paths.setdefault(path or "/p%d" % n[0], {})[method] = o
    for _ in range(rng.randint(0, 2)):
        op(rng.choice(["get", "delete", "put"]), {"parameters": [q("q%d" % k, rng.choice([S, {"type": "integer"}, {"type": "boolean"}])) for k in range(rng.randint(0, 2))]},
           {rng.choice(["200", "2XX", "default"]): js(S)})
    if rng.random() < .3:
        op("post", {"requestBody": {"content": {rng.choice(["application/octet-stream"]): {"schema": {"type": "string", "format": "binary"}}}}}, {"204": {"description": ""}})
    if rng.random() < .3:
        comps["FormBody"] = {"type": "object", "required": ["f"], "properties": {"f": S, "g": {"type": "integer"}}}
        op("post", {"requestBody": {"content": {"application/x-www-form-urlencoded": {"schema": {"$ref": "#/components/schemas/FormBody"}}}}}, {"201": js(S)})
    if rng.random() < .3:
        op("get", {}, {"200": {"description": "", "content": {"*/*": {"schema": {}}}}})
    if rng.random() < .3:
        op("get", {"parameters": [{"name": "x-h", "in": "header", "required": rng.random() < .5, "style": "simple", "schema": S}]}, {"200": js(S)})

    def place(name, sch):
        w = rng.choice(["query", "path", "body", "response", "component", "field"])
        if w == "query":
            op("get", {"parameters": [q("v", sch, rng.random() < .5)]}, {"200": js(S)})
        elif w == "path":
            op("get", {"parameters": [{"name": "v", "in": "path", "required": True, "style": "simple", "schema": sch}]}, {"200": js(S)}, "/q%d/{v}" % n[0])
        elif w == "body":
            op("put", {"requestBody": {"required": True, "content": {"application/json": {"schema": sch}}}}, {"200": js(S)})
        elif w == "response":
            op("get", {}, {"200": js(sch)})
        elif w == "component":
            comps["%sThing" % name] = sch
            op("get", {}, {"200": js({"$ref": "#/components/schemas/%sThing" % name})})
        else:
            comps["%sHolder" % name] = {"type": "object", "required": ["f"], "properties": {"f": sch, "g": {"type": "array", "items": sch}}}
            op("get", {}, {"200": js({"$ref": "#/components/schemas/%sHolder" % name})})
    fs = list(feats)
    rng.shuffle(fs)
    for f in fs:
        if f == "paginated":
            comps["ItemPage"] = {"type": "object", "required": ["items"], "properties": {
                "items": {"type": "array", "items": S}, "next_page": {"type": "string", "nullable": True}}}
            op("get", {"x-dropshot-pagination": {"required": []}, "parameters": [q("limit", {"type": "integer", "format": "uint32"}), q("page_token", S)]},
               {"200": js({"$ref": "#/components/schemas/ItemPage"}), "4XX": {"description": ""}})
        elif f == "websocket":
            op("get", {"x-dropshot-websocket": {}}, {"default": {"description": "", "content": {"*/*": {"schema": {}}}}})
        elif f == "uuid":
            place("Uuid", {"type": "string", "format": "uuid"})
        elif f == "chrono":
            place("Time", {"type": "string", "format": rng.choice(["date-time", "date"])})
        elif f == "pattern":
            place("Pattern", {"type": "string", "pattern": "^[a-z]+$"})
        elif f == "anyjson":
            if rng.random() < .5:
                op("get", {}, {"200": js({})})
            else:
                op("put", {"requestBody": {"required": True, "content": {"application/json": {"schema": {}}}}}, {"204": {"description": ""}})
    if not paths:
        op("get", {}, {"200": js(S)})
    items = list(paths.items())
    rng.shuffle(items)
    return {"openapi": "3.0.3", "info": {"title": rng.choice(["t", "An \"API\""]), "version": "1"}, "paths": dict(items), "components": {"schemas": comps}}


STYLE = {"positional": ["--interface", "positional"], "builder": ["--interface", "builder"], "separate": ["--interface", "builder", "--tags", "separate"]}


class Run:
    """One run of the command, before it happens."""

    def __init__(self, c, d, k, feats, include=None, refused=None, style=None):
        rng, self.blocked = c.rng, refused == "blocked"
        self.feats, self.include, self.refused, self.args_ok, self.served = sorted(feats), include, refused, True, True
        self.style = style or rng.choice(list(STYLE))
        self.doc = document(rng, feats)
        self.name, self.version = rng.choice(["my-crate", "x", "a_b", "crate9"]), rng.choice(["0.1.0", "12.0.3", "1.0.0-rc.1"])
        self.license = rng.choice(["", "MIT", "MIT OR Apache-2.0"])
        self.registry = rng.choice(["", "", "reg-1"])
        if refused == "doc":
            self.served = False
            m = rng.choice(["noid", "dup", "version"])
            ops = [o for p in self.doc["paths"].values() for o in p.values()]
            if m == "noid":
                del rng.choice(ops)["operationId"]
            elif m == "version":
                self.doc["openapi"] = "3.1.0"
            else:
                self.doc["paths"]["/again"] = {"get": dict(rng.choice(ops))}
        text = json.dumps(self.doc)
        ext = rng.choice(["json", "yaml", "json"])
        self.path = os.path.join(d, "in%d.%s" % (k, ext))
        if refused == "garbage":
            self.served, text = False, rng.choice(["{", "", "[1, 2]", text[:len(text) // 2], '{"openapi": "3.0.3"}'])
        elif ext == "yaml":
            text = yaml(self.doc)
        with open(self.path, "w") as f:
            f.write(text)
        if refused == "missing":
            os.remove(self.path)
            self.served = False
        self.inc = self.include if self.include is not None else rng.choice([True, False])
        a = []
        L, S = rng.random() < .5, rng.random() < .5
        opts = {"i": ["--input" if L else "-i", self.path], "n": ["--name" if L else "-n", self.name], "v": ["--version" if S else "-v", self.version]}
        if refused == "args":
            self.args_ok = False
            m = rng.choice(["i", "n", "v", "o", "x"])
            opts.pop(m, None)
            if m == "x":
                opts["x"] = rng.choice([["--interface", "nope"], ["--include-client", "perhaps"], ["--no-such-option"], ["--tags", "none"]])
            self.noout = m == "o"
        else:
            self.noout = False
        extra = [] if self.style == "positional" and rng.random() < .5 else list(STYLE[self.style])
        if self.style == "builder" and rng.random() < .5:
            extra += ["--tags", "merged"]
        if not (self.inc and rng.random() < .3):          # included unless said otherwise (this is a debug build)
            extra += ["--include-client", "true" if self.inc else "false"]
        if self.license:
            extra += ["--license-name", self.license]
        if self.registry:
            extra += ["--registry-name", self.registry]
        parts = list(opts.values()) + ([extra] if extra else [])
        rng.shuffle(parts)
        self.argv = [x for p in parts for x in p]
        self.out_long = rng.random() < .5


def read_dir(out):
    fs = sorted(os.path.relpath(os.path.join(r, f), out) for r, _, fl in os.walk(out) for f in fl) if os.path.isdir(out) else []
    e = {"files": [{"path": f, "text": hashlib.sha256(open(os.path.join(out, f), "rb").read()).hexdigest()[:16]} for f in fs], "package": {"name": "", "version": "", "license": "", "publish": "", "edition": ""}, "deps": []}
    if "Cargo.toml" in fs:
        try:
            t = tomllib.load(open(os.path.join(out, "Cargo.toml"), "rb"))
        except (tomllib.TOMLDecodeError, UnicodeDecodeError):
            return e
        p = t.get("package", {}) if isinstance(t.get("package", {}), dict) else {}
        e["package"] = {k: str(p.get(k, "")) for k in ("name", "version", "license", "edition")}
        e["package"]["publish"] = ",".join(p["publish"]) if isinstance(p.get("publish"), list) else str(p.get("publish", ""))
        e["deps"] = [{"name": k} for k in t.get("dependencies", {})]
    return e


def run(c):
    c.build_gen()
    rc, out = cargo(os.path.join(ROOT, "harness", "cargo-shim"), "tcargo")
    if rc:
        raise ToolError("the command does not build:\n" + out[-4000:])
    log("command built")
    binary = os.path.join(BUILD, "tcargo", "debug", "cargo-progenitor")
    r = c.design("MC_Crate", "INIT MInit\nNEXT MNext\nCONSTANT Depth = %d\nINVARIANT Complete\nINVARIANT Fresh\nINVARIANT Untouched\n" % (3 if c.thorough else 2), deadlock=False)
    feats = c.serialized(r, "feats.json")
    rng = c.rng
    base = os.path.join(c.work, "crates")
    os.makedirs(base)
    sessions = []                                        # (runs, build?)
    refusals = ["doc", "garbage", "missing", "args", "blocked"]
    before = {}

    def session(spec, build=False):
        d = os.path.join(base, "s%d" % len(sessions))
        os.makedirs(d)
        if not build and rng.random() < .5:               # the directory is not new
            before[len(sessions)] = {f: rng.choice(["", "// old\n", "[package]\nname = \"old\"\n[dependencies]\nold = \"1\"\n", "x" * 200000, "mod progenitor_client;\n"])
                                     for f in rng.sample(["Cargo.toml", "src/lib.rs", "src/progenitor_client.rs", "src/extra.rs", "README.md", "Cargo.lock", "src/bin/main.rs"], rng.randint(1, 5))}
        sessions.append((d, [Run(c, d, k, *x) for k, x in enumerate(spec)], build))
    # every set of features, with and without the client
    for f in feats:
        session([(f["features"], f["include"])], len(f["features"]) in (0, 1, 6))
    for style in STYLE:
        session([(["paginated"], True, None, style)], True)
        session([(rng.sample(FEATS, 3), False, None, style)], True)
    for _ in range(700 if c.thorough else 60):
        spec = []
        for _ in range(rng.randint(2, 4)):
            spec.append((rng.sample(FEATS, rng.choice([0, 0, 1, 2, 3, 6])), rng.choice([True, False, None]), rng.choice(refusals) if rng.random() < .35 else None))
        session(spec, c.thorough and rng.random() < .05)
    # what the library makes of every document
    jobs, where = [], []
    for si, (d, runs, _) in enumerate(sessions):
        for k, x in enumerate(runs):
            if x.served:
                jobs.append({"doc": x.doc, "runs": [{"style": x.style, "settings": {}, "out": "%s/want%d.rs" % (d, k)}]})
                where.append((si, k))
    for line in c.generate(jobs):
        if line["r"] != "ok":
            raise Violation("the generator refuses or fails on a document it must serve", json.dumps({"doc": jobs[line["job"]]["doc"], "answer": line})[:4000])
    env = {k: v for k, v in os.environ.items() if k not in ("RUST_LOG",)}

    def fmt(p):
        q = subprocess.run(["rustfmt", "--edition", "2021", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if q.returncode:
            raise Violation("generated code is not Rust", q.stdout.decode("utf8", "replace")[:2000])

    def execute(si):
        d, runs, build = sessions[si]
        out = os.path.join(d, rng_dir[si])
        evs = []
        for f, text in before.get(si, {}).items():
            os.makedirs(os.path.dirname(os.path.join(out, f)), exist_ok=True)
            with open(os.path.join(out, f), "w") as g:
                g.write(text)
        first = read_dir(out)["files"]
        for k, x in enumerate(runs):
            to = os.path.join(x.path, "sub") if x.blocked else out            # below a file no directory can be made
            p = subprocess.run([binary, "progenitor"] + x.argv + ([] if x.noout else ["--output" if x.out_long else "-o", to]), cwd=d,
                               env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
            e = read_dir(out)
            for f in ("lib.rs", "progenitor_client.rs"):
                s = os.path.join(out, "src", f)
                if os.path.exists(s):
                    shutil.copy(s, "%s/have%d.%s" % (d, k, f))
            e.update(ev="run", exit=p.returncode, features=x.feats, served=x.served, args=x.args_ok, blocked=x.blocked, include=x.inc, name=x.name, version=x.version,
                     license=x.license or "SPECIFY A LICENSE BEFORE PUBLISHING", registry=x.registry)
            if p.returncode and x.served and x.args_ok and not x.blocked:
                e["output"] = p.stdout.decode("utf8", "replace")[-600:]
            evs.append(e)
        return first, evs
    rng_dir = [rng.choice(["out", "a/b/out", "out.d"]) for _ in sessions]
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda w: fmt("%s/want%d.rs" % (sessions[w[0]][0], w[1])), where))
        firsts, events = zip(*ex.map(execute, range(len(sessions))))
    log("%d runs of the command" % sum(len(e) for e in events))
    # the sources, as tokens
    ins = [os.path.join(REPO, "progenitor-client", "src", "progenitor_client.rs")]
    for d, runs, _ in sessions:
        for k in range(len(runs)):
            ins += ["%s/want%d.rs" % (d, k), "%s/have%d.lib.rs" % (d, k), "%s/have%d.progenitor_client.rs" % (d, k)]
    empty = {"openapi": "3.0.3", "info": {"title": "t", "version": "1"}, "paths": {}}
    n = max(1, len(ins) // 8 + 1)
    jobs = [{"doc": empty, "runs": [{"style": "source", "in": p} for p in ins[k:k + n]]} for k in range(0, len(ins), n)]
    seen = dict(zip(ins, c.generate(jobs, tag="src")))
    trace = []
    for (d, runs, build), first, evs in zip(sessions, firsts, events):
        for k, e in enumerate(evs):
            w, l, p = seen["%s/want%d.rs" % (d, k)], seen["%s/have%d.lib.rs" % (d, k)], seen["%s/have%d.progenitor_client.rs" % (d, k)]
            mentions = set(l["mentions"]) | (set(p["mentions"]) if l["mod"] else set())
            if l["mod"]:
                mentions.discard("progenitor-client")
            e.update(want=w["hash"], lib=l["hash"], client=p["hash"], mod=l["mod"], mentions=sorted(mentions))
        trace.append({"client": seen[ins[0]]["hash"], "before": first, "events": evs})
    # compiled with just what they declare
    built = []

    def manifest(si):
        d = sessions[si][0]
        b = os.path.join(d, "build")
        shutil.copytree(os.path.join(d, rng_dir[si]), b)
        with open(os.path.join(b, "Cargo.toml"), "a") as f:
            f.write('\n[workspace]\n\n[patch.crates-io]\nprogenitor-client = { path = "%s/progenitor-client" }\nregress = { path = "%s/stubs/regress" }\n' % (REPO, ROOT))
        return b
    for si, (d, runs, build) in enumerate(sessions):
        if build and trace[si]["events"][-1]["exit"] == 0 and any(f["path"] == "Cargo.toml" for f in trace[si]["events"][-1]["files"]):
            b = manifest(si)
            lock = os.path.join(base, "Cargo.lock")
            p = subprocess.run(CARGO + ["check", "--offline"], cwd=b, env=cargo_env("tcrate"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            text = p.stdout.decode("utf8", "replace")
            if p.returncode and "could not compile" not in text and "E0" not in text and "no matching package" in text and "progenitor-client" not in text:
                c.notes["not_buildable_offline"] = c.notes.get("not_buildable_offline", 0) + 1
                continue
            x = runs[-1]
            e = {"ev": "build", "compiles": p.returncode == 0, "style": x.style, "otherwise": False,
                 "queries": any(q["in"] == "query" for o in x.doc["paths"].values() for m in o.values() for q in m.get("parameters", []))}
            if p.returncode:
                e["output"] = text[-1500:]
                # is it just the path of one name (known deviation D50)?
                f = os.path.join(b, "src", "lib.rs")
                code = open(f).read()
                with open(f, "w") as g:
                    g.write(re.sub(r"(?<![:\w])progenitor_client\s*::\s*QueryParam\b", "crate::progenitor_client::QueryParam", code))
                q = subprocess.run(CARGO + ["check", "--offline"], cwd=b, env=cargo_env("tcrate"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
                e["otherwise"] = q.returncode == 0
            trace[si]["events"].append(e)
            built.append(si)
    log("%d crates compiled" % len(built))
    c.notes.update(command_runs=sum(len(e) for e in events), refused_runs=sum(1 for e in events for x in e if x["ev"] == "run" and (not (x["served"] and x["args"]) or x["blocked"])), crates_compiled=len(built))
    c.sample({"argv": sessions[0][1][0].argv, "package": trace[0]["events"][0]["package"], "dependencies": [x["name"] for x in trace[0]["events"][0]["deps"]]})
    known = ", ".join('"%s"' % f["id"] for f in c.findings if f["status"] == "known")
    c.validate("TraceCrate", "INIT TInit\nNEXT TNext\nCONSTANT Known = {%s}\n" % known, trace, what="the generated crate",
               describe=lambda i: [x.argv for x in sessions[i][1]])
    shutil.rmtree(base)
