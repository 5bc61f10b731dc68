"""Shared machinery: building, running drivers, running TLC, evidence, findings.

Python only moves data about.  Everything that decides a property is a TLA+
module under /verif/spec, evaluated by TLC.
"""
import json, os, random, re, shutil, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, ".build")
SPEC = os.path.join(ROOT, "spec")
REPO = "/repo"
CARGO = ["cargo", "+stable"]


class ToolError(Exception):
    """The check could not be carried out (exit 2)."""


class Violation(Exception):
    def __init__(self, what, detail):
        super().__init__(what)
        self.what, self.detail = what, detail


def log(*a):
    print("[%7.2fs]" % (time.time() - T0), *a, flush=True)


T0 = time.time()


def cargo_env(target):
    e = dict(os.environ)
    e.update(CARGO_TARGET_DIR=os.path.join(BUILD, target), CARGO_PROFILE_DEV_DEBUG="0",
             CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", CARGO_NET_OFFLINE="true",
             RUSTFLAGS="-Awarnings")
    e.pop("RUST_BACKTRACE", None)
    return e


def cargo(cwd, target, *args, timeout=800):
    p = subprocess.run(CARGO + ["build", "--offline", *args], cwd=cwd, env=cargo_env(target),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")


# --------------------------------------------------------------------- checks
DRV_DEPS = """
rt = { path = "%(root)s/harness/rt" }
progenitor-client = { path = "/repo/progenitor-client" }
reqwest = { version = "0.12.4", default-features = false, features = ["json", "stream"] }
tokio = { version = "1", features = ["rt-multi-thread", "net", "io-util", "time", "sync", "macros"] }
futures = "0.3"
serde = { version = "1", features = ["derive"] }
serde_json = "1"
serde_urlencoded = "0.7"
bytes = "1"
base64 = "0.22"
rand = "0.9"
chrono = { version = "0.4", default-features = false, features = ["serde"] }
uuid = { version = "1", features = ["serde", "v4"] }
regress = { path = "%(root)s/stubs/regress" }
regex = "1"
"""


class Check:
    def __init__(self, pid, tier, seed, only=None):
        self.pid, self.tier, self.seed, self.only = pid, tier, seed, only
        self.thorough = tier == "thorough"
        self.rng = random.Random("%s-%d" % (pid, seed))
        self.work = os.path.join(BUILD, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = 0
        self.samples, self.assumptions, self.notes = [], [], {}
        self.hits = {}          # known finding id -> count
        self.violations = 0
        self._drv = None
        self.findings = load_findings(pid)

    # -- building ---------------------------------------------------------
    def start_driver_deps(self, deps="", name="drv"):
        """Compile the driver's dependencies in the background."""
        d = os.path.join(self.work, name)
        os.makedirs(os.path.join(d, "src"), exist_ok=True)
        pkg = "%s_%s" % (name, self.pid.lower())
        with open(os.path.join(d, "Cargo.toml"), "w") as f:
            f.write('[package]\nname = "%s"\nversion = "0.0.0"\nedition = "2021"\n\n[workspace]\n\n'
                    '[dependencies]\n%s%s\n' % (pkg, DRV_DEPS % {"root": ROOT}, deps))
        with open(os.path.join(d, "src", "main.rs"), "w") as f:
            f.write("fn main() {}\n")
        box = {}

        def go():
            try:
                box["rc"], box["out"] = cargo(d, "tdrv")
            except Exception as e:      # noqa
                box["rc"], box["out"] = 99, repr(e)
        t = threading.Thread(target=go)
        t.start()
        self._drv = (d, pkg, t, box)

    def build_gen(self):
        rc, out = cargo(os.path.join(ROOT, "harness", "gen"), "tgen")
        if rc:
            raise ToolError("generator does not build:\n" + out[-4000:])
        self.gen_bin = os.path.join(BUILD, "tgen", "debug", "gen")
        log("generator built")

    def generate(self, jobs, tag="gen"):
        """jobs: [{"doc": dict, "runs": [...]}] -> list of result lines."""
        js = [{"doc": d["doc"] if isinstance(d["doc"], str) else json.dumps(d["doc"]),
               "runs": d["runs"]} for d in jobs]
        n = max(1, min(8, len(js) // 4))
        ps = []
        for k in range(n):
            jp, op = (os.path.join(self.work, "%s.%d.%s" % (tag, k, x)) for x in ("jobs.json", "out.ndjson"))
            with open(jp, "w") as f:
                json.dump(js[k::n], f)
            ps.append((op, subprocess.Popen([self.gen_bin, jp, op], stdout=open(op + ".log", "wb"), stderr=subprocess.STDOUT)))
        out = []
        for k, (op, p) in enumerate(ps):
            try:
                p.wait(timeout=600)
            except subprocess.TimeoutExpired:
                for _, q in ps:
                    q.kill()
                raise
            if p.returncode:
                # stack overflow or abort inside the code under test
                raise Violation("generator process died", open(op + ".log", "rb").read().decode("utf8", "replace")[-2000:])
            for l in open(op):
                r = json.loads(l)
                r["job"] = r["job"] * n + k
                out.append(r)
        return sorted(out, key=lambda r: (r["job"], r["run"]))

    def build_driver(self, files):
        """files: {relative path under src: text}. Returns the binary path."""
        d, pkg, t, box = self._drv
        t.join()
        if box["rc"]:
            raise ToolError("driver dependencies do not build:\n" + box["out"][-4000:])
        for rel, text in files.items():
            p = os.path.join(d, "src", rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(text)
        os.utime(os.path.join(d, "src", "main.rs"))
        rc, out = cargo(d, "tdrv")
        if rc:
            errs = re.findall(r"^error.*(?:\n.*){0,12}", out, re.M)
            if not files or not re.search(r"--> (?:\S*/drv/)?src/(?!main\.rs)", "\n".join(errs)):
                raise ToolError("the driver does not compile:\n" + (("\n".join(errs)) or out)[:4000])
            raise Violation("the generated client does not compile",
                            "\n".join(e[:600] for e in errs[:4]) or out[-3000:])
        log("driver built")
        return os.path.join(BUILD, "tdrv", "debug", pkg)

    def gen_dir(self):
        d, pkg, t, box = self._drv
        p = os.path.join(d, "src", "api")
        os.makedirs(p, exist_ok=True)
        return p

    def run_driver(self, binary, scenarios, lanes=6, timeout=700, tag="run"):
        for i, s in enumerate(scenarios):
            s["i"] = i
        sp, op = os.path.join(self.work, tag + ".scen.json"), os.path.join(self.work, tag + ".obs.ndjson")
        with open(sp, "w") as f:
            json.dump(scenarios, f)
        env = dict(os.environ, RT_LANES=str(lanes))
        for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY", "all_proxy"):
            env.pop(k, None)
        p = subprocess.run([binary, sp, op], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, env=env)
        if p.returncode:
            raise Violation("the client process died (rc %d)" % p.returncode,
                            p.stdout.decode("utf8", "replace")[-2000:])
        obs = [json.loads(l) for l in open(op)]
        if len(obs) != len(scenarios):
            raise ToolError("driver wrote %d of %d observations" % (len(obs), len(scenarios)))
        log("%d scenarios executed on the real code" % len(obs))
        return obs

    # -- TLC --------------------------------------------------------------
    def tlc(self, module, cfg, files=None, workers="8", timeout=700, deadlock=True, extra=(),
            tag=None, jvm=("-Xss64m",), heap="6g", trace=False):
        """Runs TLC in a scratch copy of /verif/spec.  cfg is the text of the
        configuration, files extra data files {name: text or JSON value}."""
        tag = tag or module
        d = os.path.join(self.work, "tlc-" + tag)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        with open(os.path.join(d, module + ".cfg"), "w") as f:
            f.write(cfg)
        for n, v in (files or {}).items():
            with open(os.path.join(d, n), "w") as f:
                if isinstance(v, str):
                    f.write(v)
                elif n.endswith(".ndjson"):
                    for x in v:
                        f.write(json.dumps(x) + "\n")
                else:
                    json.dump(v, f)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, *jvm, "-cp",
               "/opt/veriftools/tla/tla2tools.jar:" + community_jar(), "tlc2.TLC",
               "-config", module + ".cfg", "-workers", workers, "-metadir", os.path.join(d, "meta"),
               "-noGenerateSpecTE"]
        if not deadlock:
            cmd.append("-deadlock")
        cmd += list(extra) + [module + ".tla"]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on " + module)
        out = p.stdout.decode("utf8", "replace")
        with open(os.path.join(d, "tlc.out"), "w") as f:
            f.write(out)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        st = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        r = TlcResult(out, p.returncode, st, d)
        log("TLC %s: %s, %d states, %d distinct (%.1fs)" % (tag, r.kind, st[0], st[1], time.time() - t))
        if r.kind == "error" and trace and re.search(r"^Error: .*(Attempted to|was not in the domain|nonexistent field|CASE|CHOOSE)|"
                                                     r"^(Attempted to|The first argument of|Evaluating)|fingerprint", out, re.M) \
                and "Parsing or semantic analysis failed" not in out and "OutOfMemory" not in out:
            r.kind, r.what = "stuck", "rejected (the recorded execution does not have the shape the specification requires)"
        if r.kind == "error":
            raise ToolError("TLC failed on %s:\n%s" % (tag, out[-6000:]))
        self.states += st[1]
        self.transitions += st[0]
        return r

    def design(self, module, cfg, **kw):
        """Exhaustive check of the specification itself; it must pass."""
        r = self.tlc(module, cfg, **kw)
        if r.kind != "ok":
            raise ToolError("the specification itself violates %s:\n%s" % (r.what, r.out[-4000:]))
        return r

    def serialized(self, r, name):
        """Scenarios TLC wrote while checking."""
        return json.load(open(os.path.join(r.dir, name)))

    def expect_broken(self, module, cfg, **kw):
        """A mutated constant must make the specification fail: the design
        check is able to notice the mistake."""
        r = self.tlc(module, cfg, **kw)
        if r.kind == "ok":
            raise ToolError("%s does not notice the mutation %s" % (module, kw.get("tag")))
        self.notes["spec_mutations_noticed"] = self.notes.get("spec_mutations_noticed", 0) + 1

    def validate(self, module, cfg, sessions, files=None, what=None, describe=None, split=None, **kw):
        """Trace validation.  Every session is an initial state of the trace
        specification; a session that gets stuck deadlocks TLC; a rejected one
        is reported in variable `i`."""
        files = dict(files or {})
        files["trace.json"] = sessions
        r = self.tlc(module, cfg, files=files, trace=True, **kw)
        if r.kind == "ok":
            self.traces += len(sessions)
            for k in r.prints("KNOWN"):
                self.hits[k] = self.hits.get(k, 0) + 1
            return r
        i = r.var("i")
        idx = int(i) - 1 if i is not None and i.isdigit() else None
        sess = sessions[idx] if idx is not None and 0 <= idx < len(sessions) else None
        raise Violation("%s: %s" % (what or "an observed execution is not a behaviour of the specification",
                                    r.what),
                        json.dumps({"session": readable(sess),
                                    "scenario": readable(describe(idx)) if describe and idx is not None else None,
                                    "tlc": readable_tlc(r.last_state())},
                                   indent=1)[:20000])

    # -- evidence -----------------------------------------------------------
    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)


def readable(x):
    """Byte lists as text, for people."""
    if isinstance(x, dict):
        return {k: readable(v) for k, v in x.items()}
    if isinstance(x, list):
        if len(x) > 1 and all(isinstance(v, int) and 0 <= v < 256 for v in x):
            return "bytes:" + bytes(x).decode("latin1")[:400]
        return [readable(v) for v in x]
    return x


def readable_tlc(t):
    f = lambda m: '"' + bytes(int(v) for v in m.group(1).split(",")).decode("latin1") + '"'
    return re.sub(r"<<(\d{1,3}(?:, \d{1,3}){2,})>>", lambda m: f(m) if all(int(v) < 256 for v in m.group(1).split(",")) else m.group(0), t)


def community_jar():
    for p in ("/opt/veriftools/tla/CommunityModules-deps.jar", "/opt/veriftools/tla/CommunityModules.jar"):
        if os.path.exists(p):
            return p
    for r, _, fs in os.walk("/opt/veriftools/tla"):
        for f in fs:
            if "ommunity" in f and f.endswith(".jar"):
                return os.path.join(r, f)
    return ""


class TlcResult:
    def __init__(self, out, rc, st, d):
        self.out, self.rc, self.st, self.dir = out, rc, st, d
        if "Model checking completed. No error has been found." in out or \
                ("The number of states generated" in out and "Error:" not in out):
            self.kind, self.what = "ok", ""
        elif "Error: Deadlock reached" in out:
            self.kind, self.what = "stuck", "rejected (no step of the specification explains the next event)"
        elif re.search(r"Error: Invariant (\S+) is violated", out):
            self.kind = "invariant"
            self.what = "invariant %s violated" % re.search(r"Error: Invariant (\S+) is violated", out).group(1)
        elif re.search(r"Error: Action property (\S+) is violated", out):
            self.kind = "invariant"
            self.what = "action property violated"
        elif "Temporal properties were violated" in out:
            self.kind, self.what = "invariant", "temporal property violated"
        elif re.search(r"Error: Assumption .* is false", out):
            self.kind, self.what = "invariant", "assumption false"
        else:
            self.kind, self.what = "error", "error"

    def last_state(self):
        st = re.findall(r"^State \d+:.*\n((?:.+\n)*)", self.out, re.M)
        if not st:
            m = re.search(r"The following state.*\n((?:.+\n)*)", self.out) or \
                re.search(r"violated by the initial state:\n((?:.+\n)*)", self.out)
            return m.group(1)[:4000] if m else ""
        return st[-1][:4000]

    def var(self, name):
        m = re.findall(r"^(?:/\\ )?%s = (.*)$" % re.escape(name), self.last_state(), re.M)
        return m[-1].strip() if m else None

    def prints(self, key):
        return re.findall(r'<<"%s", "([^"]*)"' % key, self.out)

    def print_ints(self, key):
        return [int(x) for x in re.findall(r'<<"%s", (-?\d+)' % key, self.out)]


def load_findings(pid):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == pid]


def main(run, pid, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    it = iter(argv)
    for a in it:
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--seed":
            seed = int(next(it))
        elif a == "--replay":
            only = json.load(open(next(it)))
            seed, tier = only.get("seed", seed), only.get("tier", tier)
    c = Check(pid, tier, seed, only)
    rc, vio = 0, None
    try:
        run(c)
    except Violation as v:
        vio = v
    except ToolError as e:
        print("TOOL-ERROR:", e, flush=True)
        rc = 2
    except subprocess.TimeoutExpired as e:
        print("TOOL-ERROR: timeout", e, flush=True)
        rc = 2
    except Exception:       # noqa
        import traceback
        print("TOOL-ERROR:", traceback.format_exc(), flush=True)
        rc = 2
    finally:
        if c._drv:
            c._drv[2].join()
    ev = os.path.join(ROOT, "evidence")
    os.makedirs(ev, exist_ok=True)
    if vio is not None:
        rc = 1
        rp = os.path.join(ev, "%s.violation.json" % pid)
        with open(rp, "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed, "what": vio.what,
                       "detail": vio.detail,
                       "reproduce": "VERIF_SEED=%d python3 check.py %s %s" % (seed, pid, tier)}, f, indent=1)
        print("violation:", vio.what)
        print(vio.detail[:6000])
        print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
    if rc == 0:
        for f in c.findings:
            if f.get("status") == "known":
                n = c.hits.get(f["id"], 0)
                print("KNOWN-FINDING: property=%s %s [%s, seen %d times in this run]"
                      % (pid, f["what"], f["id"], n))
    cov = {"states": c.states, "transitions": c.transitions,
           "traces_validated_against_impl": c.traces, "samples": c.samples or ["(none)"]}
    cov.update(c.notes)
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
                   "coverage": cov, "assumptions": c.assumptions, "wall_s": round(time.time() - T0, 2),
                   "violations": 1 if vio else 0}, f, indent=1)
    log("%s %s: exit %d" % (pid, tier, rc))
    return rc
