#!/usr/bin/env python3
"""tools/golden.py OUTDIR [OTHERDIR]

Generates every sample document of /repo in every style with the generator as
it stands (and the stand-in typify), normalises with rustfmt, and reports how
many lines differ from the goldens committed in /repo -- and, with OTHERDIR
(an earlier OUTDIR), whether anything changed since.  A tool for people; no
check uses it.
"""
import difflib, json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib.core import cargo, ROOT, BUILD
out = sys.argv[1]
other = sys.argv[2] if len(sys.argv) > 2 else None
os.makedirs(out, exist_ok=True)
rc, msg = cargo(os.path.join(ROOT, "harness", "gen"), "tgen")
assert rc == 0, msg
S = "/repo/sample_openapi/"
docs = {f[:-5]: open(S + f).read() for f in sorted(os.listdir(S)) if f.endswith(".json")}
styles = ["positional", "builder", "separate", "cli", "httpmock"]
jobs, names = [], []
for n, t in docs.items():
    d = json.loads(t)
    if d.get("openapi", "").startswith("3.1"):
        continue
    names.append(n)
    jobs.append({"doc": t, "runs": [{"style": s, "settings": {}, "crate_path": "crate::%s_builder" % n.replace("-", "_"),
                                     "out": os.path.join(out, "%s_%s.rs" % (n, s))} for s in styles]})
json.dump(jobs, open(os.path.join(out, "jobs.json"), "w"))
subprocess.run([os.path.join(BUILD, "tgen", "debug", "gen"), os.path.join(out, "jobs.json"), os.path.join(out, "out.ndjson")], check=True)
for line in open(os.path.join(out, "out.ndjson")):
    r = json.loads(line)
    n, s = names[r["job"]], styles[r["run"]]
    f = os.path.join(out, "%s_%s.rs" % (n, s))
    fmt = lambda x: subprocess.run(["rustfmt", "--edition", "2021", x], stderr=subprocess.DEVNULL)
    if r["r"] != "ok":
        print(n, s, r["r"], (r.get("msg") or "")[:150])
        continue
    subprocess.run([os.path.join(BUILD, "tgen", "debug", "golden"), f], stdout=open(f + ".n", "w"), check=True)
    fmt(f + ".n")
    g = "/repo/progenitor-impl/tests/output/src/%s_%s.rs" % (n.replace("-", "_"), "builder_tagged" if s == "separate" else s)
    if os.path.exists(g):
        subprocess.run([os.path.join(BUILD, "tgen", "debug", "golden"), g], stdout=open(f + ".g", "w"), check=True)
        fmt(f + ".g")
        a, b = open(f + ".n").read().split("\n"), open(f + ".g").read().split("\n")
        print(n, s, len(b), "lines,", sum(1 for x in difflib.unified_diff(a, b, n=0) if x[0] in "+-" and x[:3] not in ("+++", "---")), "differ from the golden")
    if other and open(f + ".n").read() != open(os.path.join(other, os.path.basename(f) + ".n")).read():
        print(n, s, "CHANGED since", other)
