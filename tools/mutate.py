"""mutate.py CHECK LIST.py [NAME...] -- judge hand-written mutants with one check.

LIST.py holds M = [(name, file, old, new)] or {CHECK: [...]}.  Works on scratch
copies: ROOT/repo and ROOT/verif (default /w) are seen as /repo and /verif in a
private mount namespace, so the real trees are never touched.
"""
import importlib.util
import os
import subprocess
import sys
ROOT = os.environ.get("MUT_ROOT", "/w")
NS = ["unshare", "-m", "bash", "-c",
      "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && VERIF_SEED=1 python3 check.py $0 2>&1" % (ROOT, ROOT)]
spec = importlib.util.spec_from_file_location("m", sys.argv[2])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
todo = m.M[sys.argv[1]] if isinstance(m.M, dict) else m.M
for name, f, old, new in todo:
    if sys.argv[3:] and name not in sys.argv[3:]:
        continue
    p = os.path.join(ROOT, "repo", f)
    t = open(p).read()
    if t.count(old) != 1:
        print(name, "found %d times" % t.count(old))
        continue
    open(p, "w").write(t.replace(old, new))
    try:
        r = subprocess.run(NS + [sys.argv[1]], stdout=subprocess.PIPE)
        lines = [x for x in r.stdout.decode("utf8", "replace").splitlines() if x.startswith(("violation:", "TOOL-ERROR", "error"))]
        print(name, "SURVIVED" if r.returncode == 0 else "exit %d" % r.returncode, lines[:1], flush=True)
    finally:
        open(p, "w").write(t)
