"""Writes /verif/seeded/<id>/ from the table below and tries each planted bug.

  plant.py write [ID..]     write patch.diff, demo.sh, meta.json (+ kit)
  plant.py try [ID..]       in a scratch copy: demo must pass, then fail with the patch
  plant.py checks ID CHECK..  run checks against /repo with the patch applied, then undo
"""
import difflib, json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT = os.path.join(ROOT, "tools", "seedkit")
SEEDED = os.path.join(ROOT, "seeded")


def table():
    from plants import PLANTS
    return PLANTS


def patch_of(p):
    out = []
    for f, old, new in p["edits"]:
        s = open("/repo/" + f).read()
        if s.count(old) != 1:
            raise SystemExit("%s: pattern occurs %d times in %s" % (p["id"], s.count(old), f))
    files = {}
    for f, old, new in p["edits"]:
        s = files.get(f) or open("/repo/" + f).read()
        files[f] = s.replace(old, new)
    for f, t in files.items():
        a = open("/repo/" + f).read().splitlines(True)
        out += ["diff --git a/%s b/%s\n" % (f, f)]
        out += difflib.unified_diff(a, t.splitlines(True), "a/" + f, "b/" + f)
    return "".join(out)


def write(p):
    d = os.path.join(SEEDED, p["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "kit"))
    open(os.path.join(d, "patch.diff"), "w").write(patch_of(p))
    meta = {"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}
    ign = shutil.ignore_patterns("target")
    if "script" in p:
        shutil.copy(os.path.join(KIT, "demo_script.sh"), os.path.join(d, "demo.sh"))
        open(os.path.join(d, "demo.py"), "w").write(p["script"].lstrip())
        shutil.copytree(os.path.join(ROOT, "stubs"), os.path.join(d, "kit", "stubs"), ignore=ign)
        for h in ("gen", "impl-shim", "macro-shim", "progenitor-shim", "cargo-shim"):
            shutil.copytree(os.path.join(ROOT, "harness", h), os.path.join(d, "kit", "harness", h), ignore=ign)
        json.dump(meta, open(os.path.join(d, "meta.json"), "w"), indent=1)
        return
    impl = "doc" in p
    shutil.copy(os.path.join(KIT, "demo_impl.sh" if impl else "demo_client.sh"), os.path.join(d, "demo.sh"))
    for f in ("mini.rs", "client.toml"):
        shutil.copy(os.path.join(KIT, f), os.path.join(d, "kit"))
    if "deps" in p:
        with open(os.path.join(d, "kit", "client.toml"), "a") as f:
            f.write(p["deps"])
    open(os.path.join(d, "main.rs"), "w").write(p["main"].lstrip())
    if impl:
        shutil.copytree(os.path.join(ROOT, "stubs"), os.path.join(d, "kit", "stubs"), ignore=ign)
        for h in ("gen", "impl-shim"):
            shutil.copytree(os.path.join(ROOT, "harness", h), os.path.join(d, "kit", "harness", h), ignore=ign)
        json.dump(p["doc"], open(os.path.join(d, "doc.json"), "w"), indent=1)
        json.dump(p.get("runs") or [{"style": "positional", "out": "api.rs"}], open(os.path.join(d, "runs.json"), "w"))
    json.dump(meta, open(os.path.join(d, "meta.json"), "w"), indent=1)


def demo(d, repo):
    r = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout.decode("utf8", "replace")


def attempt(pid):
    d = os.path.join(SEEDED, pid)
    t = tempfile.mkdtemp(prefix="plant-")
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "list"], check=True, stdout=subprocess.DEVNULL)
        subprocess.run("git -C /repo archive HEAD | tar x -C " + t, shell=True, check=True)
        a = demo(d, t)
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=t, check=True)
        b = demo(d, t)
        ok = a[0] == 0 and b[0] != 0 and "FAILED" in b[1]
        print(pid, "ok" if ok else "BAD", a[0], b[0], [l for l in b[1].splitlines() if "FAILED" in l or "expected" in l][:2], flush=True)
        if not ok:
            print("--- clean\n", a[1][-2500:], "\n--- patched\n", b[1][-2500:])
    finally:
        shutil.rmtree(t)


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "write":
        for p in table():
            if not args or p["id"] in args:
                write(p)
    elif cmd == "try":
        from concurrent.futures import ThreadPoolExecutor
        ids = args or sorted(os.listdir(SEEDED))
        with ThreadPoolExecutor(3) as ex:
            list(ex.map(attempt, ids))
    elif cmd == "checks":
        pf = os.path.join(SEEDED, args[0], "patch.diff")
        subprocess.run(["git", "-C", "/repo", "apply", pf], check=True)
        try:
            for c in args[1:]:
                r = subprocess.run(["python3", "check.py", c, "quick"], cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                o = r.stdout.decode("utf8", "replace")
                print(args[0], c, "rc", r.returncode, [l for l in o.splitlines() if l.startswith(("violation", "VIOLATION", "TOOL"))][:2], flush=True)
        finally:
            subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
