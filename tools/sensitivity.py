"""How much of a recorded execution do the trace specifications look at?

  sensitivity.py CHECK/TAG [seed] [per-path]

Takes the trace.json of the last run of a check (.build/work/CHECK/tlc-TAG),
corrupts one leaf of one session at a time and lets TLC judge the corrupted
sessions.  Prints, per kind of leaf, how many corruptions were still accepted.
A development tool: a clause that never says no shows up here.
"""
import collections, copy, json, os, random, re, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from lib.core import community_jar

DONE = {"TraceStyles": "l > Len(S.events)"}


def is_bytes(x):
    return isinstance(x, list) and x and all(isinstance(v, int) and not isinstance(v, bool) for v in x)


def leaves(x, path=(), norm=""):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,), norm + "." + k)
    elif isinstance(x, list) and not is_bytes(x):
        if not x:
            yield path, norm + "[]empty"
        for k, v in enumerate(x):
            yield from leaves(v, path + (k,), norm + "[]")
    else:
        yield path, norm


def get(x, p):
    for k in p:
        x = x[k]
    return x


def corrupt(v, pool, rng):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rng.choice([1, -1, 7])
    if isinstance(v, str):
        o = sorted(pool - {v})
        return rng.choice(o) if o else None
    if v == []:
        return None
    k = rng.randrange(len(v))
    w = list(v)
    r = rng.random()
    if r < .5:
        w[k] = w[k] + 1 if w[k] != 127 else 65
    elif r < .75:
        w.insert(k, 65)
    else:
        del w[k]
    return w


def main(where, seed=1, per=12):
    chk, tag = where.split("/")
    d = os.path.join(ROOT, ".build", "work", chk, "tlc-" + tag)
    rng = random.Random(int(seed))
    mod = [f[:-4] for f in os.listdir(d) if f.startswith("Trace") and f.endswith(".cfg")][0]
    sess = json.load(open(os.path.join(d, "trace.json")))
    idx = list(range(len(sess)))
    rng.shuffle(idx)
    pools, places = collections.defaultdict(set), collections.defaultdict(list)
    for i in idx[:1500]:
        if len(json.dumps(sess[i])) > 60000:
            continue
        for p, n in leaves(sess[i]):
            if p[0] not in ("events", "res"):
                continue          # what was observed, not what was asked
            v = get(sess[i], p)
            if isinstance(v, str):
                pools[n].add(v)
            places[n].append((i, p))
    bad, names = [], []
    for n, ps in sorted(places.items()):
        for i, p in rng.sample(ps, min(int(per), len(ps))):
            v = corrupt(get(sess[i], p), pools[n], rng)
            if v is None:
                continue
            s = copy.deepcopy(sess[i])
            get(s, p[:-1])[p[-1]] = v
            bad.append(s)
            names.append((n, i, p, get(sess[i], p), v))
    w = os.path.join(ROOT, ".build", "work", "sens")
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree(d, w, ignore=shutil.ignore_patterns("meta"))
    for f in os.listdir(os.path.join(ROOT, "spec")):
        shutil.copy(os.path.join(ROOT, "spec", f), w)
    src = open(os.path.join(w, mod + ".tla")).read()
    done = DONE.get(mod) or "ENABLED " + ("TDone" if re.search(r"^TDone ==", src, re.M) else "Done")
    open(os.path.join(w, "Sens.tla"), "w").write(
        "---- MODULE Sens ----\nEXTENDS %s\nTL == INSTANCE TLC\nAcc == (%s) => TL!PrintT(<<\"ACC\", i>>)\n====\n" % (mod, done))
    cfg = open(os.path.join(d, mod + ".cfg")).read()
    inv = re.findall(r"^INVARIANT (\w+)", cfg, re.M)
    cfg = re.sub(r"^(INVARIANT|PROPERTY) .*\n?", "", cfg, flags=re.M)
    alive, errs, acc = list(range(len(bad))), set(), set()
    while alive:
        json.dump([bad[k] for k in alive], open(os.path.join(w, "trace.json"), "w"))
        ok = "".join("/\\ " + x + " " for x in inv)
        t = open(os.path.join(w, "Sens.tla")).read()
        t = re.sub(r"Acc == .*", "Acc == (%s) => TL!PrintT(<<\"ACC\", i>>)" % (done), t)
        open(os.path.join(w, "Sens.tla"), "w").write(t)
        open(os.path.join(w, "Sens.cfg"), "w").write(cfg + "\nINVARIANT Acc\n" + ("CONSTRAINT Inv\n" if 0 else ""))
        p = subprocess.run(["java", "-XX:+UseParallelGC", "-Xmx6g", "-Xss64m", "-cp", "/opt/veriftools/tla/tla2tools.jar:" + community_jar(),
                            "tlc2.TLC", "-config", "Sens.cfg", "-workers", "6", "-metadir", os.path.join(w, "meta"), "-noGenerateSpecTE", "-deadlock", "Sens.tla"],
                           cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = p.stdout.decode("utf8", "replace")
        if "No error has been found" in out:
            acc = {alive[int(x) - 1] for x in re.findall(r'<<"ACC", (\d+)>>', out)}
            break
        m = re.findall(r"^(?:/\\ )?i = (\d+)", out, re.M)
        if not m:
            # an error while computing the initial states: find it by halves
            print(out[-1500:])
            return
        for k in set(m[-1:]):
            errs.add(alive[int(k) - 1])
        alive = [k for k in alive if k not in errs]
        if len(errs) > 60:
            print("too many evaluation errors"); print(out[-1500:])
            break
    tot, a = collections.Counter(), collections.Counter()
    ex = {}
    for k, (n, i, p, old, new) in enumerate(names):
        tot[n] += 1
        if k in acc:
            a[n] += 1
            ex.setdefault(n, (i, p, old, new))
    print("%s: %d corruptions, %d accepted, %d evaluation errors" % (where, len(bad), len(acc), len(errs)))
    for n in sorted(tot):
        if a[n]:
            i, p, old, new = ex[n]
            f = lambda v: bytes(v).decode("latin1") if is_bytes(v) and all(0 <= z < 256 for z in v) else v
            print("  %-60s %d/%d  e.g. session %d: %.60r -> %.60r" % (n, a[n], tot[n], i, f(old), f(new)))


if __name__ == "__main__":
    main(*sys.argv[1:])
