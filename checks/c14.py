"""C14: path templates.

TLC checks that reading a text character by character accepts exactly the
declaratively acceptable templates and reads them faithfully, for every text to
a bound.  Every enumerated text and longer mutated ones are given to the real
generator, whose verdict and argument order TraceTemplate judges; accepted
templates are generated into real clients and the paths of their requests
validated by TraceCall.
"""
import re
from lib.sess import Builder, resp
from lib.docs import build_apis, by, order, openapi
from lib.call import CFG

STYLES = ["builder", "separate", "cli", "cli_merged", "httpmock", "httpmock_merged"]
LITS = ["a", "b", "-", ".x", ":", "~", "v1", "%41", "\u00e9", "+", "=", "@", "$", "*", "(", "&", " ", "''", "\"", "<", "[", "|", "^", "\\n", "{{", "}}"]


def names(path):
    """A lenient reading: whatever stands between braces."""
    return list(dict.fromkeys(re.findall(r"\{([^}]*)\}", path)))


def doc_of(path):
    return {"openapi": "3.0.3", "info": {"title": "t", "version": "1"}, "paths": {path: {"get": {
        "operationId": "op", "responses": {"200": {"description": ""}},
        "parameters": [{"name": n, "in": "path", "required": True, "schema": {"type": "string"}} for n in sorted(names(path))]}}}}


def URLTEXT(t):
    """Literal text a URL path can carry at all: a raw backslash is a slash to
    URL parsers, and white space at the end of a URL is cut off."""
    return "\\" not in t and not t.endswith(" ")


def run(c):
    c.start_driver_deps()
    c.build_gen()
    n = 8 if c.thorough else 7
    r = c.design("MC_Template", "INIT Init\nNEXT Next\nCONSTANT MaxLen = %d\nINVARIANTS ReadsExactly ParseIsMachine Faithful NamesInOrder\n" % n, deadlock=False)
    texts = [bytes(t).decode() for t in c.serialized(r, "scen.json")]
    if not c.thorough:
        texts = [t for t in texts if len(t) < 6] + c.rng.sample([t for t in texts if len(t) == 6], 6000)
    rng = c.rng
    # longer ones: well-formed templates, then one edit
    def good(lits):
        s = "/"
        for _ in range(rng.randint(0, 5)):
            s += rng.choice(["/", "{%s}" % rng.choice(["a", "b", "id", "long_name", "x1", "zz", "A-b", "a.b", "\u00e9", "type", "self", "client", "$x", "%41", "a b"]), rng.choice(lits), "//", "seg"])
        return s
    safe = [x for x in LITS if "{" not in x and "}" not in x]
    longs = []
    for _ in range(6000 if c.thorough else 1200):
        s = good(safe)
        longs.append(s)
        k = rng.randrange(len(s) + 1)
        longs.append(rng.choice([lambda: s[:k] + rng.choice("{}/{}") + s[k:], lambda: s[:k] + s[k + 1:], lambda: s[1:], lambda: s + "{", lambda: s + "}", lambda: s + "{}",
                                 lambda: s.replace("}", "", 1), lambda: s.replace("{", "{{", 1), lambda: s.replace("}", "}}", 1), lambda: " " + s, lambda: s.replace("{", "{/", 1)])())
    texts += [t for t in dict.fromkeys(longs) if t not in set(texts)]
    jobs, sess = [], []
    for k, t in enumerate(texts):
        runs = [{"style": "positional", "settings": {}, "want": ["sigs"]}]
        # names that are one identifier in Rust are not judged here (C15)
        ids = {re.sub(r"[^a-z0-9]", "", x.lower()) for x in set(names(t))}
        if k % 7 == 0 and len(ids) == len(set(names(t))):
            runs += [{"style": s, "settings": {}} for s in (STYLES if c.thorough else rng.sample(STYLES, 2))]
        jobs.append({"doc": doc_of(t), "runs": runs})
        sess.append({"path": by(t), "events": []})
    out = c.generate(jobs)
    for line in out:
        e = {"r": line["r"], "named": False, "args": []}
        simple = all(re.fullmatch(r"[a-z][a-z0-9]*(_[a-z0-9]+)*", x) and x not in ("self", "type", "client") for x in names(texts[line["job"]]))
        if "sigs" in line and simple:
            fn = [a for ty, f, a in line["sigs"] if ty == "Client" and f == "op"] if isinstance(line["sigs"], list) else []
            # code that is not Rust is not a client that was generated
            e["r"] = "ok" if isinstance(line["sigs"], list) else "garbage"
            e["named"] = True
            e["args"] = [by(a) for a in fn[0]] if fn else [[0]]
        sess[line["job"]]["events"].append(e)
    c.notes["templates"] = len(texts)
    c.notes["refused_runs"] = sum(1 for l in out if l["r"] == "err")
    c.sample({"path": texts[3000], "verdicts": [e["r"] for e in sess[3000]["events"]]})
    c.validate("TraceTemplate", "INIT TInit\nNEXT TNext\n", sess, what="path template", describe=lambda i: texts[i])

    # --- the accepted ones as real clients
    ok = [t for t, s in zip(texts, sess) if s["events"] and s["events"][0]["r"] == "ok" and names(t)]
    pick = rng.sample([t for t in ok if len(t) <= 7 and URLTEXT(t)], 60) + rng.sample([t for t in ok if len(t) > 7 and URLTEXT(t)], 200 if c.thorough else 80)
    RN = {"type": "type_", "self": "self_", "client": "client", "A-b": "a_b", "a.b": "a_b", "$x": "x", "%41": "_41", "a b": "a_b", "\u00e9": "\u00e9"}
    ops = []
    for k, t in enumerate(pick):
        ns = names(t)
        if len({RN.get(x, x) for x in ns}) < len(ns) or not all(x in RN or re.fullmatch(r"[a-z][a-z0-9]*(_[a-z0-9]+)*", x) for x in ns):
            continue
        ops.append({"id": "t%d" % k, "method": "get", "path": t, "responses": [{"status": "200", "kind": "none"}],
                    "params": [dict({"name": x, "in": "path", "ty": "str", "required": True}, **({"rust": RN[x]} if x in RN else {})) for x in sorted(ns)]})
    seen, uniq = set(), []
    for o in ops:
        if o["path"] not in seen:
            seen.add(o["path"])
            uniq.append(o)
    d = {"components": {}, "ops": uniq}
    binary = build_apis(c, {"pos": (d, "positional"), "bld": (d, "builder")})
    B = Builder()
    for o in uniq:
        for api in ("pos", "bld"):
            args = {p["name"]: rng.choice(["v", "x/y", "w w", "%7B", "{}", "\u00e9"]) + str(k) for k, p in enumerate(o["params"])}
            B.add(api, d, o, args, base=rng.choice(["", "/base"]), answer=resp(200, b"", []))
    obs = c.run_driver(binary, B.scenarios(), lanes=12)
    net = B.sessions(obs)
    c.sample({"call": B.items[9][0]["args"], "path": uniq[4]["path"], "requests": [bytes(e["target"]).decode("latin1") for e in net[9]["events"] if e["e"] == "req"]})
    c.notes["templates_called"] = len(uniq)
    c.validate("TraceCall", CFG("C14"), net, what="request path of an accepted template", describe=lambda i: B.items[B.index[i]][0])
