"""Turns scenarios and observations into sessions for TraceCall.tla."""
from lib.docs import kinds, by, tagged, parse_json, argval, exch, num

NOCFG = {"pre": False, "preA": False, "post": False, "postA": False, "preAFail": False, "postAFail": False}
ANY = {"t": "any"}


RANGE = {"i64": (-2**63, 2**63 - 1), "i32": (-2**31, 2**31 - 1), "u64": (0, 2**64 - 1), "u32": (0, 2**32 - 1),
         "u8": (0, 255), "nzu32": (1, 2**32 - 1)}


def intrec(ty):
    lo, hi = RANGE[ty]
    return {"t": "int", "lo": by(str(lo)), "hi": by(str(hi))}


def tyrec(ty, comps):
    """The specification's view of a type."""
    if ty in ("str", "datetime"):
        return {"t": "str"}
    if ty == "uuid":
        return {"t": "uuid"}
    if ty in RANGE:
        return intrec(ty)
    if ty in ("f64", "f32"):
        return {"t": "num"}
    if ty == "bool":
        return {"t": "bool"}
    if ty.startswith("arr:"):
        return {"t": "arr", "items": tyrec(ty[4:], comps)}
    if ty.startswith("map:"):
        return {"t": "map", "items": tyrec(ty[4:], comps)}
    if ty.startswith("ref:"):
        return comps[ty[4:]]["tla"] if "tla" in comps[ty[4:]] else schrec(comps[ty[4:]]["schema"], comps)
    return ANY


def schrec(s, comps):
    if "$ref" in s:
        return tyrec("ref:" + s["$ref"].split("/")[-1], comps)
    if "enum" in s:
        return {"t": "enum", "of": [by(x) for x in s["enum"]]}
    t = s.get("type")
    if t == "object" and "properties" in s:
        req = s.get("required", [])
        return {"t": "struct", "fields": [{"n": by(k), "ty": schrec(v, comps), "req": k in req}
                                          for k, v in s["properties"].items()]}
    if t == "object" and isinstance(s.get("additionalProperties"), dict):
        return {"t": "map", "items": schrec(s["additionalProperties"], comps)}
    if t == "array":
        return {"t": "arr", "items": schrec(s["items"], comps)}
    if t == "integer":
        return intrec({"int32": "i32", "uint32": "u32", "uint64": "u64", "uint8": "u8"}.get(s.get("format"), "i64"))
    if t == "string" and s.get("format") == "uuid":
        return {"t": "uuid"}
    return {"t": {"string": "str", "number": "num", "boolean": "bool"}.get(t, "any")}


def status_rec(s):
    if s == "default":
        return {"k": "default", "n": 0}
    if s.upper().endswith("XX"):
        return {"k": "range", "n": int(s[0])}
    return {"k": "code", "n": int(s)}


BK = {"application/json": "json", "application/x-www-form-urlencoded": "form",
      "application/octet-stream": "bytes"}


def oprec(doc, o, path=None):
    comps = doc.get("components", {})
    b = o.get("body")
    ws = bool(o.get("websocket"))
    rs = [{"st": status_rec(r["status"]),
           "kind": ("upgrade" if ws and r["kind"] != "json" else r["kind"]),
           "ty": tyrec(r["ty"], comps) if r["kind"] == "json" else ANY} for r in o.get("responses", [])]
    # the client asks for JSON when it can be given JSON
    sk, ek = kinds(o)
    acc = sk == "json" or (sk == "none" and ek == "json")
    return {"path": by(path if path is not None else o["path"]), "method": o["method"].upper(), "ws": ws,
            "params": [{"n": by(p["name"]), "lname": by(p["name"].lower()), "in": p["in"],
                        "req": p["required"]} for p in o.get("params", [])],
            "body": {"k": "none", "ct": []} if not b else
                    {"k": BK.get(b["ct"].split(";")[0], "json" if "json" in b["ct"] else "text"),
                     "ct": by(b["ct"].split(";")[0].strip().lower())},
            "accept": acc, "acceptv": by("application/json"), "responses": rs}


NOBODY = {"k": "none", "json": tagged(None), "pairs": [], "bytes": [], "strict": False}


def bodyrec(o, v):
    b = o.get("body")
    if not b:
        return NOBODY
    k = BK.get(b["ct"].split(";")[0], "json" if "json" in b["ct"] else "text")
    r = dict(NOBODY, k=k)
    if k == "json":
        r["json"] = tagged(v)
    elif k == "form":
        r["pairs"] = [[by(n), by(x) if isinstance(x, str) else by("true" if x is True else "false" if x is False
                       else num(x))] for n, x in v.items() if x is not None]
    elif k == "bytes":
        r["bytes"] = list(v)
    else:
        r["bytes"] = by(v)
    return r


def reqev(r, seen):
    ok, tree = parse_json(r["body"])
    key = [bytes(v) for n, v in r["headers"] if n == "sec-websocket-key"]
    fresh = not key or key[0] not in seen
    seen.update(key)
    return {"e": "req", "method": r["method"], "target": r["target"],
            "headers": [[by(n), v] for n, v in r["headers"]],
            "body": r["body"], "complete": r["complete"], "jsonok": ok, "json": tree, "fresh": fresh,
            "marked": sum(1 for n, _ in r["headers"] if n == "x-hook-mark")}


def outev(o):
    o = dict(o)
    o.pop("msg", None)
    if "headers" in o:
        o["headers"] = [[by(n), v] for n, v in o["headers"]]
    if isinstance(o.get("value"), dict) and o["value"].get("k") == "json":
        o["value"] = {"k": "json", "v": tagged(o["value"]["v"])}
    o["e"] = "out"
    return o


# ------------------------------------------------------------------ answers
class Answer:
    """What the server does: script actions and the specification's view."""

    def __init__(self, acts, ans):
        self.acts, self.ans = acts, ans


def resp(status, body=b"", headers=(), framing="length", cut=None, reason="X", chunks=None, after=None,
         head_gate=False):
    """framing: length | chunked | close.  cut: number of body bytes after
    which the connection breaks (None: complete)."""
    body = bytes(body)
    hs = [(n, v.encode("utf8") if isinstance(v, str) else bytes(v)) for n, v in headers]
    extra = []
    if framing == "length":
        extra = [("content-length", str(len(body)).encode())]
    elif framing == "chunked":
        extra = [("transfer-encoding", b"chunked")]
    extra.append(("connection", b"close"))
    if framing == "none":
        extra = []
    head = b"HTTP/1.1 %d %s\r\n" % (status, reason.encode()) + \
        b"".join(n.encode() + b": " + v + b"\r\n" for n, v in hs + extra) + b"\r\n"
    sent = body if cut is None else body[:cut]
    acts = [{"bytes": list(head)}]
    complete = cut is None or framing == "close"
    parts = chunks or ([sent] if sent else [])
    if framing == "chunked":
        for p in parts:
            acts.append({"bytes": list(b"%x\r\n" % len(p) + p + b"\r\n")})
        if cut is None:
            acts.append({"bytes": list(b"0\r\n\r\n")})
    else:
        for p in parts:
            acts.append({"bytes": list(p)})
    if cut is not None:
        acts += after or []
    if status < 200 or status in (204, 304):
        sent, complete = b"", True
    ok, tree = parse_json(sent, True)
    return Answer(acts, {"k": "resp", "status": status,
                         "headers": [[by(n.lower()), list(v)] for n, v in hs + extra],
                         "body": list(sent), "complete": complete, "jsonok": ok, "json": tree})


def fail(acts):
    return Answer(acts, {"k": "fail"})


OKNULL = resp(200, b"null", [("content-type", "application/json")])


class Builder:
    """Collects scenarios with what is needed to make sessions of them."""

    def __init__(self):
        self.items = []
        self.seen = set()

    def add(self, api, doc, o, args=None, body=None, answer=OKNULL, base="", cfg=None, bad=(), body_bad=False,
            strict=False, extra=None, url=None, path=None, times=1, push=None):
        a = dict(args or {})
        if o.get("body") and not (body is None):
            a["body"] = body
        sc = {"api": api, "op": o["id"], "args": a, "base": base, "script": [answer.acts] * times}
        if url:
            sc["url"] = url
        if times > 1:
            sc["times"] = times
        sc.update(extra or {})
        b = bodyrec(o, body) if not body_bad else dict(NOBODY, k="bad")
        b["strict"] = strict
        s = {"base": by(base), "version": by(doc.get("version", "1.2.3")), "op": oprec(doc, o, path),
             "args": [dict(argval(p["ty"], (args or {}).get(p["name"]))) if p["name"] not in bad else
                      {"k": "bad", "s": [], "a": [], "m": []} for p in o.get("params", [])],
             "body": b, "cfg": cfg or NOCFG, "ans": answer.ans, "mayfail": answer.ans["k"] == "fail"}
        if push is not None:
            s["push"] = list(push)
        self.items.append((sc, s))

    def scenarios(self):
        return [x[0] for x in self.items]

    def sessions(self, obs):
        out = []
        self.index = []         # session -> scenario
        for n, ((sc, s), o) in enumerate(zip(self.items, obs)):
            evs = []
            tun = [e["bytes"] for e in o["log"] if e.get("e") == "tunnel"]
            push = s.get("push", [])
            sent = lambda v: dict(v, sent_by_server=push + (tun[0] if tun else []), server_received=tun.pop(0) if tun else [])

            def close(oe):
                if oe.get("k") == "panic" and str(oe.get("msg", "")).startswith("harness"):
                    from lib.core import ToolError
                    raise ToolError("%s in %s" % (oe["msg"], str(sc)[:500]))
                e = outev(oe)
                if isinstance(e.get("value"), dict) and e["value"].get("k") == "upgraded":
                    e["value"] = sent(e["value"])
                evs.append(e)
                out.append({k: v for k, v in dict(s, events=list(evs)).items() if k != "push"})
                self.index.append(n)
                evs.clear()
            for e in o["log"]:
                if e.get("e") == "out":
                    close(e)
                elif e.get("e") == "req":
                    if e.get("bad"):
                        evs.append({"e": "garbage"})
                    else:
                        evs.append(reqev(e, self.seen))
                elif e.get("e") == "hook":
                    evs.append(e)
            close(o["out"])
        return out
