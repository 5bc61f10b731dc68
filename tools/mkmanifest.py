#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a check file is claimed."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("TLA+ model (Template, Request) checked by TLC; TLC-enumerated path values replayed through the real encoder and generated clients, requests validated as traces", "design exhaustive over hot alphabets; implementation on sampled templates and values"),
 "C02": ("TLA+ model of query expansion checked by TLC; enumerated value shapes replayed through QueryParam and generated clients, query strings validated as traces", "value shapes exhaustive to a depth, then random"),
 "C03": ("TLA+ Request specification; recorded requests of generated clients for every verb and media type validated as traces", "sampled body values"),
 "C04": ("TLA+ Request specification checked by TLC; recorded requests with enumerated header argument combinations validated as traces", "sampled header values"),
 "C05": ("TLA+ Call specification checked by TLC over all declared response sets and answers; the sets are generated into real clients and their outcomes validated as traces", "all dispatch shapes of the model; sampled statuses and faults on the implementation"),
 "C06": ("TLA+ Call and RespValue specifications checked by TLC; recorded outcomes and operation histories validated as traces", "all histories to a bound; sampled payloads"),
}
T.update(json.load(open(os.path.join(R, "tools", "techniques.json"))) if os.path.exists(os.path.join(R, "tools", "techniques.json")) else {})
props = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
NA = {}
for p in props:
    if os.path.exists(os.path.join(R, "checks", p.lower() + ".py")) and p in T:
        checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p,
                       "thorough_cmd": "python3 check.py %s thorough" % p, "technique": T[p][0],
                       "level": "model_checking", "level_note": T[p][1]})
    else:
        na.append({"property": p, "reason": NA.get(p, "check not finished yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Every check rebuilds progenitor-client, progenitor-impl (against stand-ins for the unavailable git dependency typify) and the generated clients from /repo's working tree."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
