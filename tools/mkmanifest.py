#!/usr/bin/env python3
# Source of MANIFEST.json (python3 tools/mkmanifest.py rewrites it) from properties.jsonl and checks.py.
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS, NOTES
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {}
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "hooks": {"guard": "VERIF_HOOKS", "enable": "none needed: no hook has been added to /repo; the checks observe the public interface of the real code compiled with sanitizers and stand-in headers", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        fl = sorted(set(q["flavour"] for q in c["programs"]))
        tech = NOTES[i][0]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py check %s --tier quick" % i, "thorough_cmd": "python3 run.py check %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": c["level"], "level_note": NOTES[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print("%d checks, %d not applicable" % (len(m["checks"]), len(m["not_applicable"])))
