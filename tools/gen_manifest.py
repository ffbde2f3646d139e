#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = json.load(open(V + "/contracts/properties.json"))
allp = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for p in allp:
    if p in P["properties"]:
        d = P["properties"][p]
        checks.append(dict(property=p, quick_cmd="python3 bin/check.py %s --tier quick" % p, thorough_cmd="python3 bin/check.py %s --tier thorough" % p,
            technique=d.get("technique", "contract-based deductive verification of the real functions (Verus), failed obligations replayed on the real code"),
            level=d.get("level", "proof"), level_note=d["note"]))
na = [dict(property=p, reason=P["not_applicable"].get(p, "no contract for it yet")) for p in allp if p not in P["properties"]]
m = dict(version=1, setup_cmd="bash bin/setup.sh", checks=checks, not_applicable=na,
    notes="No hooks in /repo: the probes of the replay engine are appended to a copy of the sources under /verif/build. Known findings and fixes: known-findings.txt.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
