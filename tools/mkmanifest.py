"""properties.jsonl + lib/registry.py -> MANIFEST.json"""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import registry
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = registry.CHECKS.get(p["id"])
    if not c:
        na.append(dict(property=p["id"], reason="not built yet: its specification and conformance driver are in preparation"))
        continue
    ms = sorted({m["module"] for m in c["models"]})
    checks.append(dict(
        property=p["id"], quick_cmd="python3 check.py %s" % p["id"],
        thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % p["id"],
        technique="TLA+ specification: TLC model checking of %s, its behaviours replayed into the code, and TLC trace "
                  "validation of the recorded histories against %s" % (", ".join(ms) or "-", c["trace"]),
        level="model_checking",
        level_note="The laws are checked exhaustively by TLC within the bounds of the model; the binding to the code is "
                   "by replaying TLC's behaviours (all, or a seeded sample where there are too many) and seeded random "
                   "histories, every recorded step judged by TLC against the specification. Assumes the drivers report "
                   "the public API's answers faithfully; inputs beyond the generated ones are not covered."))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="TLA+ checked with TLC; see DESIGN.md. No hooks in /repo: checks use the public API only."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
