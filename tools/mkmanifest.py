"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import core_checks
mods = [core_checks]
for m in ("net_checks", "local_checks", "sched_checks"):
    try:
        mods.append(__import__(m))
    except ImportError:
        pass
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if any(hasattr(m, i) for m in mods):
        n = NOTES[i]
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 tools/check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 tools/check.py " + i,
                           evidence_file="evidence/%s.json" % i, technique=n["technique"], level="model_checking", level_note=n["note"]))
    else:
        na.append(dict(property=i, reason="check under construction"))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
               notes="TLA+ specifications in spec/, checked with TLC and bound to the code by replaying their behaviours on it and validating the recorded traces. See DESIGN.md."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
