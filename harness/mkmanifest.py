"""Writes MANIFEST.json from properties.jsonl, the registered checks and the
notes below (run by hand)."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import checks

VERIF = checks.common.VERIF
TECH = "TLA+ specification model-checked with TLC; executions of the real code validated against it as traces"
props = [json.loads(line) for line in open(os.path.join(VERIF, "properties.jsonl"))]
entries, na = [], []
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        entries.append(dict(
            property=i, quick_cmd=f"VERIF_TIER=quick python3 harness/run.py {i}",
            thorough_cmd=f"VERIF_TIER=thorough python3 harness/run.py {i}",
            technique=checks.TECHNIQUE.get(i, TECH), level=checks.CHECKS[i][1],
            level_note=checks.NOTES[i]))
    else:
        na.append(dict(property=i, reason=checks.NOT_APPLICABLE.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 harness/setup.py", checks=entries, not_applicable=na,
         notes="All checks import the code from /repo's working tree (editable installs of the sandbox); nothing is compiled from it. DESIGN.md describes the specifications and drivers.")
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(entries), "checks,", len(na), "not applicable")
