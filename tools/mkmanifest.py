"""Writes MANIFEST.json from contracts/info.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, "/verif")
from contracts import info
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("/verif/contracts/%s.py" % i.lower()) and os.path.exists("/verif/replay/%s.py" % i.lower()):
        checks.append({"property": i, "quick_cmd": "python3-vt check.py %s" % i,
                       "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py %s" % i,
                       "technique": "contract-based deductive verification: obligations generated from the current source, discharged by z3/cvc5; counter-models replayed on the real code",
                       "level": info.LEVEL.get(i, "proof"),
                       "level_note": info.NOTE.get(i, info.NOTE_DEFAULT)})
    else:
        na.append({"property": i, "reason": info.NA.get(i, "check under construction")})
json.dump({"version": 1, "setup_cmd": "python3-vt -m compileall -q pyvc contracts replay >/dev/null 2>&1 || true", "checks": checks, "not_applicable": na}, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [n["property"] for n in na])
