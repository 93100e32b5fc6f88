"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
exec(open(os.path.join(ROOT, "tools", "techniques.py")).read(), TECH)
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(ROOT, "checks", p.lower() + ".py")) and p in TECH["T"]:
        tech, note = TECH["T"][p]
        checks.append({"property": p, "quick_cmd": "./run.sh %s quick" % p, "thorough_cmd": "./run.sh %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": "exploration",
                       "level_note": note})
    else:
        na.append({"property": p, "reason": TECH["NA"].get(p, "its check is not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na, "notes": TECH["NOTES"]}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", [x["property"] for x in na], "not claimed")
