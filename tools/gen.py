"""Writes properties.jsonl and MANIFEST.json from the tables beside this file."""
import glob, importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
props = []
for f in sorted(glob.glob(here + "/props_*.py")):
    m = importlib.import_module(os.path.basename(f)[:-3])
    props += getattr(m, os.path.basename(f)[6:-3].upper())
root = os.path.dirname(here)
with open(root + "/properties.jsonl", "w") as o:
    for p in props:
        o.write(json.dumps(p, ensure_ascii=False) + "\n")
notes = importlib.import_module("claims")
checks = []
for p in props:
    if p["id"] not in notes.CLAIMS: continue
    tech, note = notes.CLAIMS[p["id"]]
    checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} --tier quick", "thorough_cmd": f"./check.sh {p['id']} --tier thorough", "technique": tech, "level": "exploration", "level_note": note})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": notes.NOT_APPLICABLE, "notes": notes.NOTES}, open(root + "/MANIFEST.json", "w"), indent=1)
