"""writes MANIFEST.json from the list of claimed properties (and contracts/levels)"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
LEVEL = json.load(open(os.path.join(HERE, "kit", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    l = LEVEL[i]
    if l.get("na"):
        na.append({"property": i, "reason": l["na"]})
        continue
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": l["technique"], "level": l["level"], "level_note": l["note"]})
json.dump({"version": 1, "setup_cmd": "python3 -c \"import json; json.load(open('MANIFEST.json'))\"", "checks": checks, "not_applicable": na,
           "notes": "Every run regenerates the obligations from /repo/src (mechanical AST instrumentation at import, engine/instrument.py). See DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
