"""Regenerates MANIFEST.json from properties.jsonl and the check modules present."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
NOTE = ("static analysis: abstract interpretation (forward value-flow over the syntax tree, opaque operands, all branch partitions) of the current source text; "
        "no repository code is executed and no solver is used")
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if os.path.exists(os.path.join(V, "sa", "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": NOTES.get(i, {}).get("technique", NOTE), "level": "other", "level_note": NOTES.get(i, {}).get("note", NOTE)})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
