#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
table, notes, reasons = {}, {}, {}
for p in sorted(glob.glob(os.path.join(V, "lib", "props_*.py"))):
    m = importlib.import_module(os.path.basename(p)[:-3])
    table.update(m.CHECKS)
    notes.update(getattr(m, "NOTES", {}))
na = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, out = [], []
for p in props:
    i = p["id"]
    if i in table:
        n, t = notes.get(i, ("", ""))
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": t or "TLA+ specification model-checked with TLC; TLC-generated behaviours replayed in the real code and its recorded traces validated against the specification",
                       "level": "model_checking", "level_note": n})
    else:
        out.append({"property": i, "reason": na.get(i, "not yet covered: the check is being built")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": out,
           "notes": "Specifications in spec/, harnesses in harness/, machinery in lib/. See DESIGN.md."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
