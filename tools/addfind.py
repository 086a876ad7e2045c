"""tools/addfind.py id property commit text...: records a repaired defect in known_findings.json"""
import json, sys
i, p, c = sys.argv[1:4]
f = "/verif/known_findings.json"
d = json.load(open(f))
d["findings"] = [x for x in d["findings"] if x["id"] != i] + [dict(id=i, property=p, status="fixed", commit=c, what=f"fixed: property={p} {c} " + " ".join(sys.argv[4:]))]
json.dump(d, open(f, "w"), indent=1)
open(f, "a").write("\n")
