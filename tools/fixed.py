"""fixed.py Cxx case commit text: record a repaired defect."""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(p))
k.insert(len([x for x in k if x["status"] == "fixed"]), {"property": sys.argv[1], "status": "fixed", "case": sys.argv[2], "what": "fixed: property=%s %s %s" % (sys.argv[1], sys.argv[3], sys.argv[4])})
json.dump(k, open(p, "w"), indent=1, ensure_ascii=False)
