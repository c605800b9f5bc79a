"""prop.py Cxx key <<< text: replace the statement/title of a property."""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
rows = [json.loads(l) for l in open(p)]
for r in rows:
    if r["id"] == sys.argv[1]:
        r[sys.argv[2]] = sys.stdin.read().strip()
open(p, "w").write("".join(json.dumps(r, ensure_ascii=False) + "\n" for r in rows))
