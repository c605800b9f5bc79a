"""reg.py Cxx level technique note: register a check and rewrite MANIFEST.json."""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks.json")
c = json.load(open(p))
c[sys.argv[1]] = {"level": sys.argv[2], "technique": sys.argv[3], "note": sys.argv[4]}
json.dump(dict(sorted(c.items())), open(p, "w"), indent=1)
exec(open(os.path.join(os.path.dirname(p), "manifest.py")).read())
