"""Writes /verif/MANIFEST.json from the table below (run by hand after adding a check)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "model_checking"
CHECKS = json.load(open(os.path.join(V, "tools", "checks.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
m = {"version": 1, "setup_cmd": "python3 mc/setup.py",
     "hooks": {"guard": "--cfg thiserror_verif", "enable": "the HOST checks build impl/src/lib.rs as an ordinary library with RUSTFLAGS='--cfg thiserror_verif' (crates/host); the other checks use the crate as shipped",
               "source_commits": ["03b4b34"]},
     "checks": [], "not_applicable": []}
for p in props:
    c = CHECKS.get(p["id"])
    if c:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 mc/check.py %s --tier quick" % p["id"],
                            "thorough_cmd": "python3 mc/check.py %s --tier thorough" % p["id"], "technique": c["technique"],
                            "level": c.get("level", L), "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": "not claimed yet: its check is still being built"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
