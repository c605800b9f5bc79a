#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]"""
import importlib
import json
import os
import sys
import tempfile
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core  # noqa: E402


def replay(path):
    ctx = None
    for line in open(path):
        if line.startswith("//@ctx "):
            ctx = json.loads(line[7:])
    if ctx is None:
        print("see the header of %s" % path)
        return 2
    base = core.Base(ctx["kind"], ctx["toolchain"]).build()
    with tempfile.TemporaryDirectory() as d:
        exe = os.path.join(d, "replay")
        ok, diags = base.rustc(path, exe, ctx["args"], ctx["edition"], ctx["externs"])
        for x in diags:
            print(x.get("rendered") or x.get("message"))
        if not ok:
            return 1
        env = core.clean_env(**ctx["env"])
        p = core.subprocess.run([exe], env=env, stdout=core.subprocess.PIPE, text=True)
        print(p.stdout)
        return 1 if "MISMATCH" in p.stdout or p.returncode else 0


def main():
    a = sys.argv[1:]
    prop, tier = a[0], None
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--replay" in a:
        sys.exit(replay(a[a.index("--replay") + 1]))
    try:
        m = importlib.import_module("mc." + prop.lower())
        rc = m.run(tier)
    except core.MachineryError as e:
        print("ERROR %s: %s" % (prop, e), file=sys.stderr)
        sys.exit(3)
    except Exception:
        traceback.print_exc()
        sys.exit(3)
    sys.exit(rc)


main()
