"""bug.py SPEC.py [check ids | -]: plants the bug described in SPEC.py, confirms it, runs checks.

A spec defines: id, prop, edits = [(file, old, new)], needs, breaks, and demo (main.rs text)
or script (demo.sh text); optionally toolchain, features, edition, extra (more files).
Writes /verif/seeded/<id>/ when the bug compiles, passes the stable tests and its demo
fails only with it. /repo is restored in any case."""
import json, os, subprocess, sys, shutil

REPO, VERIF = "/repo", "/verif"
TEMPLATE = '''#!/bin/bash
# cwd: the repository. Exit 0: behaves as promised.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH="$PATH:/root/.cargo/bin" CARGO_NET_OFFLINE=true%(env)s
unset RUSTFLAGS CARGO_TARGET_DIR
d=$(mktemp -d) || exit 0
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "%(edition)s"
[dependencies]
thiserror = { path = "$repo"%(features)s }
[workspace]
END
cd "$d" && cargo %(toolchain)srun --offline --quiet
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def tests():
    b = sh("bash /opt/vp/build.sh")
    if b.returncode:
        return "build: " + b.stdout[-1500:]
    sh("bash /opt/vp/test.sh /tmp/bug-out.json")
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    passed = set(json.load(open("/tmp/bug-out.json"))["passed"])
    miss = [t for t in stable if t not in passed]
    return "tests fail: %s" % miss[:6] if miss else None


def main():
    s = {}
    exec(open(sys.argv[1]).read(), s)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty /repo"
    d = os.path.join(VERIF, "seeded", s["id"])
    tmp = "/tmp/bug-" + s["id"]
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    if "script" in s:
        open(tmp + "/demo.sh", "w").write(s["script"])
    else:
        open(tmp + "/demo.sh", "w").write(TEMPLATE % {"edition": s.get("edition", "2021"), "features": s.get("features", ""), "toolchain": s.get("toolchain", "") and "+" + s["toolchain"] + " ", "env": s.get("env", "")})
        open(tmp + "/main.rs", "w").write(s["demo"].lstrip())
    for n, t in s.get("extra", {}).items():
        open(os.path.join(tmp, n), "w").write(t)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
    try:
        r = sh("bash %s/demo.sh" % tmp, cwd=REPO)
        if r.returncode:
            print("DEMO FAILS ON THE UNCHANGED TREE:", r.stdout[-1500:])
            return 1
        for f, old, new in s["edits"]:
            p = os.path.join(REPO, f)
            t = open(p).read()
            assert t.count(old) == 1, "%d matches in %s for %r" % (t.count(old), f, old)
            open(p, "w").write(t.replace(old, new))
        open(tmp + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        t = tests()
        if t:
            print("NOT SILENT:", t)
            return 1
        r = sh("bash %s/demo.sh" % tmp, cwd=REPO)
        if r.returncode == 0:
            print("DEMO DOES NOT FAIL WITH THE BUG", r.stdout[-500:])
            return 1
        print("bug confirmed; demo:", r.stdout.strip().splitlines()[-1:] )
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(tmp, d)
        checks = sys.argv[2:] or [s["prop"]]
        for c in checks:
            if c == "-":
                continue
            r = sh("python3 mc/check.py %s" % c, cwd=VERIF)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print("%s: exit %d, %d VIOLATION lines%s" % (c, r.returncode, len(v), "" if r.returncode == 1 else "  <<<<< MISSED"))
            if r.returncode not in (0, 1):
                print(r.stdout[-800:])
            elif v:
                print("   ", "\n    ".join(l[:300] for l in r.stdout.splitlines() if l.startswith("  "))[:600])
    finally:
        sh("git -C /repo checkout -- .")
        shutil.rmtree(tmp, ignore_errors=True)


sys.exit(main())
