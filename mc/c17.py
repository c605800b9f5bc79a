"""C17: the build script and the cfgs it sets.

Three explorations:
 A. the real build script against a compiler stand-in, for every combination of what its
    environment can answer (and for two-step histories with interruptions on one OUT_DIR);
 B. the real build script with every installed compiler; the library is then built with
    the cfgs that it printed;
 C. the library in every state of those cfgs, with programs that use it."""
import itertools
import json
import multiprocessing
import os
import re
import shutil
import subprocess
from mc.core import Check, Prog, MachineryError, Base, REPO, VERIF, STABLE, NIGHTLY, clean_env, log, rust_str
import concurrent.futures as cf

UNSET = None
BOOT = [UNSET, "1", "0", "", "thiserror", "other,thiserror", "other", "-1", b"\xff1"]
CLASSES = ["nightly", "stable", "old", "crash", "killed", "stablekilled", "missing", "notexec"]
WRAP = [UNSET, "", "wrapok", "wrapfails", "wrapmissing"]
OUTS = ["fresh", "stale", "staledeep", "nonexistent", "file"]
FLAGS = [UNSET, "", "-Zx", "--cfg\x1fa=\"b c\"\x1f-C\x1flinker=x"]
VERSIONS = ["rustc 1.61.0 (fe5b13d68 2022-05-18)\n", "rustc 1.64.0 (a55dd71d5 2022-09-19)\n", "rustc 1.65.0 (897e37553 2022-11-02)\n", "rustc 1.66.0\n",
            "rustc 1.80.1 (3f5fd8dd4 2024-08-06)\n", "rustc 1.81.0 (eeb90cda1 2024-09-04)\n", "rustc 1.82.0-nightly (x 2024-08-01)\n", "rustc 1.80.0-nightly (x)\n", "rustc 1.64.0-beta.3\n",
            "rustc 1.80.0-dev\n", "rustc 1.99.1\n", "rustc 1.100.0\n", "rustc 1.641.0\n",
            "rustc 2.0.0\n", "rustc 2.64.0\n", "rustc 11.64.0\n", "rustc 1\n", "rustc 1.\n", "rustc 1.x.0\n", "rustc 1.99999999999.0\n", "rustc 1.-64.0\n", "", "\n", "clippy 1.64.0\n", "clippy-driver 0.1.64\n",
            b"rustc 1.\xff64.0\n", b"\xff\xfe\n", b"rustc 1.80.0 (\xff)\n", "rustc  1.64.0\n", " rustc 1.64.0\n", "x" * 4000]


def accepts(cls, boot):
    """What the stand-in compiler says about the probe under this RUSTC_BOOTSTRAP."""
    if cls == "nightly":
        return boot != "-1"
    if cls in ("stable", "stablekilled"):
        b = boot.decode("latin1") if isinstance(boot, bytes) else boot
        return b is not None and (b == "1" or "thiserror" in b.split(","))
    return False


class World:
    def __init__(self, work, scripts, fake):
        self.dir = work
        self.scripts = scripts
        self.bin = os.path.join(work, "bin")
        os.makedirs(self.bin)
        for n in ("rustc", "wrapok", "wrapfails", "wrapalso"):
            os.link(fake, os.path.join(self.bin, n))
        open(os.path.join(self.bin, "notexec"), "w").write("x")
        self.out = os.path.join(work, "out")
        self.log = os.path.join(work, "log")
        self.ver = os.path.join(work, "ver")
        os.makedirs(os.path.join(work, "pkg", "build"))
        shutil.copy(os.path.join(REPO, "build", "probe.rs"), os.path.join(work, "pkg", "build", "probe.rs"))
        self.learn()

    def learn(self):
        """Where below OUT_DIR the script works, if it is the same place each time."""
        self.sub, seen = None, []
        for _ in range(2):
            self.reset("fresh")
            calls = self.run(dict(cls="nightly"))[3]
            dirs = [a for c in calls if c[0] == "rustc" for a in itertools.chain(
                (c[i + 1] for i, x in enumerate(c[:-1]) if x in ("--out-dir", "-o")),
                (x.split("=", 1)[1] for x in c if x.startswith("--out-dir=")))]
            seen.append({os.path.relpath(d, self.out).split("/")[0] for d in dirs if d.startswith(self.out + "/")})
        if seen[0] == seen[1] and len(seen[0]) == 1:
            self.sub = seen[0].pop()

    def reset(self, how):
        if os.path.isdir(self.out):
            shutil.rmtree(self.out)
        if how == "nonexistent":
            return
        os.mkdir(self.out)
        if self.sub is None:
            return
        p = os.path.join(self.out, self.sub)
        if how in ("stale", "staledeep"):
            os.mkdir(p)
            open(os.path.join(p, "thiserror.d"), "w").write("x")
        if how == "staledeep":
            os.makedirs(os.path.join(p, "a", "b"))
            open(os.path.join(p, "a", "b", "c"), "w").write("x")
            os.symlink("/nonexistent", os.path.join(p, "dangling"))
        if how == "file":
            open(p, "w").write("x")

    def run(self, s):
        """s: dict(std, stage, boot, cls, w1, w2, flags, target, mess, version, vstatus, kill, norustc, noout)"""
        env = {b"PATH": b"/nonexistent"}
        def put(k, v):
            if v is not None:
                env[k.encode()] = v if isinstance(v, bytes) else v.encode()
        cls = s["cls"]
        if not s.get("norustc"):
            put("RUSTC", os.path.join(self.bin, {"missing": "missing", "notexec": "notexec"}.get(cls, "rustc")))
        if not s.get("noout"):
            put("OUT_DIR", self.out)
        put("RUSTC_STAGE", s.get("stage"))
        put("RUSTC_BOOTSTRAP", s.get("boot"))
        for k, n in (("RUSTC_WRAPPER", "w1"), ("RUSTC_WORKSPACE_WRAPPER", "w2")):
            w = s.get(n)
            put(k, os.path.join(self.bin, w) if w else w)
        put("CARGO_ENCODED_RUSTFLAGS", s.get("flags"))
        put("TARGET", s.get("target"))
        put("MC_CLASS", cls)
        put("MC_MESS", s.get("mess", "1"))
        put("MC_LOG", self.log)
        put("MC_VERSION_FILE", self.ver)
        put("MC_VERSION_STATUS", s.get("vstatus"))
        put("MC_KILL", s.get("kill"))
        v = s.get("version", "rustc 1.99.1 (x)\n")
        if getattr(self, "have", None) != v:
            open(self.ver, "wb").write(v if isinstance(v, bytes) else v.encode())
            self.have = v
        if os.path.exists(self.log):
            os.remove(self.log)
        before = os.listdir(self.out) if os.path.isdir(self.out) else []
        try:
            p = subprocess.run([self.scripts[s.get("std", True)]], env=env, cwd=os.path.join(self.dir, "pkg"), stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        except subprocess.TimeoutExpired:
            return "timeout", "", "", [], []
        calls = []
        before = before if self.sub is None else []
        if os.path.exists(self.log):
            calls = [l.split("\x1f") for l in open(self.log, encoding="latin1").read().split("\n")[:-1]]
        left = sorted(x for x in os.listdir(self.out) if x not in before) if os.path.isdir(self.out) else []
        return p.returncode, p.stdout.decode("latin1"), p.stderr.decode("latin1"), calls, left

    def judge(self, s, out, res):
        """-> list of complaints"""
        rc, so, se, calls, left = res
        bad = []
        if rc == "timeout":
            return ["does not end within 60 s"]
        if rc not in (0, 1):
            return ["ends with status %s: %s" % (rc, se[-200:])]
        usable = out in ("fresh", "stale", "staledeep")
        stage = s.get("stage") is not None
        may_fail = s.get("norustc") or (s.get("noout") or not usable) and not stage
        must_fail = s.get("norustc") or (s.get("noout") or out == "nonexistent") and not stage and s.get("boot") != "-1"
        if rc == 1:
            if not may_fail:
                return ["fails: %s" % se[-200:]]
            if not se.strip():
                bad.append("fails without a message")
            return bad
        if must_fail:
            return ["succeeds without RUSTC or a usable OUT_DIR"]
        lines = so.splitlines()
        if not all(l.startswith("cargo:") for l in lines):
            bad.append("unexpected output: %r" % [l for l in lines if not l.startswith("cargo:")][:3])
        cfgs = sorted(l[len("cargo:rustc-cfg="):] for l in lines if l.startswith("cargo:rustc-cfg="))
        reruns = [l for l in lines if l.startswith("cargo:rerun-if-env-changed=")]
        cls = s["cls"]
        ok_wrappers = all(not s.get(w) or s[w] in ("wrapok", "wrapalso") for w in ("w1", "w2"))
        boot = s.get("boot")
        def answer(b):
            return not stage and ok_wrappers and usable and accepts(cls, b)
        want = answer(boot)
        if out != "file" and ("error_generic_member_access" in cfgs) != want:
            bad.append("error_generic_member_access is %s, expected %s" % ("error_generic_member_access" in cfgs, want))
        # rerun if RUSTC_BOOTSTRAP changes
        asks = "cargo:rerun-if-env-changed=RUSTC_BOOTSTRAP" in reruns
        others = [b for b in BOOT if b != "-1"]
        if boot == "-1":
            must = answer(None) != want or any(answer(b) != want for b in others)
        else:
            must = any(answer(b) != want for b in others)
        if must and not asks:
            bad.append("does not ask to be run again when RUSTC_BOOTSTRAP changes")
        if asks and (cls == "nightly" and want or cls == "old" and boot == "1"):
            bad.append("asks to be run again when RUSTC_BOOTSTRAP changes, though that cannot matter")
        if "cargo:rerun-if-changed=build/probe.rs" not in lines:
            bad.append("does not track build/probe.rs")
        declared = {m for l in lines for m in re.findall(r"^cargo:rustc-check-cfg=cfg\((\w+)\)$", l)}
        for c in cfgs:
            if c != 'feature="std"' and c not in declared:
                bad.append("cfg %s is not declared with check-cfg" % c)
        # version
        v = s.get("version", "rustc 1.99.1 (x)\n")
        minor = None
        if isinstance(v, str):
            m = re.match(r"rustc 1\.(\d{1,6})\.", v)
            minor = int(m.group(1)) if m else None
        runs = cls not in ("missing", "notexec")
        if runs and (minor is not None or True):
            known = minor if runs else None
            exp_std = known is not None and known < 81 and not s.get("std", True)
            exp_nobt = known is not None and known < 65
            free = s.get("vstatus") not in (None, "0") and minor is not None or isinstance(v, bytes)
            if not free:
                if ('feature="std"' in cfgs) != exp_std:
                    bad.append('feature="std" is %s, expected %s (%r)' % ('feature="std"' in cfgs, exp_std, v[:40]))
                if ("thiserror_no_backtrace_type" in cfgs) != exp_nobt:
                    bad.append("thiserror_no_backtrace_type is %s, expected %s (%r)" % ("thiserror_no_backtrace_type" in cfgs, exp_nobt, v[:40]))
        elif 'feature="std"' in cfgs or "thiserror_no_backtrace_type" in cfgs:
            bad.append("claims to know the version of a compiler that does not run")
        for c in cfgs:
            if c not in ("error_generic_member_access", 'feature="std"', "thiserror_no_backtrace_type"):
                bad.append("unexpected cfg %s" % c)
        # without a probe to run, what an earlier run was not able to remove stays
        if left and out != "file" and not stage and (s.get("boot") != "-1" or out == "fresh"):
            bad.append("leaves %s in OUT_DIR" % left)
        # how the compiler was asked
        probes = [c for c in calls if c[0] == "rustc"]
        if stage and calls:
            bad.append("runs the compiler inside of rustc's own bootstrap")
        for c in probes:
            args = c[2:]
            t = s.get("target")
            pos = [i for i, a in enumerate(args) if a == "--target"]
            if isinstance(t, str) and not (pos and args[pos[0] + 1] == t):
                bad.append("probes for another target: %s" % args)
            if t is None and pos:
                bad.append("probes with --target though Cargo set none: %s" % args)
            fl = s.get("flags")
            if isinstance(fl, str):
                want_fl = fl.split("\x1f") if fl else []
                n = len(want_fl)
                if n and not any(args[i:i + n] == want_fl for i in range(len(args))):
                    bad.append("probes without the flags of the build: %s" % args)
        ws = [s[w] for w in ("w1", "w2") if s.get(w)]
        chain = [c for c in calls if c[0] != "rustc"]
        if len(ws) == 2 and ok_wrappers and runs and calls:
            if [c[0] for c in calls[:3]] != ws + ["rustc"]:
                bad.append("wrappers run in the order %s" % [c[0] for c in calls[:3]])
        elif len(ws) == 1 and ok_wrappers and runs and calls:
            if [c[0] for c in calls[:2]] != ws + ["rustc"]:
                bad.append("wrapper is not used: %s" % [c[0] for c in calls[:2]])
        elif not ws and chain:
            bad.append("unexpected wrapper")
        return bad


def name_of(s, out):
    return "/".join("%s=%r" % (k, s[k]) for k in sorted(s)) + "/out=" + out


def worker(job):
    work, scripts, fake, cases = job
    w = World(work, scripts, fake)
    res, n = [], 0
    outcomes = set()
    for case in cases:
        if case[0] == "one":
            _, s, out = case
            w.reset(out)
            r = w.run(s)
            n += 1
            outcomes.add((r[0], r[1]))
            for b in w.judge(s, out, r):
                res.append((name_of(s, out), b, repr(r)[:1500]))
        else:
            # a history: several runs on the same OUT_DIR, some of them interrupted
            _, steps = case
            w.reset("fresh")
            for i, s in enumerate(steps):
                r = w.run(s)
                n += 1
                outcomes.add((r[0], r[1]))
                if s.get("kill") and r[0] == -9:
                    continue
                for b in w.judge(s, "stale" if i else "fresh", r):
                    res.append(("history/" + " then ".join(name_of(x, "") for x in steps[:i + 1]), b, repr(r)[:1500]))
    shutil.rmtree(work)
    return res, n, outcomes


def stand_in_cases(c):
    stages = [UNSET, "", "1"]
    big = c.thorough

    def main_product(ch):
        s = dict(stage=ch(stages if big else [UNSET, "1"]), boot=ch(BOOT), cls=ch(CLASSES), w1=ch(WRAP if big else [UNSET, "", "wrapok"]),
                 w2=ch([UNSET, "", "wrapalso", "wrapfails"] if big else [UNSET, "wrapalso"]), mess=ch(["0", "1", "2"] if big else ["1"]), std=ch([True, False] if big else [False]))
        return ("one", s, ch(OUTS if big else ["fresh", "stale"]))

    def dirs(ch):
        return ("one", dict(boot=ch([UNSET, "1", "-1"]), cls=ch(CLASSES), mess=ch(["0", "1", "2"]), stage=ch(stages), std=ch([True, False])), ch(OUTS))

    def wrappers(ch):
        return ("one", dict(boot=ch([UNSET, "1"]), cls=ch(["nightly", "stable", "missing"]), w1=ch(WRAP), w2=ch([UNSET, "", "wrapalso", "wrapfails", "wrapmissing"]),
                            flags=ch(FLAGS), target=ch([UNSET, "x86_64-unknown-linux-gnu", "thumbv7em-none-eabi"])), "fresh")

    def versions(ch):
        return ("one", dict(version=ch(VERSIONS), vstatus=ch([UNSET, "1", "101"]), cls=ch(CLASSES if big else ["nightly", "stable", "old", "missing"]), std=ch([True, False]),
                            boot=ch([UNSET, "1"]), stage=ch([UNSET, "1"])), "fresh")

    def minors(ch):
        m = ch(range(0, 130))
        return ("one", dict(version="rustc 1.%d.%s" % (m, ch(["0\n", "1 (abc 2024-01-01)\n", "0-nightly (abc 2024-01-01)\n"])), cls="stable", std=ch([True, False])), "fresh")

    def absent(ch):
        return ("one", dict(norustc=ch.flag(), noout=ch.flag(), stage=ch(stages), cls=ch(["nightly", "old"]), boot=ch([UNSET, "1"]), flags=ch([UNSET, b"\xff"]), target=ch([UNSET, b"\xfe"])), ch(["fresh", "nonexistent"]))

    step = [dict(boot=b, cls=k, mess="2", kill=x) for b in (UNSET, "1", "-1") for k in ("nightly", "stable", "old") for x in (UNSET, "1", "2")]

    def history(ch):
        n = ch([2, 3] if big else [2])
        steps = [dict(ch(step)) for _ in range(n)]
        return ("history", steps)
    out = []
    for f in (main_product, dirs, wrappers, versions, minors, absent, history):
        k = len(out)
        out += c.explore(f)
        log("[C17] %s: %d" % (f.__name__, len(out) - k))
    return out


# ---- B: real compilers -------------------------------------------------------------

REAL_BOOT = [UNSET, "1", "0", "", "thiserror", "other,thiserror", "thiserror,other", "other", "-1"]
# What the derived code and the library need; written independently of build/probe.rs.
NEEDS = """#![no_std]
#![feature(error_generic_member_access)]
extern crate core as c;
pub struct W(u8);
impl c::fmt::Debug for W { fn fmt(&self, _: &mut c::fmt::Formatter<'_>) -> c::fmt::Result { Ok(()) } }
impl c::fmt::Display for W { fn fmt(&self, _: &mut c::fmt::Formatter<'_>) -> c::fmt::Result { Ok(()) } }
impl c::error::Error for W { fn provide<'a>(&'a self, r: &mut c::error::Request<'a>) { r.provide_ref::<u8>(&self.0); r.provide_value::<u8>(self.0); } }
pub fn ask<'a>(e: &'a (dyn c::error::Error + 'static)) -> Option<&'a u8> { c::error::request_ref::<u8>(e) }
"""
USER = """%s
mod thiserror_user {
#[derive(::thiserror::Error, Debug)] #[error("{0}")] pub struct A(pub u8);
#[derive(::thiserror::Error, Debug)] pub enum B { #[error("b: {a}")] X { #[from] a: A %s }, #[error(transparent)] Y(A), #[error("{}", .0.len())] Z(&'static str) }
#[derive(::thiserror::Error, Debug)] #[error("c")] pub struct C { #[source] pub b: Box<dyn ::std::error::Error + Send + Sync + 'static> }
}
use thiserror_user::*;
fn main() {
    use ::std::error::Error;
    let b: B = A(3).into();
    assert_eq!(b.to_string(), "b: 3");
    assert_eq!(b.source().unwrap().to_string(), "3");
    let y = B::Y(A(4));
    assert_eq!(y.to_string(), "4");
    assert!(y.source().is_none());
    assert_eq!(B::Z("ab").to_string(), "2");
    let c = C { b: Box::new(y) };
    assert_eq!(c.source().unwrap().to_string(), "4");
    %s
}
"""


def toolchains():
    p = subprocess.run(["rustup", "toolchain", "list"], env=clean_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    ts = [l.split()[0].replace("-x86_64-unknown-linux-gnu", "") for l in p.stdout.splitlines() if l.strip()]
    want = ["stable", "nightly", "nightly-2025-05-01"]
    ts = [t for t in ts if t] or want
    return sorted(set(ts) | set(want))


def compile_(tool, args, boot, cwd):
    env = clean_env(RUSTUP_TOOLCHAIN=tool)
    if boot is not None:
        env["RUSTC_BOOTSTRAP"] = boot
    p = subprocess.run(["rustc"] + args, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200)
    return p.returncode, p.stderr


def build_scripts(c, tool, where):
    """The build script in both states of the std feature."""
    out = {}
    for std in (True, False):
        exe = os.path.join(where, "build-%s-%s" % (tool, "std" if std else "nostd"))
        rc, err = compile_(tool, ["--edition=2021", "--crate-name=build_script_build", os.path.join(REPO, "build.rs"), "-Awarnings", "-o", exe] + (["--cfg", 'feature="std"'] if std else []), None, where)
        if rc:
            raise MachineryError("compiling build.rs: " + err[-2000:])
        out[std] = exe
    return out


def build_library(tool, so, cfgs, boot, where, name="thiserror"):
    """src/lib.rs as Cargo compiles it. -> (ok, message, path)"""
    os.makedirs(where, exist_ok=True)
    args = ["--edition=2021", "--crate-name=" + name, "--crate-type=rlib", os.path.join(REPO, "src", "lib.rs"), "--out-dir", where, "--extern", "thiserror_impl=" + so,
            "--cap-lints=allow", "-Cdebuginfo=0"]
    for f in cfgs:
        args += ["--cfg", f]
    rc, err = compile_(tool, args, boot, where)
    return rc == 0, err, os.path.join(where, "lib%s.rlib" % name)


def real(c):
    tools = toolchains()
    c.bases_parallel(*[("std", t) for t in tools])
    so = {t: c.bases["std", t].macro for t in tools}
    pkg = os.path.join(c.work, "pkg")
    os.makedirs(os.path.join(pkg, "build"))
    shutil.copy(os.path.join(REPO, "build", "probe.rs"), os.path.join(pkg, "build", "probe.rs"))
    with cf.ThreadPoolExecutor(8) as ex:
        scripts = dict(zip(tools, ex.map(lambda t: build_scripts(c, t, c.work), tools)))
    rustc = {t: subprocess.run(["rustup", "which", "rustc", "--toolchain", t], env=clean_env(), stdout=subprocess.PIPE, text=True).stdout.strip() for t in tools}
    needs = os.path.join(c.work, "needs.rs")
    open(needs, "w").write(NEEDS)
    cases = list(c.explore(lambda ch: (ch(tools), ch(REAL_BOOT), ch([True, False]))))

    def one(case):
        t, boot, std = case
        name = "real/%s/RUSTC_BOOTSTRAP=%s/%s" % (t, boot, "std" if std else "nostd")
        w = os.path.join(c.work, re.sub(r"[^\w.-]", "_", name))
        out = os.path.join(w, "out")
        os.makedirs(out)
        env = clean_env(RUSTC=rustc[t], OUT_DIR=out, TARGET="x86_64-unknown-linux-gnu", RUSTUP_TOOLCHAIN=t)
        if boot is not None:
            env["RUSTC_BOOTSTRAP"] = boot
        p = subprocess.run([scripts[t][std]], env=env, cwd=pkg, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200)
        if p.returncode:
            return [(name, "the build script fails", p.stderr)]
        res = []
        cfgs = [l[len("cargo:rustc-cfg="):] for l in p.stdout.splitlines() if l.startswith("cargo:rustc-cfg=")]
        if std:
            cfgs.append('feature="std"')
        egma = "error_generic_member_access" in cfgs
        rc, _ = compile_(t, ["--edition=2021", "--crate-name=thiserror", "--crate-type=lib", "--emit=metadata", "--cap-lints=allow", "-o", os.path.join(w, "needs.rmeta"), needs], boot, w)
        if (rc == 0) != egma:
            res.append((name, "error_generic_member_access is %s, but the compiler %s it" % (egma, "supports" if rc == 0 else "does not support"), p.stdout))
        if os.listdir(out):
            res.append((name, "leaves %s in OUT_DIR" % os.listdir(out), p.stdout))
        if "thiserror_no_backtrace_type" in cfgs or not std and 'feature="std"' in cfgs:
            res.append((name, "takes this compiler for an old one", p.stdout))
        ok, err, lib = build_library(t, so[t], cfgs, boot, w)
        if not ok:
            res.append((name, "thiserror does not compile with the cfgs that its build script chose", err[-3000:]))
        else:
            # the user's crate has its own name, and so its own permission to use features
            feats = egma and "feature=\"std\"" in cfgs and (t.startswith("nightly") or boot == "1")
            src, exe = os.path.join(w, "user.rs"), os.path.join(w, "user.exe")
            bt = ", backtrace: ::std::backtrace::Backtrace" if feats else ""
            open(src, "w").write(USER % ("#![feature(error_generic_member_access)]" if feats else "", bt,
                                         "assert!(::std::error::request_ref::<::std::backtrace::Backtrace>(&b).is_some());" if feats else ""))
            rc, err = compile_(t, ["--edition=2021", src, "-o", exe, "--extern", "thiserror=" + lib, "-L", "dependency=" + os.path.dirname(so[t]), "-Awarnings"], boot, w)
            if rc:
                res.append((name, "a program that uses thiserror does not compile", err[-3000:]))
            else:
                r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=clean_env(), timeout=60)
                if r.returncode:
                    res.append((name, "a program that uses thiserror fails", r.stderr[-1000:]))
        shutil.rmtree(w)
        return res
    with cf.ThreadPoolExecutor(8) as ex:
        for rs in ex.map(one, cases):
            c.cov["traces_validated_against_impl"] += 1
            for n, k, d in rs:
                c.direct_violation(n, k, [d[-600:]], "// %s\n// %s\n/*\n%s\n*/\n" % (n, k, d))
    log("[C17] %d combinations of real compilers, %d violations, %.0f" % (len(cases), len(c.violations), 0))
    return so


# ---- C: the library in every state of its cfgs --------------------------------------

FWD_TYPES = {"ans": ("Ans", "Ans::new(ON)"), "opt": ("Option<Ans>", "Some(Ans::new(ON))"), "box": ("Box<Ans>", "Box::new(Ans::new(ON))"), "arc": ("std::sync::Arc<Ans>", "std::sync::Arc::new(Ans::new(ON))"),
             "dyn": ("Box<dyn StdError + Send + Sync>", "Box::new(Ans::new(ON))"), "ref": ("&'static Ans", "Box::leak(Box::new(Ans::new(ON)))"), "gen": ("T", "Ans::new(ON)")}


def forwards(c):
    """Backtrace requests forwarded to a source: no type here holds a backtrace of its own."""
    o = ["#[allow(unused)] use ::mc::Ans; use ::std::error::Error as StdError; use ::thiserror::Error;\nfn ask(e: &dyn StdError) -> bool { ::std::error::request_ref::<::std::backtrace::Backtrace>(e).is_some() }\n"]
    runs = []

    def one(ch):
        ty = ch(list(FWD_TYPES))
        attr = ch(["#[source] #[backtrace]", "#[backtrace] #[from]", "#[backtrace]"])
        return ty, attr, ch(["named", "tuple"]), ch(["struct", "enum"]), ch([True, False]), ch([True, False])
    for i, (ty, attr, shape, item, extra, transparent) in enumerate(c.explore(one)):
        t, v = FWD_TYPES[ty]
        frm = "from" in attr
        if transparent and (ty == "opt" or "source" in attr or attr == "#[backtrace]" and not frm or extra):
            continue
        if frm and (extra or ty == "gen"):
            continue
        if attr == "#[backtrace]" and shape == "tuple":
            continue
        g = "<T: StdError + 'static>" if ty == "gen" else ""
        msg = "transparent" if transparent else "\"m\""
        body = ("{ %s source: %s%s }" if shape == "named" else "(%s %s%s)") % (attr, t, (", y: u8" if shape == "named" else ", u8") if extra else "")
        val = ("{ source: %s%s }" if shape == "named" else "(%s%s)") % (v, (", y: 1" if shape == "named" else ", 1") if extra else "")
        if item == "struct":
            o.append("#[derive(Error, Debug)] #[error(%s)] pub struct E%d%s%s%s\n" % (msg, i, g, body, "" if shape == "named" else ";"))
            e = "E%d %s" % (i, val)
        else:
            o.append("#[derive(Error, Debug)] pub enum E%d%s { #[error(\"a\")] A, #[error(%s)] B %s }\n" % (i, g, msg, body))
            e = "E%d::B %s" % (i, val)
            runs.append("c.ok(\"%s\", !ask(&E%d%s::A), \"nothing to answer\");" % (i, i, "::<Ans>" if g else ""))
        for on in ("true", "false"):
            runs.append("{ let e = %s; c.ok(%s, ask(&e) == %s, \"the request reaches the source\"); c.ok(\"source\", %se.source().is_some(), \"source\"); }" % (
                e.replace("ON", on), rust_str("%s %s %s on=%s" % (msg, item, body, on)), on, "!" if transparent else ""))
    o.append("pub fn run(c: &mut ::mc::Ctx) { %s }" % "\n".join(runs))
    return Prog("forward", "".join(o), len(runs))


def matrix(c, so):
    """Programs without Backtrace fields mean the same in every configuration."""
    from mc.core import collect
    progs = {}
    states = 0
    for m in ("c04", "c05", "c03"):
        mod = __import__("mc." + m, fromlist=[m])
        got, st, tr = collect(mod, "quick")
        states += st
        for ps, toolchain, head, edition, externs, env in got:
            if toolchain != STABLE or "thiserror" not in externs or env:
                continue
            for p in ps:
                if "Backtrace" in p.src or "Path" in p.src or "backtrace" in p.src:
                    continue
                progs.setdefault((head, edition, externs), []).append(p)
    fwd = forwards(c)
    configs = []
    for t in (STABLE, NIGHTLY):
        for std in (True, False):
            for nobt in (True, False):
                for egma in (True, False):
                    if not (egma and t == STABLE):
                        configs.append((t, std, nobt, egma))
    for cfg in configs:
        t, std, nobt, egma = cfg
        cfgs = (['feature="std"'] if std else []) + (["thiserror_no_backtrace_type"] if nobt else []) + (["error_generic_member_access"] if egma else [])
        name = "cfg/%s/%s" % (t, "+".join(cfgs) or "none")
        c.count(1)
        ok, err, lib = build_library(t, so[t], cfgs, None, os.path.join(c.work, "m" + str(configs.index(cfg))))
        if not ok:
            c.direct_violation(name, "thiserror does not compile", [err[-600:]], "/*\n%s\n*/" % err)
            continue
        b = c.bases["std", t]
        kept = dict(b.externs)
        b.externs["thiserror"] = lib
        for (head, edition, externs), ps in progs.items():
            step = 1 if c.thorough else 6
            sel = [Prog(name + "/" + p.id, p.src, p.cases) for p in ps[configs.index(cfg) % step::step]]
            c.run_progs(sel, "std", t, edition=edition, head=head, externs=externs, tag="m%d-%s" % (configs.index(cfg), edition))
            c.count(len(sel))
        if egma:
            c.run_progs([Prog(name + "/forward", fwd.src, fwd.cases)], "std", t, edition="2021", head="#![feature(error_generic_member_access)]\n#![allow(warnings)]\n", tag="f%d" % configs.index(cfg))
            c.count(1)
        b.externs = kept
    return len(configs)


def run(tier):
    c = Check("C17", "model_checking", tier)
    fake = os.path.join(c.work, "fake")
    p = subprocess.run(["gcc", "-O1", "-static", "-o", fake, os.path.join(VERIF, "mc", "rs", "fakerustc.c")], stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise MachineryError(p.stderr)
    scripts = build_scripts(c, STABLE, c.work)
    cases = stand_in_cases(c)
    jobs = 8
    with multiprocessing.get_context("fork").Pool(jobs) as pool:
        parts = [(os.path.join(c.work, "w%d" % i), scripts, fake, cases[i::jobs]) for i in range(jobs)]
        outcomes = set()
        for res, n, o in pool.imap_unordered(worker, parts):
            c.cov["traces_validated_against_impl"] += n
            outcomes |= o
            for name, what, r in res:
                c.direct_violation(name, what, [r], "// build.rs in the environment %s\n// %s\n// (status, stdout, stderr, compiler calls, OUT_DIR) = %s\n" % (name, what, r))
    c.cov["distinct_outcomes"] = len(outcomes)
    c.sample("stand-in compiler: %s" % (cases[len(cases) // 3],))
    log("[C17] %d environments, %d different answers, %d violations" % (len(cases), len(outcomes), len(c.violations)))
    so = real(c)
    n = matrix(c, so)
    return c.finish(environments=len(cases), library_configurations=n, real_compilers=toolchains())
