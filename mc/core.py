"""Shared machinery: building /repo, compiling and running generated programs,
mapping diagnostics back to programs, evidence and violation reporting."""
import bisect
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(VERIF, "target")
NIGHTLY = "nightly-2025-05-01"
STABLE = "stable"
JOBS = 8


class MachineryError(Exception):
    """The check could not run: an error exit, never a verdict."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def repo_hash():
    h = hashlib.sha256()
    files = []
    for pat in ("src/**/*", "impl/src/**/*", "build/**/*", "build.rs", "Cargo.toml", "impl/Cargo.toml"):
        files += glob.glob(os.path.join(REPO, pat), recursive=True)
    for f in sorted(set(files)):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read())
    return h.hexdigest()


def clean_env(**extra):
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_BOOTSTRAP", "CARGO_TARGET_DIR",
              "RUST_BACKTRACE", "RUST_LIB_BACKTRACE", "TRYBUILD", "RUSTC", "CARGO_BUILD_TARGET",
              "RUSTC_WORKSPACE_WRAPPER"):
        env.pop(k, None)
    env["RUSTC_WRAPPER"] = ""
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    path = env.get("PATH", "")
    if "/root/.cargo/bin" not in path:
        env["PATH"] = path + ":/root/.cargo/bin"
    env.update(extra)
    return env


def _freshen(target_dir, crate_dir, env):
    """Cargo trusts mtimes; we trust content."""
    stamp = os.path.join(target_dir, "repo.sha")
    want = repo_hash()
    have = open(stamp).read() if os.path.exists(stamp) else None
    if have is not None and have != want:
        subprocess.run(["cargo", "clean", "--offline", "-p", "thiserror", "-p", "thiserror-impl"],
                       cwd=crate_dir, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if have != want:
        try:
            os.remove(stamp)
        except FileNotFoundError:
            pass
    return stamp, want


class Base:
    """thiserror from /repo's working tree built in one configuration."""

    def __init__(self, kind="std", toolchain=STABLE):
        self.kind, self.toolchain = kind, toolchain
        self.crate = os.path.join(VERIF, "crates", "base-" + kind)
        self.target = os.path.join(TARGET, "base-%s-%s" % (kind, toolchain))
        self.externs = {}

    def build(self):
        env = clean_env(RUSTUP_TOOLCHAIN=self.toolchain, CARGO_TARGET_DIR=self.target)
        os.makedirs(self.target, exist_ok=True)
        stamp, want = _freshen(self.target, self.crate, env)
        p = subprocess.run(["cargo", "build", "--offline", "--message-format=json"], cwd=self.crate,
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            raise MachineryError("building %s failed:\n%s" % (self.crate, p.stderr[-4000:]))
        for line in p.stdout.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") == "compiler-artifact":
                name = m["target"]["name"].replace("-", "_")
                for f in m["filenames"]:
                    if f.endswith(".rlib"):
                        self.externs[name] = f
                    elif name == "thiserror_impl" and f.endswith(".so"):
                        self.macro = f
        if "thiserror" not in self.externs:
            raise MachineryError("no thiserror artifact")
        self.deps = os.path.join(self.target, "debug", "deps")
        open(stamp, "w").write(want)
        self.mc = self._prelude()
        return self

    def _prelude(self):
        src = os.path.join(VERIF, "mc", "rs", "mc.rs")
        out = os.path.join(self.target, "libmc.rlib")
        cmd = ["rustc", "--edition=2021", "--crate-name=mc", "--crate-type=rlib", "-Copt-level=0",
               "-Cdebuginfo=0", src, "-o", out]
        if self.toolchain == NIGHTLY:
            cmd += ["--cfg", "nightly"]
        p = subprocess.run(cmd, env=clean_env(RUSTUP_TOOLCHAIN=self.toolchain), stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            raise MachineryError("prelude: " + p.stderr)
        return out

    def rustc(self, src, out, args=(), edition="2021", externs=("thiserror", "mc"), emit=None):
        cmd = ["rustc", "--edition=" + edition, "-Cdebuginfo=0", "-Copt-level=0", "-Ccodegen-units=4",
               "--error-format=json", "-L", "dependency=" + self.deps]
        for e in externs:
            cmd += ["--extern", "%s=%s" % (e, self.mc if e == "mc" else self.externs[e])]
        cmd += list(args)
        if emit:
            cmd += ["--emit=" + emit]
        cmd += [src, "-o", out]
        env = clean_env(RUSTUP_TOOLCHAIN=self.toolchain)
        try:
            p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
        except subprocess.TimeoutExpired:
            return False, [{"level": "error", "message": "compilation did not end within 300 s", "spans": []}]
        diags = []
        for line in p.stderr.splitlines():
            try:
                diags.append(json.loads(line))
            except ValueError:
                if "internal compiler error" in line:
                    raise MachineryError("rustc ICE: " + line)
        if p.returncode not in (0, 1):
            raise MachineryError("rustc exit %s on %s: %s" % (p.returncode, src, p.stderr[-2000:]))
        if p.returncode == 1 and not any(d.get("level", "").startswith("error") for d in diags):
            raise MachineryError("rustc failed without diagnostics: " + p.stderr[-2000:])
        return p.returncode == 0, diags


class Host:
    """impl/src/lib.rs of /repo as an ordinary library, with syn's full feature or without."""

    def __init__(self, kind="full"):
        self.kind = kind
        self.crate = os.path.join(VERIF, "crates", "host-" + kind)
        self.target = os.path.join(TARGET, "host-" + kind)
        self.exe = os.path.join(self.target, "debug", "driver")

    def build(self):
        env = clean_env(RUSTUP_TOOLCHAIN=STABLE, CARGO_TARGET_DIR=self.target, RUSTFLAGS="--cfg thiserror_verif --cap-lints allow")
        os.makedirs(self.target, exist_ok=True)
        stamp = os.path.join(self.target, "repo.sha")
        want = repo_hash()
        have = open(stamp).read() if os.path.exists(stamp) else None
        if have != want:
            if have is not None:
                subprocess.run(["cargo", "clean", "--offline", "-p", "host-" + self.kind], cwd=self.crate, env=env,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                os.remove(stamp)
        p = subprocess.run(["cargo", "build", "--offline"], cwd=self.crate, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            raise MachineryError("building %s failed:\n%s" % (self.crate, p.stderr[-4000:]))
        open(stamp, "w").write(want)
        return self

    def judge(self, lines, jobs=JOBS):
        """-> [(status, hash, shape, messages)] of every input line"""
        lines = list(lines)
        n = max(1, min(jobs, len(lines) // 50))
        step = -(-len(lines) // n) if lines else 1
        parts = [lines[i:i + step] for i in range(0, len(lines), step)]

        def one(part):
            p = subprocess.run([self.exe, "judge"], input="\n".join(part) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               env=clean_env(), timeout=800)
            rows = [tuple(l.split("\t")) for l in p.stdout.split("\n")[:-1]]
            if len(rows) != len(part):
                bad = [l for l in p.stdout.split("\n") if l.startswith("BAD\t")]
                if bad:
                    rows = [r for r in rows if r[0] != "BAD"]
                    return rows + [("P", bad[0].split("\t")[2], "", "")] + [("?",)] * (len(part) - len(rows) - 1)
                raise MachineryError("driver: %d answers for %d inputs: %s" % (len(rows), len(part), p.stderr[-1000:]))
            return rows
        with cf.ThreadPoolExecutor(jobs) as ex:
            return [r for rs in ex.map(one, parts) for r in rs]

    def enumerate(self, mode, specs, work, jobs=JOBS, extra=lambda i: [], timeout=850):
        """Run an enumeration sharded over processes; -> their output lines."""
        f = os.path.join(work, "%s-%s.txt" % (mode, self.kind))
        open(f, "w").write("".join(s + "\n" for s in specs))

        def one(i):
            p = subprocess.run([self.exe, mode, "%d/%d" % (i, jobs), f] + extra(i), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               env=clean_env(), timeout=timeout)
            ls = p.stdout.split("\n")[:-1]
            if not any(l.startswith(("DONE", "BAD")) for l in ls):
                raise MachineryError("driver %s ended with %s: %s" % (mode, p.returncode, p.stderr[-1000:]))
            return ls
        with cf.ThreadPoolExecutor(jobs) as ex:
            return [l for ls in ex.map(one, range(jobs)) for l in ls]


class Prog:
    """One generated program: the body of a module that defines
    `pub fn run(c: &mut ::mc::Ctx)`."""
    __slots__ = ("id", "src", "cases", "note")

    def __init__(self, id, src, cases=1, note=""):
        self.id, self.src, self.cases, self.note = id, src, cases, note


CRATE_HEAD = "#![allow(warnings)]\n"


def render(progs, head=CRATE_HEAD, tail=True, run=True):
    """-> (text, starts): the crate source and the first line of every program."""
    out, starts, line = [head], [], head.count("\n") + 1
    for i, p in enumerate(progs):
        starts.append(line)
        text = "pub mod p%d {\n%s\n}\n" % (i, p.src)
        out.append(text)
        line += text.count("\n")
    starts.append(line)
    if run:
        out.append("static TABLE: &[(&'static str, fn(&mut ::mc::Ctx))] = &[\n")
        for i, p in enumerate(progs):
            out.append("  (%s, p%d::run),\n" % (rust_str(p.id), i))
        out.append("];\nfn main() { ::mc::main(TABLE) }\n")
    return "".join(out), starts


def rust_str(s):
    o = ['"']
    for ch in s:
        c = ord(ch)
        if ch == '"' or ch == "\\":
            o.append("\\" + ch)
        elif ch == "\n":
            o.append("\\n")
        elif c < 32 or c == 127 or (c > 126 and c < 0xA0) or 0x202A <= c <= 0x2069:
            o.append("\\u{%x}" % c)
        else:
            o.append(ch)
    o.append('"')
    return "".join(o)


def diag_lines(d, src):
    """Lines of src that a diagnostic points to, primary first."""
    prim, other = [], []
    def visit(sp, is_primary):
        if os.path.basename(sp.get("file_name", "")) == os.path.basename(src):
            (prim if is_primary else other).append(sp["line_start"])
        e = sp.get("expansion")
        if e:
            visit(e["span"], is_primary)
    for sp in d.get("spans", []):
        visit(sp, sp.get("is_primary"))
    for ch in d.get("children", []):
        for sp in ch.get("spans", []):
            visit(sp, False)
    return prim + other


def primary_places(d, src):
    out = []
    for sp in d.get("spans", []):
        if not sp.get("is_primary"):
            continue
        # inside of a macro of the standard library: where that is called
        while sp and os.path.basename(sp.get("file_name", "")) != os.path.basename(src):
            sp = (sp.get("expansion") or {}).get("span")
        if sp:
            out.append((sp["line_start"], sp["column_start"], sp["line_end"], sp["column_end"]))
    return out


class Chooser:
    def __init__(self, prefix):
        self.prefix, self.path = prefix, []
        # choices up to the last one of the prefix were visited before
        self.fresh = max(0, len(prefix) - 1)

    def __call__(self, options):
        if isinstance(options, int):
            options = range(options)
        if not options:
            raise MachineryError("empty choice")
        i = len(self.path)
        k = self.prefix[i][0] if i < len(self.prefix) else 0
        self.path.append([k, len(options)])
        return options[k]

    def flag(self):
        return self([False, True])


class Violation:
    def __init__(self, prog, kind, detail, ctx):
        self.prog, self.kind, self.detail, self.ctx = prog, kind, detail, ctx


class Check:
    def __init__(self, prop, level, tier=None):
        self.prop, self.level = prop, level
        self.tier = tier or os.environ.get("VERIF_TIER") or "quick"
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.known_hits = []
        self.work = os.path.join(TARGET, "work-" + prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.bases = {}
        self.outcomes = set()
        self.stats = {}
        self.known = [k for k in load_known() if k["property"] == prop and k.get("status") == "finding"]
        self.max_unit = 4 << 20      # bytes of source per compilation

    @property
    def thorough(self):
        return self.tier == "thorough"

    def base(self, kind="std", toolchain=STABLE):
        k = (kind, toolchain)
        if k not in self.bases:
            self.bases[k] = Base(kind, toolchain).build()
            log("[%s] built %s/%s at %.1fs" % (self.prop, kind, toolchain, time.time() - self.t0))
        return self.bases[k]

    def bases_parallel(self, *keys):
        with cf.ThreadPoolExecutor(len(keys)) as ex:
            for k, b in zip(keys, ex.map(lambda k: Base(*k).build(), keys)):
                self.bases[k] = b
        log("[%s] built %s at %.1fs" % (self.prop, keys, time.time() - self.t0))

    def sample(self, s):
        if len(self.cov["samples"]) < 12:
            self.cov["samples"].append(s)

    # ---- model exploration -------------------------------------------------
    def bfs(self, init, succ, canon=lambda s: s, limit=None):
        """Breadth-first search over model states; yields every state once."""
        import collections
        seen = {canon(init)}
        q = collections.deque([init])
        self.cov["states"] += 1
        while q:
            s = q.popleft()
            yield s
            for n in succ(s):
                self.cov["transitions"] += 1
                k = canon(n)
                if k not in seen:
                    seen.add(k)
                    self.cov["states"] += 1
                    q.append(n)

    def explore(self, fn, limit=None):
        """Stateless exploration: fn(ch) makes nondeterministic choices with
        ch(options); every sequence of choices is executed, depth first. A state is
        a node of the choice tree, a transition an edge. Yields what fn returns
        (None = this branch of the choice tree is not a legal input)."""
        path = []
        while True:
            ch = Chooser(path)
            r = fn(ch)
            self.cov["states"] += len(ch.path) - ch.fresh + 1
            self.cov["transitions"] += len(ch.path) - ch.fresh
            if r is not None:
                yield r
            path = [list(p) for p in ch.path]
            while path and path[-1][0] + 1 >= path[-1][1]:
                path.pop()
            if not path:
                return
            path[-1][0] += 1

    def count(self, states, transitions=None):
        self.cov["states"] += states
        self.cov["transitions"] += states if transitions is None else transitions

    # ---- running programs ---------------------------------------------------
    def run_progs(self, progs, kind="std", toolchain=STABLE, edition="2021", head=CRATE_HEAD, externs=("thiserror", "mc"),
                  args=(), env=None, tag="", warn_is_error=False, chunks=None, timeout=240):
        """Compile and run programs that the model accepts; report mismatches."""
        if not progs:
            return
        base = self.base(kind, toolchain)
        known_ids = {k["case"] for k in self.known}
        # split contiguous, balanced by source size
        sizes = [len(p.src) for p in progs]
        n = chunks or max(1, min(JOBS, len(progs) // 4 or 1))
        n = min(len(progs), max(n, -(-sum(sizes) // self.max_unit)))
        total, parts, cur, acc = sum(sizes), [], [], 0
        for p, s in zip(progs, sizes):
            cur.append(p)
            acc += s
            if acc >= total / n * (len(parts) + 1) and len(parts) < n - 1:
                parts.append(cur)
                cur = []
        if cur:
            parts.append(cur)
        ctx = dict(kind=kind, toolchain=toolchain, edition=edition, head=head, externs=list(externs), args=list(args), env=env or {})
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(self._run_part, base, part, "%s%d" % (tag, i), ctx, warn_is_error, timeout)
                    for i, part in enumerate(parts)]
            for f in futs:
                for v in f.result():
                    self.add_violation(v, known_ids)
        log("[%s] %s: %d programs, %d checks so far, %d violations, %.1fs" % (
            self.prop, tag, len(progs), self.cov["traces_validated_against_impl"], len(self.violations), time.time() - self.t0))

    def add_violation(self, v, known_ids=None):
        for k in self.known:
            if k["case"] == v.prog.id or (k.get("prefix") and v.prog.id.startswith(k["case"])) or (k.get("regex") and re.search(k["regex"], v.prog.id)):
                self.known_hits.append((k, v))
                return
        self.violations.append(v)

    def _run_part(self, base, progs, tag, ctx, warn_is_error, timeout):
        res = []
        rnd = 0
        while progs:
            rnd += 1
            text, starts = render(progs, ctx["head"])
            src = os.path.join(self.work, "b%s_%d.rs" % (tag, rnd))
            exe = src[:-3] + ".exe"
            open(src, "w").write(text)
            ok, diags = base.rustc(src, exe, ctx["args"], ctx["edition"], ctx["externs"])
            bad = {}
            if not ok and any(d["message"].startswith("compilation did not end") for d in diags):
                res.append(Violation(progs[0], "compilation does not end", ["one of %d programs" % len(progs)], ctx))
                break
            for d in diags:
                lvl = d.get("level", "")
                if lvl.startswith("error") or (warn_is_error and lvl == "warning"):
                    if not d.get("spans") and (d["message"].startswith("aborting due to") or d["message"].startswith("could not compile")
                                               or "warning emitted" in d["message"] or "warnings emitted" in d["message"]):
                        continue
                    ls = diag_lines(d, src)
                    if ls:
                        i = bisect.bisect_right(starts, ls[0]) - 1
                        if 0 <= i < len(progs):
                            bad.setdefault(i, []).append("%s: %s (line: %s)" % (
                                lvl, d["message"], text.splitlines()[ls[0] - 1].strip()[:300]))
                            continue
                    bad.setdefault(-1, []).append(d["message"])
            unmapped = bad.pop(-1, None)
            for i, msgs in sorted(bad.items()):
                res.append(Violation(progs[i], "warning" if ok else "does not compile", msgs[:4], ctx))
            if ok:
                r = self._exec(exe, progs, ctx, timeout)
                res += r
                if not bad and not r:
                    for f in (src, exe):
                        os.remove(f)
                else:
                    os.remove(exe)
                break
            if not bad:
                if len(progs) == 1:
                    res.append(Violation(progs[0], "does not compile", unmapped or ["?"], ctx))
                    break
                # cannot attribute: bisect
                h = len(progs) // 2
                return (res + self._run_part(base, progs[:h], tag + "L", ctx, warn_is_error, timeout)
                        + self._run_part(base, progs[h:], tag + "R", ctx, warn_is_error, timeout))
            progs = [p for i, p in enumerate(progs) if i not in bad]
            # Enough evidence of a violation: do not spend time on the rest, unless
            # all failures so far are listed findings.
            if any(not self._is_known(v) for v in res) and len(res) > 40:
                break
        return res

    def _is_known(self, v):
        return any(k["case"] == v.prog.id for k in self.known)

    def _exec(self, exe, progs, ctx, timeout):
        res = []
        env = clean_env(**ctx["env"])
        env.setdefault("RUST_BACKTRACE", "0")
        byid = {p.id: p for p in progs}
        def go(trace):
            e = dict(env)
            if trace:
                e["MC_TRACE"] = "1"
            try:
                p = subprocess.run([exe], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
                return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
            except subprocess.TimeoutExpired as t:
                return "timeout", (t.stdout or b"").decode("utf8", "replace"), ""
        rc, out, err = go(False)
        done = False
        for line in out.splitlines():
            f = line.split("\t")
            if f[0] == "MISMATCH" and len(f) >= 4 and f[1] in byid:
                res.append(Violation(byid[f[1]], "mismatch", ["\t".join(f[2:])], ctx))
            elif f[0] == "OUTCOMES":
                self.outcomes.add(f[1])
            elif f[0] == "STAT":
                self.stats[f[1]] = self.stats.get(f[1], 0) + int(f[2])
            elif f[0] == "DONE":
                done = True
                self.cov["traces_validated_against_impl"] += int(f[1])
                self.cov["distinct_outcomes"] = self.cov.get("distinct_outcomes", 0) + int(f[2])
        if not done:
            rc2, out2, err2 = go(True)
            last = None
            for line in out2.splitlines():
                if line.startswith("RUN\t"):
                    last = line.split("\t")[1]
            if last in byid and "DONE" not in out2:
                res.append(Violation(byid[last], "abnormal end (%s)" % rc2, [err2[-500:]], ctx))
            else:
                raise MachineryError("%s ended abnormally (%s) and not reproducibly: %s" % (exe, rc, err[-500:]))
        return res

    def diagnose(self, progs, kind="std", toolchain=STABLE, edition="2021", head=CRATE_HEAD, externs=("thiserror", "mc"), args=(), tag="d", chunk=150, spans=False, canary=True):
        """Type-checks programs that may be wrong; -> per program the list of
        (level, message, line of source); with spans, of (level, message, places), where
        the places are the primary (line, column, last line, last column), counted from the
        start of the program, 1 being the first. Every unit has a program with a type error of
        its own, to be sure that rustc got as far as type checking."""
        base = self.base(kind, toolchain)
        bad = Prog("canary", "fn canary() -> u8 { %s }" % ("\"type error\"" if canary else "0"))
        parts = [list(progs[i:i + chunk]) + [bad] for i in range(0, len(progs), chunk)]

        def one(i):
            part = parts[i]
            text, starts = render(part, head, run=False)
            src = os.path.join(self.work, "d%s_%d.rs" % (tag, i))
            open(src, "w").write(text)
            ok, diags = base.rustc(src, src[:-3] + ".rmeta", list(args) + ["--crate-type=lib"], edition, externs, emit="metadata")
            res = [[] for _ in part]
            lines = text.splitlines()
            for d in diags:
                if d.get("level", "").startswith("error") or d.get("level") == "warning":
                    ls = diag_lines(d, src)
                    if not ls:
                        if d["message"].startswith(("aborting due to", "Some errors have", "For more information")) or "warning emitted" in d["message"] or "warnings emitted" in d["message"]:
                            continue
                        raise MachineryError("diagnostic without a place: %s" % d["message"])
                    k = bisect.bisect_right(starts, ls[0]) - 1
                    if spans:
                        res[k].append((d["level"], d["message"], [(a - starts[k], b, e - starts[k], f) for a, b, e, f in primary_places(d, src)]))
                        continue
                    res[k].append((d["level"], d["message"], lines[ls[0] - 1].strip()[:300]))
            if canary and not any("mismatched types" in m for _, m, _ in res[-1]):
                raise MachineryError("rustc did not reach type checking in %s: %s" % (src, [r for r in res if r][:5]))
            os.remove(src)
            return res[:-1]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            out = [r for rs in ex.map(one, range(len(parts))) for r in rs]
        self.cov["traces_validated_against_impl"] += len(progs)
        log("[%s] %s: %d programs through rustc, %.1fs" % (self.prop, tag, len(progs), time.time() - self.t0))
        return out

    # ---- results --------------------------------------------------------------
    def direct_violation(self, id, kind, detail, replay_text):
        """A violation found outside of compiled programs."""
        p = Prog(id, replay_text)
        v = Violation(p, kind, detail, None)
        self.add_violation(v)
        return v

    def finish(self, **cov):
        self.cov.update(cov)
        wall = time.time() - self.t0
        rdir = os.path.join(VERIF, "replays", self.prop)
        shutil.rmtree(rdir, ignore_errors=True)
        shown = set()
        lines = []
        if self.violations:
            with open(os.path.join(self.work, "violations.jsonl"), "w") as f:
                for v in self.violations:
                    f.write(json.dumps([v.prog.id, v.kind, v.detail]) + "\n")
        for v in self.violations:
            if v.prog.id in shown:
                continue
            shown.add(v.prog.id)
            if len(shown) > 8:
                break
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%02d.rs" % len(shown))
            with open(path, "w") as f:
                f.write("// property %s, program %s: %s\n" % (self.prop, v.prog.id, v.kind))
                for d in v.detail:
                    for l in str(d).splitlines():
                        f.write("//   %s\n" % l)
                if v.ctx:
                    f.write("// replay: python3 /verif/mc/check.py %s --replay %s\n" % (self.prop, path))
                    f.write("//@ctx %s\n" % json.dumps(v.ctx))
                    text, _ = render([v.prog], v.ctx["head"])
                    f.write(text)
                else:
                    f.write(v.prog.src)
            log("  %s: %s: %s" % (v.prog.id, v.kind, "; ".join(str(d) for d in v.detail)[:600]))
            lines.append("VIOLATION property=%s replay=%s" % (self.prop, path))
        hit = set()
        for k, v in self.known_hits:
            if k["case"] not in hit:
                hit.add(k["case"])
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        for k in self.known:
            if k["case"] not in hit and not self.violations:
                log("note: listed finding no longer fails: %s" % k["case"])
        c = dict(self.cov)
        if not self.violations:
            if self.level == "model_checking" and not (c["states"] and c["traces_validated_against_impl"]):
                raise MachineryError("vacuous run: nothing was explored")
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": c, "assumptions": self.assumptions, "wall_s": round(wall, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        print("%s %s: states=%d transitions=%d validated=%d violations=%d wall=%.1fs" % (
            self.prop, self.tier, c["states"], c["transitions"], c["traces_validated_against_impl"], len(self.violations), wall))
        for l in lines:
            print(l)
        sys.stdout.flush()
        if not self.violations:
            shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.violations else 0


class _Collected(Exception):
    pass


def collect(mod, tier="quick"):
    """The programs that another check generates: [(programs, toolchain, head, edition, externs, env)].
    Its exploration runs as usual; nothing is compiled."""
    got = []

    class Collector(Check):
        def __init__(self, prop, level, tier=None):
            Check.__init__(self, "collect-%s-%d" % (prop, os.getpid()), level, tier)
            self.prop = prop

        def base(self, *a, **k):
            return None

        def bases_parallel(self, *a):
            pass

        def run_progs(self, progs, kind="std", toolchain=STABLE, edition="2021", head=CRATE_HEAD, externs=("thiserror", "mc"),
                      args=(), env=None, **kw):
            got.append((list(progs), toolchain, head, edition, tuple(externs), dict(env or {})))

        def diagnose(self, progs, **kw):
            return [[] for _ in progs]

        def finish(self, **cov):
            shutil.rmtree(self.work, ignore_errors=True)
            raise _Collected(self.cov["states"], self.cov["transitions"])
    old = mod.Check
    mod.Check = Collector
    try:
        mod.run(tier)
        raise MachineryError("collecting from %s: no end" % mod.__name__)
    except _Collected as e:
        return got, e.args[0], e.args[1]
    finally:
        mod.Check = old


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []
