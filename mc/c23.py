"""C23: what a derive expands to is a function of the annotated item alone.

The deriving process is the state, expanding an item is the transition. Every sequence of
items up to a depth is run on the real derive, by forking the process at every node, and every
expansion is compared with that of a process that expands only this item. The randomness of
hash maps is a choice of the exploration. Inside rustc: every order of the items of a crate, and
every environment, one deviation at a time."""
import concurrent.futures as cf
import itertools, os, re, subprocess
from .core import Check, Host, Prog, log, MachineryError, clean_env, JOBS, STABLE, NIGHTLY
from .growth import ITEMS, EXPRS, TYPES, arg

CORE = [
    '#[error("a {x} {y:?}")] struct S<T, U> { x: T, y: U }',
    '#[error("b {x:?} {y}", x = 1)] struct S<T, U> { x: T, y: U }',
    '#[error("c {0} {0:?} {1:x} {2} {3:?} {4}")] struct S<A, B, C, D, E>(A, B, C, D, E);',
    '#[error("d {e} {d} {c} {b} {a}", a = 1, b = 2, c = 3, d = 4, e = 5)] struct S;',
    '#[error("e {r#type} {r#fn:?}", r#fn = .r#type)] struct S { r#type: u8 }',
    '#[error("f {}", .source)] struct S { #[source] source: A, backtrace: Backtrace }',
    '#[error("g {source}")] struct S<T> { #[from] source: Option<T>, #[backtrace] b: Option<Backtrace> }',
    '#[error(transparent)] struct S(#[from] A);',
    '#[error(transparent)] struct S<T>(#[backtrace] #[source] Box<T>);',
    '#[error("h {0}")] enum S<T> { A(T), #[error(transparent)] B(#[from] A<T>), #[error(fmt = f)] C { x: T }, #[error("own")] D }',
    '#[error(fmt = f::<T>)] enum S<T> where T: X { A(T, u8), #[error("x {0:p} {0:e}")] B(T) }',
    'enum S { #[error("i {0}", .0.x)] A(A), #[error("{}", if let Some(x) = .0 { x } else { .1 })] B(Option<A>, A) }',
    'enum S {}',
    '#[error("j")] enum S { }',
    'struct S { source: A }',
    'struct S<T>(#[from] Box<dyn Error + Send + Sync>, PhantomData<T>, Backtrace);',
    '#[error("k")] #[error("l")] struct S;',
    '#[error("{0}", 1)] struct S(u8);',
    'enum S { #[error("x")] A(#[from] A, #[source] B), #[error("y")] B(#[from] A) }',
    '#[error(nonsense)] struct S;',
    '#[error("m {x} {x:?} {x:>width$}", width = 1 < 2)] struct S { x: &\'static dyn Error }',
    '#[error("n {}", a::<B, C>(.0) as D<E>)] struct S(u8);',
    '#[error("{x}")] struct S { x: S }',
    'impl Self { fn x() {} }',
    '#[deprecated] #[error("o {}", { 1 }.x)] struct S<\'a, T: \'a, const N: usize>(&\'a [T; N]);',
    '#[error("p {0:?}")] #[doc(hidden)] pub(crate) struct S<A, B, C>(Result<Result<A, B>, Option<C>>);',
    'union S { x: u8 }',
    '#[error("a {x} {y:?}")] struct R<T, U> { x: T, y: U }',
]

# items that compile, one module each
REAL = [
    '#[derive(Error, Debug)] #[error("a {x} {y:?} {0}", 1)] pub struct S<T, U> { pub x: T, pub y: U }',
    '#[derive(Error, Debug)] #[error("b {0} {0:?} {1:x} {2} {3:?} {4}")] pub struct S<A, B, C, D, E>(pub A, pub B, pub C, pub D, pub E);',
    '#[derive(Error, Debug)] #[error("c {e} {d} {c} {b} {a}", a = 1, b = 2, c = 3, d = 4, e = 5)] pub struct S;',
    '#[derive(Error, Debug)] #[error("d {type} {fn:?}", r#fn = .r#type)] pub struct S { pub r#type: u8 }',
    '#[derive(Error, Debug)] #[error("e {}", .source)] pub struct S { pub source: Leaf }',
    '#[derive(Error, Debug)] #[error(transparent)] pub struct S(#[from] Leaf);',
    '#[derive(Error, Debug)] #[error(transparent)] pub struct S<T>(pub Box<T>) where Box<T>: ::std::error::Error;',
    '#[derive(Error, Debug)] #[error("f {0}")] pub enum S<T> { A(T), #[error(transparent)] B(#[from] Leaf), #[error(fmt = f)] C { x: T }, #[error("own")] D }\nfn f<T>(_: &T, _: &mut ::std::fmt::Formatter) -> ::std::fmt::Result { Ok(()) }',
    '#[derive(Error, Debug)] pub enum S { #[error("g {n}", n = .0.0)] A(Leaf), #[error("{}", if let Some(x) = .0 { x } else { .1 })] B(Option<u8>, u8) }',
    '#[derive(Error, Debug)] pub enum S {}',
    '#[derive(Error, Debug)] #[error("h {x} {x:?} {x:>width$}", width = 3)] pub struct S { pub x: &\'static str }',
    '#[derive(Error, Debug)] #[error("i {}", ::std::convert::identity::<u8>(.0) as u16)] pub struct S(pub u8);',
    '#[derive(Error, Debug)] #[error("j")] pub enum S { A(#[from] Leaf), B { #[source] e: Option<Box<dyn ::std::error::Error + Send + Sync>>, p: ::std::path::PathBuf } }',
    '#[derive(Error, Debug)] #[error("k {p} {0:?}", .q)] pub struct S { pub p: ::std::path::PathBuf, pub q: &\'static ::std::path::Path }',
    '#[deprecated] #[derive(Error, Debug)] #[error("l {0:?}")] pub struct S<\'a, T: \'a, const N: usize>(pub &\'a [T; N], pub ::std::marker::PhantomData<T>) where [T; N]: ::std::fmt::Debug, T: ::std::fmt::Debug;',
    '#[derive(Error, Debug)] #[error("a {x} {y:?} {0}", 1)] pub struct R<T, U> { pub x: T, pub y: U }',
]
HEAD = "#![allow(warnings)]\nuse ::mc::Leaf;\n"
ENVS = [
    {"CARGO_PKG_NAME": "other", "CARGO_CRATE_NAME": "other"}, {"CARGO_MANIFEST_DIR": "/nowhere"}, {"CARGO_PKG_VERSION": "0.0.1", "CARGO_PKG_RUST_VERSION": "1.0"}, {"CARGO_PRIMARY_PACKAGE": "1"}, {"CARGO_FEATURE_STD": "1"}, {"OUT_DIR": "/nowhere"},
    {"RUST_BACKTRACE": "full"}, {"RUST_LOG": "trace"}, {"LANG": "tr_TR.UTF-8", "LC_ALL": "tr_TR.UTF-8"}, {"TZ": "Pacific/Apia"}, {"SOURCE_DATE_EPOCH": "1"}, {"HOME": "/nowhere"}, {"PROFILE": "release"}, {"DEBUG": "true"}, {"TARGET": "wasm32-unknown-unknown"},
    {"RUSTFLAGS": "--cfg x"}, {"RUSTDOCFLAGS": "-Dwarnings"}, {"DOCS_RS": "1"}, {"CI": "true"}, {"USER": "nobody", "LOGNAME": "nobody"}, {"TERM": "dumb"}, {"NUM_JOBS": "1"}, {"RAYON_NUM_THREADS": "1"}, {"THISERROR_DEBUG": "1"}, {"CARGO_CFG_TARGET_OS": "none"},
]
OPTIONS = [["-O"], ["-Cdebug-assertions=on"], ["-Coverflow-checks=off"], ["--crate-type=rlib", "-Cpanic=abort"], ["--test"], ["--cfg", "docsrs"], ["--cfg", 'feature="std"'], ["-Ccodegen-units=1"], ["--crate-name", "other"]]


def expand(c, base, tc, name, order, env=None, cwd=None, extra=()):
    """rustc's expansion of one crate; -> {module: text}"""
    d = os.path.join(c.work, "x-%s" % name)
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, "lib.rs")
    open(src, "w").write(HEAD + "".join("pub mod m%d_%d {\nuse super::*;\n%s\n%s\n}\n" % (k, i, "use ::thiserror::Error;", REAL[i]) for k, i in enumerate(order)))
    cmd = ["rustc", "-Zunpretty=expanded", "--crate-type", "lib", "--edition", "2021", "--cap-lints", "allow", "-L", "dependency=" + base.deps, "--extern", "thiserror=" + base.externs["thiserror"], "--extern", "mc=" + base.mc, src] + list(extra)
    if "--test" in cmd or "--crate-type=rlib" in cmd:
        i = cmd.index("--crate-type")
        del cmd[i:i + 2]
    e = clean_env(RUSTUP_TOOLCHAIN=tc, RUSTC_BOOTSTRAP="1")
    rh = e.get("RUSTUP_HOME") or os.path.join(e.get("HOME", "/root"), ".rustup")
    ch = e.get("CARGO_HOME") or os.path.join(e.get("HOME", "/root"), ".cargo")
    if env:
        e.update(RUSTUP_HOME=rh, CARGO_HOME=ch)
        e.update(env)
    p = subprocess.run(cmd, env=e, cwd=cwd or d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    if p.returncode:
        raise MachineryError("rustc: %s" % p.stderr[-1500:])
    out, cur = {}, None
    for l in p.stdout.split("\n"):
        m = re.match(r"pub mod m(\d+)_(\d+) \{", l)
        if m:
            cur = (int(m.group(1)), int(m.group(2)))
            out[cur] = []
        elif cur is not None:
            if l == "}":
                cur = None
            else:
                out[cur].append(l)
    if len(out) != len(order) or not all("Error for" in "\n".join(v) for v in out.values()):
        raise MachineryError("unexpected shape of the expansion: %s" % p.stdout[:1500])
    os.remove(src)
    return {k: "\n".join(v) for k, v in out.items()}


def run(tier=None):
    c = Check("C23", "model_checking", tier)
    th = c.thorough
    full, mini = Host("full").build(), Host("min").build()
    nodes = orders = 0

    def histories(host, tag, inputs, depth, first, seeds):
        nonlocal nodes, orders
        f = os.path.join(c.work, "hist-%s-%s.txt" % (tag, host.kind))
        open(f, "w").write("".join(i + "\n" for i in inputs))

        def one(k):
            p = subprocess.run([host.exe, "history", "%d/%d" % (k, JOBS), f, str(depth), str(first), str(seeds)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=clean_env(), timeout=850)
            if "DONE\t" not in p.stdout and "BAD\t" not in p.stdout:
                raise MachineryError("driver: %s" % p.stderr[-800:])
            return p.stdout.split("\n")
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for ls in ex.map(one, range(JOBS)):
                for l in ls:
                    if l.startswith("BAD\t"):
                        _, h, what = l.split("\t", 2)
                        c.direct_violation("history/%s" % h, what[:1200], [], "//@history (%s)\n%s\n" % (host.kind, h.replace("  ;  ", "\n")))
                    elif l.startswith("DONE\t"):
                        nodes += int(l.split("\t")[1])
                        orders = max(orders, int(l.split("\t")[3]))
        n = len(inputs)
        c.count(sum(n ** k for k in range(1, depth + 1)) + n * (seeds - 1))
        log("[C23] %s: %d inputs, depth %d, %d seeds, %s" % (tag, n, depth, seeds, host.kind))
    # many items after one another, all of the same name
    wide = CORE + [f(k) for f in ITEMS.values() for k in (1, 7)] + [arg(a + ".0" + b) for a, b in EXPRS.values()] + ['#[error("{0}")] struct S<T>(%sT%s);' % t for t in TYPES.values()]
    wide = list(dict.fromkeys(wide))
    histories(full, "core", CORE, 3, 0, 64)
    histories(mini, "core", CORE, 3 if th else 2, 0, 64)
    histories(full, "wide", wide, 2, 1, 256 if th else 48)
    if th:
        histories(mini, "wide", wide, 2, 7, 256)
        histories(full, "deep", CORE[:12] + CORE[16:20], 4, 3, 1)
    if orders < 8:
        raise MachineryError("the hash seeds do not decide the order of maps")
    # inside rustc
    c.bases_parallel(("std", STABLE), ("std", NIGHTLY))
    jobs = []
    n = len(REAL)
    for tc in (STABLE, NIGHTLY):
        jobs += [(tc, "alone", [i], None, None, ()) for i in range(n)]
    for r in range(n):
        jobs.append((STABLE, "rotation", [(r + i) % n for i in range(n)], None, None, ()))
    jobs.append((STABLE, "reversed", list(reversed(range(n))), None, None, ()))
    jobs.append((NIGHTLY, "all", list(range(n)), None, None, ()))
    jobs.append((STABLE, "twice", list(range(n)) * 2, None, None, ()))
    for a, b in itertools.product(range(n), repeat=2) if th else ():
        jobs.append((STABLE, "pair", [a, b], None, None, ()))
    for p in itertools.permutations((0, 7, 8, 12, 5)[:5 if th else 4]):
        jobs.append((STABLE, "order", list(p), None, None, ()))
    every = list(range(n))
    for e in ENVS:
        jobs.append((STABLE, "environment %s" % e, every, e, None, ()))
    for d in ("/", "/usr"):
        jobs.append((STABLE, "directory " + d, every, None, d, ()))
    for o in OPTIONS:
        jobs.append((STABLE, "option %s" % o, every, None, None, o))
    ref = {}

    def one(k):
        tc, what, order, env, cwd, extra = jobs[k]
        return expand(c, c.bases["std", tc], tc, str(k), order, env, cwd, extra)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, range(len(jobs))))
    for (tc, what, order, *_), r in zip(jobs, res):
        if what == "alone":
            ref[tc, order[0]] = list(r.values())[0]
    modules = 0
    for (tc, what, order, *_), r in zip(jobs, res):
        for (k, i), text in r.items():
            modules += 1
            if text != ref[tc, i]:
                a, b = text.split("\n"), ref[tc, i].split("\n")
                j = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
                c.direct_violation("rustc/%s %s/%s" % (what, order if len(order) < 9 else "", REAL[i]), "expands to %r, alone to %r" % ("\n".join(a[j:j + 3]), "\n".join(b[j:j + 3])), [], "//@rustc %s %s %s\n%s\n" % (tc, what, order, REAL[i]))
    c.count(len(jobs))
    c.cov["traces_validated_against_impl"] += nodes + modules
    c.cov["distinct_outcomes"] = len(set(ref.values())) + len(wide)
    c.sample("  ;  ".join(CORE[:3]))
    c.sample(jobs[-1][1])
    log("[C23] %d nodes, %d crates through rustc" % (nodes, len(jobs)))
    return c.finish(rule="every sequence of up to 3 (thorough 4) of the core items and every pair of the wide list, in a process forked at every node; every hash seed of the range; in rustc every rotation, the orders of 4 (5) items, and every single deviation of environment, directory and options",
                    nodes=nodes, map_orders=orders, crates=len(jobs), inputs=len(wide))
