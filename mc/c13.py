"""C13: no_std behaviour, and paths with std."""
import os
import re
import subprocess
from . import c01, c02, c03, c04, c05, c06, c07, c08, c12
from .core import Check, Prog, MachineryError, collect, rust_str, clean_env, VERIF, STABLE, NIGHTLY

# The standard library is not in the extern prelude: generated code that names it fails.
HEAD = "#![no_std]\n#![allow(warnings)]\nextern crate std as for_main_only;\n"
USER = "use ::mc::realstd::prelude::v1::*; use ::mc::realstd::{format, vec, println};\n"

# Types whose {x} is their own Display, in every configuration: (type, value)
DISPLAYED = [
    ("u8", "7"), ("bool", "true"), ("char", "'é'"), ("f64", "1.5"), ("&'static str", '"s é"'), ("P", "P(1)"),
    ("&'static P", "&PP"), ("&'static &'static P", "Box::leak(Box::new(&PP))"), ("&'static mut u8", "Box::leak(Box::new(3))"),
    ("String", 'String::from("own")'), ("Box<str>", '"boxed".into()'), ("Box<P>", "Box::new(P(2))"), ("Box<Box<P>>", "Box::new(Box::new(P(2)))"),
    ("Box<dyn ::core::fmt::Display>", "Box::new(P(3))"), ("Box<dyn ::core::error::Error>", "Box::new(P(4))"),
    ("Box<dyn ::core::error::Error + Send + Sync>", 'From::from("msg")'), ("&'static dyn ::core::fmt::Display", "&PP"),
    ("&'static (dyn ::core::fmt::Display + Sync)", "&PP"),
    ("Rc<P>", "Rc::new(P(5))"), ("Arc<str>", '"arc".into()'), ("Arc<dyn ::core::fmt::Display + Send + Sync>", "Arc::new(P(6))"),
    ("Cow<'static, str>", 'Cow::Borrowed("cow")'), ("Pin<Box<P>>", "Box::pin(P(7))"), ("Wrapping<u8>", "Wrapping(8)"), ("NonZeroU8", "NonZeroU8::new(9).unwrap()"),
    ("::core::fmt::Arguments<'static>", "ARGS()"), ("!", None), ("::core::convert::Infallible", None),
    ("fn(&str) -> u8", None), ("Both", "Both(PathBuf::from(\"inner\"))"), ("BothStr", "BothStr(\"s\")"), ("Manual", "Manual"),
    ("IpAddr", 'IpAddr::from([1, 2, 3, 4])'), ("SocketAddr", 'SocketAddr::from(([1, 2, 3, 4], 5))'),
    ("ManuallyDrop<P>", None), ("RefMut2", None), ("T1", None),
]
DISPLAYED = [d for d in DISPLAYED if d[1] is not None]

TYPES = """use ::thiserror::Error; use ::mc::P; use ::mc::realstd::{rc::Rc, sync::Arc, borrow::Cow, pin::Pin, num::{Wrapping, NonZeroU8}, net::{IpAddr, SocketAddr}, path::{Path, PathBuf}, ffi::{OsStr, OsString}, ops::Deref};
use ::core::fmt;
static PP: P = P(9);
#[allow(non_snake_case)] fn ARGS() -> fmt::Arguments<'static> { format_args!("args") }
/// Its own Display although it dereferences to a path.
#[derive(Debug, Clone)] pub struct Both(PathBuf);
impl fmt::Display for Both { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("both's own") } }
impl Deref for Both { type Target = PathBuf; fn deref(&self) -> &PathBuf { &self.0 } }
#[derive(Debug, Clone)] pub struct BothStr(&'static str);
impl fmt::Display for BothStr { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("bothstr") } }
impl AsRef<Path> for BothStr { fn as_ref(&self) -> &Path { Path::new(self.0) } }
/// Has methods that a careless derive could call.
#[derive(Debug, Clone)] pub struct Manual;
impl Manual { pub fn display(&self) -> u8 { 0 } pub fn fmt(&self) -> u8 { 0 } pub fn to_string(&self) -> &'static str { "wrong" } pub fn provide(&self) {} pub fn source(&self) {} }
impl fmt::Display for Manual { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("manual") } }
/// Dereferences to a path and has no Display.
#[derive(Debug, Clone)] pub struct OnlyDeref(PathBuf);
impl Deref for OnlyDeref { type Target = Path; fn deref(&self) -> &Path { &self.0 } }
fn leak(s: &OsStr) -> &'static Path { Path::new(Box::leak(Box::new(s.to_owned()))) }
"""

CONTENTS = ['OsString::from("")', 'OsString::from("a/b.txt")', 'OsString::from("/é \\n{x}\\"")',
            'OsString::from("..")', 'OsString::from("C:\\\\dir\\\\")',
            '<OsString as ::mc::realstd::os::unix::ffi::OsStringExt>::from_vec(vec![0x66, 0xff, 0x6f, 0xc3])']
PATHS = [
    ("PathBuf", "PathBuf::from(os)"), ("&'static Path", "leak(&os)"), ("&'static PathBuf", "Box::leak(Box::new(PathBuf::from(os)))"),
    ("Box<Path>", "PathBuf::from(os).into_boxed_path()"), ("Rc<Path>", "PathBuf::from(os).into()"), ("Arc<Path>", "PathBuf::from(os).into()"),
    ("Box<PathBuf>", "Box::new(PathBuf::from(os))"), ("Arc<PathBuf>", "Arc::new(PathBuf::from(os))"), ("Cow<'static, Path>", "Cow::Owned(PathBuf::from(os))"),
    ("&'static &'static Path", "Box::leak(Box::new(leak(&os)))"), ("&'static mut PathBuf", "Box::leak(Box::new(PathBuf::from(os)))"),
    ("OnlyDeref", "OnlyDeref(PathBuf::from(os))"), ("Box<Rc<&'static Path>>", "Box::new(Rc::new(leak(&os)))"),
    ("Pin<Box<Path>>", "Pin::new(PathBuf::from(os).into_boxed_path())"),
    ("::mc::realstd::path::PathBuf", "PathBuf::from(os)"),
]
DBG = " impl fmt::Debug for %s { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }\n"
GDBG = " impl<T> fmt::Debug for %s<T> { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }\n"

MSGS_D = ['{F}', 'a{F}b', '{F}{F}', '{F} {F:>9}', '{F:?} {F}', '{F:?}{F:#?}', '{F }', '{F:}', '{F}{{}}', '{F} {}']
MSGS_P = ['{F}', 'a{F}b', '{F}{F}', '{F:?} {F}', '{F} {F:#?}', '{F }', '{F} {}', '{G} {F}', '{F} {G:?}{G:>4}']


def layouts(name, ty, msgs, generic):
    """Every place the field can be in: (definition, constructor, reference)."""
    out = []
    for m in msgs:
        if "{}" in m.replace("{{}}", "") and m.count("{}") and m != '{F}{{}}':
            extra_n, extra_t = ', "{x}"', None      # ambiguous next to a number
        else:
            extra_n, extra_t = "", ""
        named = m.replace("{F", "{path").replace("{G", "{other").replace("{}", "{}")
        tup = m.replace("{F", "{0").replace("{G", "{1")
        t = "T" if generic else ty
        g = "<T>" if generic else ""
        k = '"%s"%s'
        out.append(("ns", m, "#[derive(Error)] #[error(%s)] pub struct N%s { path: %s, other: P }" % (k % (named, extra_n), g, t), "N { path: v, other: P(5) }", extra_n))
        out.append(("ev", m, "#[derive(Error)] pub enum N%s { #[error(%s)] A { other: P, path: %s }, #[error(\"{0}\")] B(P) }" % (g, k % (named, extra_n), t), "N::A { path: v, other: P(5) }", extra_n))
        if extra_t is not None:
            out.append(("ts", m, "#[derive(Error)] #[error(%s)] pub struct N%s(%s, P);" % (k % (tup, extra_t), g, t), "N(v, P(5))", extra_t))
            out.append(("ei", m, "#[derive(Error)] #[error(%s)] pub enum N%s { A(%s, P), B(P, P) }" % (k % (tup, extra_t), g, t), "N::A(v, P(5))", extra_t))
    return out


def oracle(m, extra, path):
    text = m
    if path:
        text = text.replace("{F}", "{D}").replace("{F }", "{D }")
    names = [n for n in ("D", "F", "G") if "{" + n in text]
    bind = {"D": "d", "F": "*f", "G": "P(5)"}
    return 'format_args!("%s"%s%s)' % (text, extra, "".join(", %s = %s" % (n, bind[n]) for n in names))


def display_progs(c, path):
    progs = []
    cells = DISPLAYED if not path else PATHS
    msgs = MSGS_P if path else MSGS_D

    def cell(ch):
        ty, val = ch(cells)
        gen = False if path else ch((False, True))
        if gen and ("dyn" in ty or ty.startswith("::core::fmt::Arg") or "'static" in ty):
            return None
        lay = ch(layouts("N", ty, msgs, gen))
        return ty, val, gen, lay
    groups = {}
    for ty, val, gen, lay in c.explore(cell):
        m = lay[1]
        if ("?" in m or "#" in m) and ("dyn ::core::fmt::Display" in ty):
            continue
        groups.setdefault((ty, val, gen), []).append(lay)
    for i, ((ty, val, gen), lays) in enumerate(groups.items()):
        ds, rs = [], []
        for j, (key, m, d, con, extra) in enumerate(lays):
            n = "N%d" % j
            d = d.replace(" N ", " %s " % n).replace(" N<", " %s<" % n).replace(" N(", " %s(" % n)
            ds.append(d + (GDBG if gen else DBG) % n)
            acc = con.replace("N", n, 1)
            pat = acc.replace("path: v", "path: ref v").replace("(v", "(ref v").replace("P(5)", "_")
            orc = oracle(m, extra, path)
            tag = rust_str("%s as %s" % (d, ty))
            mk = "let v: %s = %s; let e: %s = %s; #[allow(irrefutable_let_patterns)] let %s = e else { panic!() }; let f = v; %s c.msg(%s, &e, %s);" % (
                ty, val, n + ("<%s>" % ty if gen else ""), acc, pat, "let d = Path::display(f);" if path else "", tag, orc)
            rs.append(("for os in CONTENTS() { %s }\n" if path else "{ %s }\n") % mk)
        src = TYPES + USER + ("fn CONTENTS() -> Vec<OsString> { vec![%s] }\n" % ", ".join(CONTENTS) if path else "") + "".join(ds) + "pub fn run(c: &mut ::mc::Ctx) {\n" + "".join(rs) + "}"
        progs.append(Prog("%s/%s%s" % ("path" if path else "display", ty, "/generic" if gen else ""), src, len(rs)))
    return progs


def no_std(src):
    return re.sub(r"(?<![\w:])(::)?std::", "::mc::realstd::", src)


def forwarding_progs(c):
    """Requests forwarded to the source need no Backtrace type: they work without std."""
    def layout(ch):
        n, named = ch((1, 2)), ch((True, False))
        fs = []
        for i in range(n):
            if ch(("src", "own")) == "own":
                fs.append(c07.own_field(ch(("x", "n-ans", "n-str")), i))
            else:
                k = ch([k for k in c07.SRC if k not in ("own", "anyhow")])
                d, b = ch([(d, b) for d in ("name", "source", "from") for b in ("-", "a", "z") if not (d == "name" and b == "z")])
                if d == "name" and not named:
                    return None
                fs.append(c07.src_field(k, (d, b), i))
        return (fs, named) if c07.legal(fs) else None
    ls = list(c.explore(layout))
    progs = []
    common = c07.COMMON[c07.COMMON.index("#[derive(thiserror::Error, Debug)] #[error(\"fwd\")]"):c07.COMMON.index("pub fn at<")]
    for i in range(0, len(ls), 12):
        ds, rs = [], []
        for j, (fs, named) in enumerate(ls[i:i + 12]):
            for n, path, d in (("S%d" % j, "S%d" % j, "#[error(\"m\")] pub struct S%d%s%s" % (j, c07.decl(fs, named), "" if named else ";")),
                               ("E%d" % j, "E%d::V" % j, "pub enum E%d { #[error(\"u\")] U, #[error(\"v\")] V%s }" % (j, c07.decl(fs, named)))):
                ds.append("#[derive(Error)] " + d + c07.DBG % n + "\n")
                rs.append("fn r%s(c: &mut ::mc::Ctx) { %s }\n" % (n, c07.checks("no_std " + d, path, fs, named)))
        head = "use ::thiserror::Error; use ::mc::{Leaf, Ans, addr}; use ::mc::realstd::{sync::Arc, rc::Rc, error::Error as StdError}; pub type BDyn = Box<dyn StdError + Send + Sync>;\n" + USER
        progs.append(Prog("forward/%d" % i, head + "".join(ds) + "".join(rs) + "pub fn run(c: &mut ::mc::Ctx) { %s }" % "".join("r%s%d(c);" % (k, j) for j in range(len(ls[i:i + 12])) for k in "SE"), 24))
    return progs, "#![feature(error_generic_member_access)]\n" + HEAD + no_std(common)


def freestanding(c, toolchain):
    """A program with no standard library in it at all, linked and run. Were thiserror, or what
    it generates, to need std, the panic handler would be there twice."""
    b = c.bases["nostd", toolchain]
    w = os.path.join(c.work, "free-" + toolchain)
    os.makedirs(w)
    stub, exe = os.path.join(w, "stub.o"), os.path.join(w, "free")
    open(os.path.join(w, "stub.c"), "w").write("void rust_eh_personality(void){}\n")
    p = subprocess.run(["gcc", "-c", os.path.join(w, "stub.c"), "-o", stub], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise MachineryError(p.stdout)
    src = open(os.path.join(VERIF, "mc", "rs", "freestanding.rs")).read()
    name = "freestanding/" + toolchain
    for opt in ("1", "3") if c.thorough else ("1",):
        c.count(1)
        p = subprocess.run(["rustc", "--edition=2021", os.path.join(VERIF, "mc", "rs", "freestanding.rs"), "-o", exe, "--extern", "thiserror=" + b.externs["thiserror"], "-L", "dependency=" + os.path.dirname(b.macro),
                            "-L", "dependency=" + os.path.dirname(b.externs["thiserror"]), "-Cpanic=abort", "-Copt-level=" + opt, "-Clink-arg=" + stub, "-Clink-arg=-lc", "-Aunused"],
                           env=clean_env(RUSTUP_TOOLCHAIN=toolchain), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200)
        if p.returncode:
            c.direct_violation(name, "does not compile without a standard library", [p.stderr[-600:]], "/*\n%s\n*/\n%s" % (p.stderr[-3000:], src))
            continue
        p = subprocess.run([exe], env=clean_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        c.cov["traces_validated_against_impl"] += 1
        if p.returncode:
            c.direct_violation(name, "case %d differs" % p.returncode, [], src)


def run(tier=None):
    c = Check("C13", "model_checking", tier)
    c.bases_parallel(("std", "stable"), ("nostd", "stable"), ("std", NIGHTLY), ("nostd", NIGHTLY))
    freestanding(c, STABLE)
    freestanding(c, NIGHTLY)
    disp = display_progs(c, False)
    paths = display_progs(c, True)
    c.sample(disp[3].src[len(TYPES):][:600])
    c.sample(paths[0].src[len(TYPES):][:900])
    c.run_progs(disp, tag="ds")
    c.run_progs(disp, tag="dn", kind="nostd", head=HEAD)
    c.run_progs(paths, tag="ps")
    c.run_progs(paths, tag="pn", toolchain=NIGHTLY)
    fwd, fhead = forwarding_progs(c)
    c.run_progs(fwd, tag="fw", kind="nostd", toolchain=NIGHTLY, head=fhead)
    # everything the other checks know, against the no_std library
    total = 0
    for mod in (c01, c02, c03, c04, c05, c06, c08, c12):
        got, st, tr = collect(mod, "thorough" if c.thorough and mod in (c03, c04, c06) else "quick")
        c.count(st, tr)
        for progs, toolchain, head, edition, externs, env in got:
            if toolchain != "stable" or edition != "2021":
                continue
            h = HEAD + head.replace("#![allow(warnings)]\n", "")
            # (shadow/: the finding listed under C02, whatever the configuration)
            tail = [Prog(p.id, USER + no_std(p.src), p.cases) for p in progs if not p.id.startswith("shadow/")]
            total += len(tail)
            c.run_progs(tail, tag=mod.__name__[-3:], kind="nostd", head=no_std(h), externs=externs, env=env)
    return c.finish(rule="every program of the message, argument, source, transparent, from, generics, variant and writer-fault checks compiled without std in scope against the no_std library, with the same oracles; every displayable and every path type in every position",
                    programs=len(disp) * 2 + len(paths) * 2 + total)
