"""C14: the generated code adds no warnings."""
import bisect
import collections
import concurrent.futures as cf
import json
import os
import re
import subprocess
from .core import Check, Prog, JOBS, MachineryError, NIGHTLY, STABLE, clean_env, diag_lines, render

HEAD = "//! Crate.\n"
COMMON = """#[allow(warnings, clippy::all, clippy::pedantic, clippy::nursery, clippy::restriction)] pub mod common { use ::std::{error::Error as StdError, fmt};
#[deprecated] #[derive(Debug)] pub struct Old;
#[allow(deprecated)] impl fmt::Display for Old { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
#[allow(deprecated)] impl fmt::LowerHex for Old { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
#[allow(deprecated)] impl fmt::Pointer for Old { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
#[allow(deprecated)] impl StdError for Old {}
#[deprecated] #[derive(Debug)] pub struct OldG<T>(pub T);
#[allow(deprecated)] impl<T: fmt::Display> fmt::Display for OldG<T> { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
#[allow(deprecated)] impl<T: fmt::LowerHex> fmt::LowerHex for OldG<T> { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
#[allow(deprecated)] impl<T: fmt::Pointer> fmt::Pointer for OldG<T> { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
#[allow(deprecated)] impl<T: StdError> StdError for OldG<T> {}
pub fn mod_show(_: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { Ok(()) }
}
"""
PRE = """use ::thiserror::Error; #[allow(unused_imports)] use ::std::{error::Error as StdError, boxed::Box, string::String, fmt, io}; #[allow(unused_imports, deprecated)] use crate::common::{Old, OldG};
"""

NAMES = ["x", "_x", "X", "__x", "x__y", "r#type", "x0", "é", "source", "r#async", "r#gen", "backtrace_", "f", "fmt", "formatter"]
# what the field is for: (key, attribute, type, message with {N}, allowed as a struct)
ROLES = [
    ("plain", "", "&'static str", '#[error("m {N}")]'),
    ("spec", "", "u8", '#[error("m {N:>4} {N:?} {N:#x}")]'),
    ("ptr", "", "&'static u8", '#[error("m {N:p} {N}")]'),
    ("arg", "", "String", '#[error("m {}", .N)]'),
    ("argexpr", "", "String", '#[error("m {} {n}", .N.len(), n = .N.clone())]'),
    ("unused", "", "u8", '#[error("m")]'),
    ("fmt", "", "u8", "#[error(fmt = show)]"),
    ("path", "", "::std::path::PathBuf", '#[error("m {N}")]'),
    ("pathdbg", "", "::std::path::PathBuf", '#[error("m {N} {N:?}")]'),
    ("source", "#[source]", "io::Error", '#[error("m")]'),
    ("sourcemsg", "#[source]", "io::Error", '#[error("m {N}")]'),
    ("sourcebox", "#[source]", "Box<dyn StdError + Send + Sync>", '#[error("m")]'),
    ("sourceopt", "#[source]", "Option<io::Error>", '#[error("m")]'),
    ("from", "#[from]", "io::Error", '#[error("m")]'),
    ("frommsg", "#[from]", "io::Error", '#[error("m {N}")]'),
    ("fromopt", "#[from]", "Option<io::Error>", '#[error("m")]'),
    ("frombox", "#[from]", "Box<dyn StdError>", '#[error("m")]'),
    ("transparent", "", "io::Error", "#[error(transparent)]"),
    ("transparentfrom", "#[from]", "io::Error", "#[error(transparent)]"),
    ("byname", "", "io::Error", '#[error("m")]'),
    ("old", "#[allow(deprecated)]", "Old", '#[error("m {N} {N:?}")]'),
    ("oldsource", "#[source] #[allow(deprecated)]", "Old", '#[error("m")]'),
    ("oldfrom", "#[from] #[allow(deprecated)]", "Old", '#[error("m")]'),
    ("oldtransparent", "#[allow(deprecated)]", "Old", "#[error(transparent)]"),
    ("oldtransfrom", "#[from] #[allow(deprecated)]", "Old", "#[error(transparent)]"),
]
GENERIC = [
    ("gdisplay", "", "T", '#[error("m {N}")]', "T"),
    ("gdebug", "", "Box<T>", '#[error("m {N:?}")]', "T"),
    ("gpath", "", "T", '#[error("m {N:x} {N:p}")]', "T"),
    ("gsource", "#[source]", "T", '#[error("m")]', "T"),
    ("gfrom", "#[from]", "Box<T>", '#[error("m")]', "T: StdError + 'static"),
    ("gtrans", "", "T", "#[error(transparent)]", "T"),
    ("gunused", "", "T", '#[error("m")]', "T"),
    ("gold", "#[allow(deprecated)]", "OldG<T>", '#[error("m {N}")]', "T"),
    ("goldhex", "#[allow(deprecated)]", "OldG<T>", '#[error("m {N:x}")]', "T"),
    ("goldsource", "#[allow(deprecated)] #[source]", "OldG<T>", '#[error("m")]', "T"),
    ("goldfrom", "#[allow(deprecated)] #[from]", "OldG<T>", '#[error("m")]', "T"),
    ("goldtrans", "#[allow(deprecated)]", "OldG<T>", "#[error(transparent)]", "T"),
    ("gwhere", "", "T", '#[error("m {N}")]', "T: fmt::Display + fmt::Debug"),
    ("life", "", "&'a str", '#[error("m {N}")]', "'a"),
    ("lifeunused", "", "&'a str", '#[error("m")]', "'a"),
    ("lifefrom2", "", "Option<&'a u8>", '#[error("m {N:?}")]', "'a"),
    ("const", "", "[u8; N0]", '#[error("m {N:?}")]', "const N0: usize"),
]
BT = [
    ("bt", "", "::std::backtrace::Backtrace", '#[error("m")]'),
    ("btopt", "#[backtrace]", "Option<::std::backtrace::Backtrace>", '#[error("m")]'),
    ("btattr", "#[backtrace]", "::std::sync::Arc<::std::backtrace::Backtrace>", '#[error("m")]'),
    ("btsrc", "#[source] #[backtrace]", "io::Error", '#[error("m")]'),
    ("btfrom", "#[from] #[backtrace]", "io::Error", '#[error("m")]'),
    ("bttransfrom", "#[from] #[backtrace]", "io::Error", "#[error(transparent)]"),
]
# a second field, or none: (definition when named, when a tuple, message addition)
SECOND = ["none", "plain", "backtrace", "optbacktrace", "source", "boxed"]
SECONDS = {"none": None, "plain": ("y", "", "i16"), "backtrace": ("bt", "", "::std::backtrace::Backtrace"),
           "optbacktrace": ("bt", "#[backtrace]", "Option<::std::backtrace::Backtrace>"), "source": ("src", "#[source]", "fmt::Error"),
           "boxed": ("src", "#[source]", "Box<dyn StdError + 'static>")}
DEPR = ["none", "type", "variant", "field", "field2"]


def program(shape, role, name, second, depr, allow, vis, nightly, item):
    """-> source of a program, or None when it is not a legal use."""
    key, attr, ty, msg = role[:4]
    generics = role[4] if len(role) > 4 else None
    if second in ("backtrace", "optbacktrace") and not nightly:
        return None
    if "trans" in key and second != "none":
        return None
    if attr.startswith("#[from]") or "#[from]" in attr:
        if second in ("plain", "source", "boxed"):
            return None
    if second in ("source", "boxed") and ("source" in key or "src" in key or key in ("byname",)):
        return None
    if second in ("source", "boxed") and name == "source" and shape == "named":
        return None     # a field named source is the source
    if key.startswith("bt") and second in ("backtrace", "optbacktrace"):
        return None
    if key == "bttrans" and second != "none":
        return None
    if shape == "tuple" and name != "x":
        return None
    if key == "byname" and not (shape == "named" and name == "source"):
        return None
    if name == "source" and shape == "named" and not (key in ("byname", "from", "frommsg", "fromopt", "frombox", "source", "sourcemsg", "transparent", "transparentfrom",
                                                        "sourceopt", "sourcebox", "oldsource", "oldfrom", "old", "oldtransparent", "oldtransfrom", "gsource", "gfrom", "gtrans", "goldsource",
                                                        "btsrc", "btfrom", "bttrans") ):
        return None
    if depr == "variant" and item != "enum":
        return None
    if depr == "field2" and second == "none":
        return None
    plain = name[2:] if name.startswith("r#") else name
    if allow == "allow":
        if not (name in ("X", "é", "x__y")) or shape != "named":
            return None
    ref = plain if shape == "named" else "0"
    msg = re.sub(r"\{N([:}])", lambda m: "{" + ref + m.group(1), msg)
    msg = msg.replace(".N", "." + (name if shape == "named" else "0"))
    d = {k: "#[deprecated] " if depr == k else "" for k in DEPR}
    al = "#[allow(non_snake_case, non_ascii_idents)] " if allow == "allow" else ""
    fs = [(name, al + d["field"] + attr, ty)]
    if second != "none":
        n2, a2, t2 = SECONDS[second]
        fs.append((n2, d["field2"] + a2, t2))
    v = vis if item == "struct" else ""
    if shape == "named":
        body = "{ " + ", ".join("%s %s%s: %s" % (a, v, n, t) for n, a, t in fs) + " }"
        end = ""
    else:
        body = "(" + ", ".join("%s %s%s" % (a, v, t) for n, a, t in fs) + ")"
        end = ";"
    g = "<%s>" % generics if generics else ""
    show = ""
    if key == "fmt":
        tys = ["&" + ty for _, _, ty in fs]
        show = "fn show(%s, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) }\n" % ", ".join("_: " + t for t in tys)
        if vis:
            show = "#[allow(dead_code, clippy::all, clippy::pedantic, clippy::restriction, clippy::nursery)] pub " + show
        else:
            show = "#[allow(dead_code, clippy::all, clippy::pedantic, clippy::restriction, clippy::nursery)] " + show
    if item == "struct":
        return PRE + show + "%s#[derive(Error, Debug)] %s %s struct Er%s %s%s\n" % (d["type"], msg, vis, g, body, end)
    others = {"enum": '#[error("other")] Other', "enumone": "", "enumtwo": '#[error("{0}")] Other(u8), #[error(transparent)] Last(fmt::Error)'}[item if item in ("enumone", "enumtwo") else "enum"]
    dv = d["variant"]
    return PRE + show + "%s#[derive(Error, Debug)] %s enum Er%s { %s %sV%s%s }\n" % (d["type"], vis, g, msg, dv, body, ", " + others if others else "")


EXTRA = [
    ("unit", '#[derive(Error, Debug)] #[error("m")] pub struct Er;'),
    ("braces", '#[derive(Error, Debug)] #[error("m")] pub struct Er {}'),
    ("paren", '#[derive(Error, Debug)] #[error("m")] pub struct Er();'),
    ("empty", "#[derive(Error, Debug)] pub enum Er {}"),
    ("nodisplay", "#[derive(Error, Debug)] pub struct Er(u8); impl fmt::Display for Er { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }"),
    ("lower", '#[allow(non_camel_case_types)] #[derive(Error, Debug)] #[error("m")] pub struct error_type(u8);'),
    ("lowervar", '#[allow(non_camel_case_types)] #[derive(Error, Debug)] pub enum error_type { #[error("m")] first_one(u8), #[error("m {x}")] second { x: u8 }, #[error("n")] third(#[from] io::Error) }'),
    ("enummsg", '#[derive(Error, Debug)] #[error("m")] pub enum Er { A(u8), #[error("{0}")] B(u8) }'),
    ("nonexh", '#[derive(Error, Debug)] #[non_exhaustive] pub enum Er { #[error("m")] A { x: u8 }, #[error("{0}")] #[non_exhaustive] B(#[from] io::Error) }'),
    ("mustuse", '#[derive(Error, Debug)] #[must_use] #[error("m {x}")] #[non_exhaustive] pub struct Er { pub x: u8 }'),
    ("docs", '/// Type.\n#[derive(Error, Debug)] pub enum Er { /// Variant.\n #[error("m {x}")] A { /// Field.\n x: u8 } }'),
    ("where", '#[derive(Error, Debug)] #[error("m {0}")] pub struct Er<T>(T) where T: fmt::Display;'),
    ("single", "#[derive(Error, Debug)] #[error(\"m {0}\")] pub struct Er<'a, T: fmt::Display>(&'a T);"),
    ("twolife", "#[derive(Error, Debug)] #[error(\"m {0}{1}\")] pub struct Er<'a, 'b: 'a>(&'a str, &'b str);"),
    ("cfgattr", '#[derive(Error, Debug)] #[cfg_attr(all(), error("m {x}"))] pub struct Er { #[cfg(all())] x: u8, #[cfg(any())] y: u8 }'),
    ("multiline", '#[derive(Error, Debug)] #[error("a {} {} {name}", self.x, 1 + 2, name = u8::max(5, 3))] pub struct Er { x: u8 }'),
    ("closure", '#[derive(Error, Debug)] #[error("a {}", .0.chars().map(|s| s.len_utf8() + 1).sum::<usize>())] pub struct Er(String);'),
    ("shorthand", '#[derive(Error, Debug)] pub enum Er { #[error("{} {}", .0, .1)] A(u8, u8), #[error("{a}", a = .b)] B { b: u8 } }'),
    ("macro", 'macro_rules! mk { ($n:ident, $f:ident, $t:ty) => { #[derive(Error, Debug)] #[error("m {}", .$f)] pub struct $n { $f: $t } } } mk!(Er, x, u8);'),
    ("macrofrom", 'macro_rules! mk { ($n:ident, $t:ty) => { #[derive(Error, Debug)] pub enum $n { #[error("m {0}")] A(#[from] $t), #[error("x")] B { #[source] e: $t } } } } mk!(Er, io::Error);'),
    ("oldvar2", '#[derive(Error, Debug)] pub enum Er { #[deprecated] #[error("m {0}")] A(#[from] io::Error), #[deprecated] #[error(transparent)] B(#[from] fmt::Error), #[deprecated] #[error("{x}")] C { #[deprecated] x: u8, #[deprecated] source: ::std::num::ParseIntError } }'),
    ("oldconst", '#[deprecated] pub const K: u8 = 1; #[derive(Error, Debug)] #[error("m {}", 5)] pub struct Er;'),
    ("inmod", 'mod inner { use ::thiserror::Error; #[derive(Error, Debug)] #[error("m {0}")] pub(super) struct Er(pub(super) u8); } pub fn f() -> u8 { inner::Er(1).0 }'),
    ("infn", 'pub fn f() -> String { #[derive(Error, Debug)] #[error("m {0}")] struct Er(u8); Er(1).0.to_string() }'),
    ("qualified", '#[derive(thiserror::Error, std::fmt::Debug)] #[error("m {0}")] pub struct Er(#[from] std::io::Error);'),
    ("large", '#[derive(Error, Debug)] #[error("{a}{b}{c}{d}{e}{f}{g}{h}{i}")] pub struct Er { a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8, i: u8 }'),
    ("never", '#[derive(Error, Debug)] pub enum Er { #[error("{0}")] A(::std::convert::Infallible), #[error(transparent)] B(::std::convert::Infallible) }'),
    ("selfmethod", '#[derive(Error, Debug)] #[error("m {}", self.text())] pub struct Er(u8); impl Er { fn text(&self) -> u8 { self.0 } }'),
    ("arcdyn", '#[derive(Error, Debug)] #[error("m")] pub struct Er(#[source] ::std::sync::Arc<dyn StdError + Send + Sync>);'),
    ("fnptr", '#[derive(Error, Debug)] #[error("m {0:?}")] pub struct Er(fn(u8) -> u8);'),
    ("default", '#[derive(Error, Debug)] #[error("m {0}")] pub struct Er<T = String>(T);'),
    ("fmtgen", 'fn show<T>(_: &T, _: &mut fmt::Formatter<\'_>) -> fmt::Result { Ok(()) } #[derive(Error, Debug)] pub enum Er<T> { #[error(fmt = show::<T>)] A(T), #[error(fmt = crate::common::mod_show)] B }'),
    ("oldfmt", '#[deprecated] pub fn show(_: &u8, _: &mut fmt::Formatter<\'_>) -> fmt::Result { Ok(()) } #[derive(Error, Debug)] pub enum Er { #[allow(deprecated)] #[error(fmt = show)] A(u8) }'),
]
RECURSIVE = [
    '#[derive(Error, Debug)] #[error("{self}")] pub struct Er;',
    '#[derive(Error, Debug)] #[error("m {self} {x}")] pub struct Er { x: u8 }',
    '#[derive(Error, Debug)] #[error("{0} {self:>5}")] pub struct Er(u8);',
    '#[derive(Error, Debug)] pub enum Er { #[error("{self}")] A, #[error("{0}")] B(u8) }',
    '#[derive(Error, Debug)] pub enum Er { #[error("{x}")] A { x: u8 }, #[error("a{self}b{0}")] B(u8) }',
    '#[derive(Error, Debug)] #[error("{self}")] pub enum Er { A, B(u8) }',
]



def unused(per):
    """dead_code names what is unused, which using more of a type may change: count only."""
    out = collections.Counter()
    for (code, m), n in per.items():
        out[(code, "" if code == "dead_code" else m)] += n
    return out


def lint_names(toolchain):
    h = subprocess.run(["rustc", "-W", "help"], stdout=subprocess.PIPE, text=True, env=clean_env(RUSTUP_TOOLCHAIN=toolchain)).stdout
    return [n for n, l in re.findall(r"^\s+([a-z0-9-]+)\s+(allow|warn|deny)\s", h, re.M) if l == "allow"]


class Linter:
    def __init__(self, c, toolchain, clippy):
        self.c, self.toolchain, self.clippy = c, toolchain, clippy
        self.base = c.base("std", toolchain)
        env = clean_env(RUSTUP_TOOLCHAIN=toolchain)
        self.env = env
        self.exe = "rustc"
        if clippy:
            sysroot = subprocess.run(["rustc", "--print", "sysroot"], stdout=subprocess.PIPE, text=True, env=env).stdout.strip()
            self.exe = os.path.join(sysroot, "bin", "clippy-driver")
            self.env["LD_LIBRARY_PATH"] = sysroot + "/lib"
            if not os.path.exists(self.exe):
                raise MachineryError("no clippy-driver")
        self.noop = os.path.join(c.work, "libnoop-%s.so" % toolchain)
        if not os.path.exists(self.noop):
            p = subprocess.run(["rustc", "--edition=2021", "--crate-type=proc-macro", "--crate-name=noop", os.path.join(os.path.dirname(__file__), "rs", "noop.rs"), "-o", self.noop],
                               env=clean_env(RUSTUP_TOOLCHAIN=toolchain), stderr=subprocess.PIPE, text=True)
            if p.returncode:
                raise MachineryError(p.stderr)
        self.lints = []
        if clippy:
            self.lints = ["clippy::" + g for g in ("all", "pedantic", "allow_attributes", "allow_attributes_without_reason")]
        self.lints += lint_names(toolchain)

    def compile(self, src, noop, edition):
        cmd = [self.exe, "--edition=" + edition, "--crate-type=lib", "--crate-name=user", "--emit=metadata", "-o", src[:-3] + (".n" if noop else ".r") + (".c" if self.clippy else "") + ".rmeta",
               "--error-format=json", "-L", "dependency=" + self.base.deps, "--extern", "thiserror=" + (self.noop if noop else self.base.externs["thiserror"])]
        for l in self.lints:
            cmd += ["-W", l]
        p = subprocess.run(cmd + [src], env=self.env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
        if p.returncode not in (0, 1):
            raise MachineryError("%s: %s" % (self.exe, p.stderr[-2000:]))
        out = []
        for l in p.stderr.splitlines():
            try:
                out.append(json.loads(l))
            except ValueError:
                pass
        return out

    def judge(self, progs, i, edition, head):
        """-> [Counter of (code, message)] of what the real derive adds to every program, and [(code, message)] errors."""
        text, starts = render(progs, head, run=False)
        src = os.path.join(self.c.work, "l%d-%s-%s-%d.rs" % (i, self.toolchain, edition, self.clippy))
        open(src, "w").write(text)
        both = []
        for noop in (False, True):
            per = [collections.Counter() for _ in progs]
            for d in self.compile(src, noop, edition):
                code = (d.get("code") or {}).get("code")
                lvl = d.get("level", "")
                if lvl not in ("warning",) and not lvl.startswith("error"):
                    continue
                ls = diag_lines(d, src)
                if not ls:
                    if "emitted" in d["message"] or "aborting" in d["message"] or code in ("unknown_lints", "unused_crate_dependencies") or d["message"].startswith(("unknown lint", "extern crate")):
                        continue
                    if lvl.startswith("error"):
                        raise MachineryError(d["message"])
                    continue
                k = bisect.bisect_right(starts, ls[0]) - 1
                if k < 0 or k >= len(progs):
                    if lvl.startswith("error"):
                        raise MachineryError("%s: %s" % (src, d["message"]))
                    continue
                if lvl.startswith("error") and noop:
                    raise MachineryError("a program is wrong without the derive: %s: %s\n%s" % (progs[k].id, d["message"], progs[k].src))
                per[k][("error" if lvl.startswith("error") else code, d["message"])] += 1
            both.append(per)
        for n in (".n", ".r"):
            f = src[:-3] + n + (".c" if self.clippy else "") + ".rmeta"
            if os.path.exists(f):
                os.remove(f)
        self.c.notes["diagnostics"] += sum(sum(x.values()) for per in both for x in per)
        return [unused(a) - unused(b) for a, b in zip(*both)]


def sweep(c, progs, toolchain, edition, clippy, expect=None, head=HEAD, chunk=120):
    ln = Linter(c, toolchain, clippy)
    parts = [progs[i:i + chunk] for i in range(0, len(progs), chunk)]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = [r for rs in ex.map(lambda i: ln.judge(parts[i], i, edition, head), range(len(parts))) for r in rs]
    for p, added in zip(progs, res):
        if expect:
            # exactly one warning of that lint
            n = sum(v for k, v in added.items() if k[0] == expect)
            added = collections.Counter({k: v for k, v in added.items() if k[0] != expect})
            if n != 1:
                c.direct_violation(p.id, "%d %s warnings instead of one" % (n, expect), [], HEAD + p.src)
        if added:
            c.direct_violation("%s/%s/%s" % (p.id, edition, "clippy" if clippy else "rustc"),
                               "the derive adds warnings" if not any(k[0] == "error" for k in added) else "does not compile",
                               ["%s: %s (x%d)" % (k[0], k[1], n) for k, n in added.items()],
                               "// %s edition %s; programs of this check are compiled with this derive and with one that expands to nothing\n" % (toolchain, edition) + p.src)
    c.cov["traces_validated_against_impl"] += len(progs)
    from .core import log
    log("[C14] %s %s %s: %d programs, %d violations, %.1fs" % (toolchain, edition, "clippy" if clippy else "rustc", len(progs), len(c.violations), __import__("time").time() - c.t0))


def programs(c, nightly, thorough):
    def one(ch):
        role = ch(ROLES + GENERIC + (BT if nightly else []))
        shape = ch(("named", "tuple"))
        name = ch(NAMES) if shape == "named" else "x"
        item = ch(("struct", "enum", "enumone", "enumtwo"))
        if role[0] == "fmt" and item == "struct":
            return None
        second = ch(SECOND)
        depr = ch(DEPR)
        vis = ch(("pub ", "", "pub(crate) ")) if thorough else ch(("pub ", ""))
        allow = ch(("", "allow")) if name in ("X", "é", "x__y") else ""
        if not thorough:
            # two dimensions away from the plain program, or one with every name
            off = (name != "x") + (item != "struct") + (second != "none") + (depr != "none") + (vis != "pub ")
            if off > 2 or (allow and off > 2):
                return None
        src = program(shape, role, name, second, depr, allow, vis, nightly, item)
        if src is None:
            return None
        return Prog("/".join((role[0], shape, name, item, second, depr, vis.strip() or "priv", allow)), src)
    return list(c.explore(one))


def run(tier):
    c = Check("C14", "model_checking", tier)
    c.notes = collections.Counter()
    c.bases_parallel(("std", STABLE), ("std", NIGHTLY))
    extra = [Prog("extra/" + k, PRE + s) for k, s in EXTRA]
    rec = [Prog("self/%d" % i, PRE + s) for i, s in enumerate(RECURSIVE)]
    c.count(len(extra) + len(rec))
    st = programs(c, False, c.thorough) + extra
    sweep(c, st, STABLE, "2021", False, head=HEAD + COMMON)
    return _finish(c, st, rec, extra)


def _finish(c, st, rec, extra):
    ed = [p for p in st if c.thorough or p.id.endswith(("struct/none/none/pub/", "enum/none/none/pub/")) or p.id.startswith("extra")]
    for e in ("2018", "2024"):
        sweep(c, ed, STABLE, e, False, head=HEAD + COMMON)
    sweep(c, st, STABLE, "2021", True, head=HEAD + COMMON)
    sweep(c, rec, STABLE, "2021", False, expect="unconditional_recursion", head=HEAD + COMMON)
    nh = "//! Crate.\n#![feature(error_generic_member_access)]\n"
    ni = [p for p in programs(c, True, c.thorough)] + extra
    if not c.thorough:
        ni = [p for p in ni if p.id.startswith(("bt", "extra")) or "backtrace" in p.id or "source" in p.id or "from" in p.id or "trans" in p.id]
    sweep(c, ni, NIGHTLY, "2021", False, head=nh + COMMON)
    return c.finish(diagnostics_compared=c.notes["diagnostics"])
