"""C07: requests for a backtrace reach the designated backtrace (nightly)."""
import itertools
from .core import Check, Prog, rust_str, NIGHTLY
from .c01 import DBG
from .c06 import HEAD_N

HEADER = """use ::thiserror::Error; use ::mc::{Leaf, Ans, addr};
use ::std::{boxed::Box, sync::Arc, rc::Rc, error::Error as StdError, backtrace::Backtrace};
pub type Bt = Backtrace; pub type BDyn = Box<dyn StdError + Send + Sync>;
"""
COMMON = """
pub fn bt() -> ::std::backtrace::Backtrace { ::std::backtrace::Backtrace::disabled() }
#[derive(thiserror::Error, Debug)] #[error("der")] pub struct Der { backtrace: ::std::backtrace::Backtrace, on: bool }
#[derive(thiserror::Error, Debug)] #[error("fwd")] pub struct Fwd(#[backtrace] #[source] pub ::mc::Ans);
pub fn at<T: ?::core::marker::Sized + ::std::error::Error>(e: &T) -> usize { struct W<'a, T: ?Sized>(&'a T); ::mc::addr(e) }
pub mod own { #[derive(Debug)] pub struct Backtrace(pub ::mc::Ans); impl ::core::fmt::Display for Backtrace { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str("own") } }
  impl ::std::error::Error for Backtrace { fn provide<'a>(&'a self, r: &mut ::std::error::Request<'a>) { self.0.provide(r) } } }
"""
# own backtraces: attr, type, [(value, answer)], found by (None: not a backtrace)
# answer: expression given `f: &Field`, 0 = does not answer
OWN = {
    "b": ("", "Backtrace", [("super::bt()", "addr(f)")], "type"),
    "bp": ("", "::std::backtrace::Backtrace", [("super::bt()", "addr(f)")], "type"),
    "ba": ("#[backtrace] ", "Backtrace", [("super::bt()", "addr(f)")], "attr"),
    "boa": ("#[backtrace] ", "Option<Backtrace>", [("Some(super::bt())", "addr(f.as_ref().unwrap())"), ("None", "0")], "attr"),
    "bop": ("#[backtrace] ", "::std::option::Option<::std::backtrace::Backtrace>", [("Some(super::bt())", "addr(f.as_ref().unwrap())"), ("None", "0")], "attr"),
    "boaa": ("#[backtrace] ", "Option<Arc<Backtrace>>", [("Some(Arc::new(super::bt()))", "addr(&**f.as_ref().unwrap())"), ("None", "0")], "attr"),
    "baa": ("#[backtrace] ", "Arc<Backtrace>", [("Arc::new(super::bt())", "addr(&**f)")], "attr"),
    "bba": ("#[backtrace] ", "Box<Backtrace>", [("Box::new(super::bt())", "addr(&**f)")], "attr"),
    "bra": ("#[backtrace] ", "Rc<Backtrace>", [("Rc::new(super::bt())", "addr(&**f)")], "attr"),
    "bal": ("#[backtrace] ", "Bt", [("super::bt()", "addr(f)")], "attr"),
    "n-ob": ("", "Option<Backtrace>", [("Some(super::bt())", "0")], None),
    "n-arc": ("", "Arc<Backtrace>", [("Arc::new(super::bt())", "0")], None),
    "n-raw": ("", "::std::backtrace::r#Backtrace", [("super::bt()", "0")], None),
    "n-alias": ("", "Bt", [("super::bt()", "0")], None),
    "n-ref": ("", "&'static Backtrace", [("Box::leak(Box::new(super::bt()))", "0")], None),
    "x": ("", "u8", [("1", "0")], None),
    "n-ans": ("", "Ans", [("Ans::new(true)", "0")], None),
    "n-str": ("", "&'static str", [("\"Backtrace\"", "0")], None),
}
A = lambda acc: "{ let a: &Ans = %s; if a.on { addr(&a.bt) } else { 0 } }" % acc
SRC = {
    "ans": ("Ans", [("Ans::new(true)", A("f")), ("Ans::new(false)", "0")], True),
    "dyn": ("Box<dyn StdError>", [("Box::new(Ans::new(true))", A("f.downcast_ref().unwrap()")), ("Box::new(Leaf(1))", "0")], False),
    "dynss": ("BDyn", [("Box::new(Ans::new(true))", A("f.downcast_ref().unwrap()")), ("Box::new(Ans::new(false))", "0")], True),
    "box": ("Box<Ans>", [("Box::new(Ans::new(true))", A("&**f"))], True),
    "arc": ("Arc<Ans>", [("Arc::new(Ans::new(true))", A("&**f")), ("Arc::new(Ans::new(false))", "0")], True),
    "opt": ("Option<Ans>", [("Some(Ans::new(true))", A("f.as_ref().unwrap()")), ("Some(Ans::new(false))", "0"), ("None", "0")], None),
    "optdyn": ("Option<Box<dyn StdError + Send + Sync>>", [("Some(Box::new(Ans::new(true)))", A("f.as_ref().unwrap().downcast_ref().unwrap()")), ("None", "0")], None),
    "ref": ("&'static Ans", [("Box::leak(Box::new(Ans::new(true)))", A("*f"))], True),
    "fwd": ("super::Fwd", [("super::Fwd(Ans::new(true))", A("&f.0")), ("super::Fwd(Ans::new(false))", "0")], True),
    "leaf": ("Leaf", [("Leaf(1)", "0")], False),
    "anyhow": ("::anyhow::Error", [("::anyhow::Error::msg(\"x\").context(Ans::new(true))", None)], None),
    "own": ("super::own::Backtrace", [("super::own::Backtrace(Ans::new(true))", A("&f.0")), ("super::own::Backtrace(Ans::new(false))", "0")], True),
}


class F:
    """A field: how it is designated and what its values answer."""
    def __init__(self, key, name, attr, ty, values, bt, src, srcname):
        self.key, self.name, self.attr, self.ty, self.values, self.bt, self.src, self.srcname = key, name, attr, ty, values, bt, src, srcname


def own_field(k, i):
    a, t, vs, bt = OWN[k]
    return F(k, "f%d" % i, a, t, [(v, ans, None) for v, ans in vs], bt, None, False)


def src_field(k, how, i):
    """how: (designation, backtrace attribute first / last / absent)"""
    t, vs, fw = SRC[k]
    d, b = how
    at = {"name": "", "source": "#[source] ", "from": "#[from] "}[d]
    at = {"-": at, "a": "#[backtrace] " + at, "z": at + "#[backtrace] "}[b]
    vals = [(v, ans, fw if fw is not None else (v.startswith("Some"))) for v, ans in vs]
    if k == "dyn":
        vals = [(v, ans, "Ans" in v) for v, ans, _ in vals]
    bt = "attr" if b != "-" else ("type" if k == "own" else None)
    return F("%s:%s%s" % (k, d, b), "source" if d == "name" else "f%d" % i, at, t, vals, bt, "attr" if d != "name" else None, d == "name")


def legal(fs):
    if sum(f.src is not None for f in fs) > 1 or sum(f.bt == "attr" for f in fs) > 1 or sum(f.srcname for f in fs) > 1:
        return False
    bt, s = model(fs)
    if bt is not None and fs[bt].key not in OWN and bt != s:
        return False          # an error is designated as the backtrace, but not as the source
    for f in fs:
        if "#[from]" in f.attr:
            if len(fs) > 2:
                return False
            if len(fs) == 2:
                other = [g for g in fs if g is not f][0]
                # the other field must be the backtrace that the conversion captures
                if not other.bt or f.bt or "Option<Arc" in other.ty:
                    return False
    return True


def model(fs):
    bt = next((i for i, f in enumerate(fs) if f.bt == "attr"), None)
    if bt is None:
        bt = next((i for i, f in enumerate(fs) if f.bt == "type"), None)
    s = next((i for i, f in enumerate(fs) if f.src), None)
    if s is None:
        s = next((i for i, f in enumerate(fs) if f.srcname), None)
    return bt, s


def decl(fs, named):
    body = ", ".join("%s%s%s" % (f.attr, "%s: " % f.name if named else "", f.ty) for f in fs)
    return (" { %s }" if named else "(%s)") % body


def checks(tag, path, fs, named):
    bt, s = model(fs)
    o = []
    mem = lambda i: fs[i].name if named else str(i)
    for combo in itertools.product(*[f.values for f in fs]):
        val = "%s { %s }" % (path, ", ".join("%s: %s" % (mem(i), c[0]) for i, c in enumerate(combo)))
        def ans(i):
            return "{ let %s { %s: f, .. } = &e else { panic!() }; %s }" % (path, mem(i), combo[i][1])
        fw = None
        if bt is None:
            want, fw = "&[0]", False
        elif bt == s:
            want, fw = "&[%s]" % ans(s), combo[s][2]
        elif s is None:
            want, fw = "&[%s]" % ans(bt), False
        elif fs[bt].bt == "type":
            want, fw = "&[{ let s = %s; if s != 0 { s } else { %s } }]" % (ans(s), ans(bt)), combo[s][2]
        else:
            # an explicitly marked field next to a source: the documentation leaves open whether the source is asked too
            want = "&[{ let o = %s; if o != 0 { o } else { %s } }, { let s = %s; if s != 0 { s } else { %s } }]" % (ans(bt), ans(s), ans(s), ans(bt))
            if combo[bt][1] == "0":
                want = "&[%s, 0]" % ans(s)
        if s is not None and combo[s][1] is None:
            continue
        o.append("{ let e = %s; let w: &[usize] = %s; c.bt_is(%s, &e, w, %s); }\n" % (val, want, rust_str(tag), "None" if fw is None else "Some(%s)" % str(fw).lower()))
    return "".join(o)


GENERIC = HEADER + """
#[derive(Error, Debug)] #[error("g")] pub struct A<T> { source: T, backtrace: Backtrace }
#[derive(Error, Debug)] #[error("g")] pub struct B<T>(#[source] #[backtrace] T);
#[derive(Error, Debug)] #[error("g")] pub struct C<T: StdError + 'static> { #[backtrace] source: Option<T>, t: Arc<T> }
#[derive(Error, Debug)] pub enum D<'a, T> where T: StdError + 'static { #[error("x")] X(#[backtrace] #[source] T), #[error("y")] Y(&'a str, Backtrace), #[error("z")] Z }
#[derive(Error, Debug)] #[error(transparent)] pub struct E(#[from] #[backtrace] ::anyhow::Error);
#[derive(Error, Debug)] pub enum G { #[error(transparent)] A { #[backtrace] #[from] source: Ans }, #[error("b")] B { #[from] #[backtrace] source: super::Fwd }, #[error(transparent)] C(#[from] Leaf) }
#[derive(Error, Debug)] #[error(transparent)] pub enum H { A(#[backtrace] #[source_] #[from] Ans), #[error("q")] Q(Backtrace) }
pub fn run(c: &mut ::mc::Ctx) {
  for on in [false, true] {
    let e = A { source: Ans::new(on), backtrace: super::bt() }; let w = if on { addr(&e.source.bt) } else { addr(&e.backtrace) }; c.bt_is("A", &e, &[w], Some(true));
    let e = B(Ans::new(on)); let w = if on { addr(&e.0.bt) } else { 0 }; c.bt_is("B", &e, &[w], Some(true));
    let e = C { source: Some(Ans::new(on)), t: Arc::new(Ans::new(true)) }; let w = if on { addr(&e.source.as_ref().unwrap().bt) } else { 0 }; c.bt_is("C", &e, &[w], Some(true));
    let e = D::X(Ans::new(on)); let D::X(f) = &e else { panic!() }; let w = if on { addr(&f.bt) } else { 0 }; c.bt_is("D", &e, &[w], Some(true));
    let e = G::A { source: Ans::new(on) }; let G::A { source: f } = &e else { panic!() }; let w = if on { addr(&f.bt) } else { 0 }; c.bt_is("GA", &e, &[w], Some(true));
    let e = G::B { source: super::Fwd(Ans::new(on)) }; let G::B { source: f } = &e else { panic!() }; let w = if on { addr(&f.0.bt) } else { 0 }; c.bt_is("GB", &e, &[w], Some(true));
  }
  let e: C<Ans> = C { source: None, t: Arc::new(Ans::new(true)) }; c.bt_is("C", &e, &[0], Some(false));
  let e: D<Ans> = D::Y("x", super::bt()); let D::Y(_, f) = &e else { panic!() }; c.bt_is("D", &e, &[addr(f)], Some(false));
  let e: D<Ans> = D::Z; c.bt_is("D", &e, &[0], Some(false));
  let e = G::C(Leaf(1)); c.bt_is("GC", &e, &[0], Some(false));
  let e = E(::anyhow::Error::msg("m")); let w = addr(e.0.backtrace()); c.bt_is("E", &e, &[w], None);
  let e = H::Q(super::bt()); let H::Q(f) = &e else { panic!() }; c.bt_is("H", &e, &[addr(f)], Some(false));
}
"""


def run(tier=None):
    c = Check("C07", "model_checking", tier)
    c.base("std", NIGHTLY)
    hows = [(d, b) for d in ("name", "source", "from") for b in ("-", "a", "z") if not (d == "name" and b == "z")]
    small_own = ["b", "ba", "boa", "baa", "x", "n-ob", "n-ans"]
    small_src = ["ans", "opt", "dyn"]

    def one(ch, i, small):
        if ch(["own", "src"]) == "own":
            return own_field(ch(small_own if small else list(OWN)), i)
        h = ch([("name", "-"), ("source", "-"), ("source", "z"), ("name", "a")] if small else hows)
        k = ch(small_src if small else list(SRC))
        if k == "anyhow" and (h[1] == "-"):
            return None
        return src_field(k, h, i)

    def layout(ch):
        n = ch([1, 2, 3, 4] if c.thorough else [1, 2, 3])
        named = ch([True, False])
        fs = []
        for i in range(n):
            f = one(ch, i, n >= 3)
            if f is None or (f.srcname and not named):
                return None
            if n >= 3 and not c.thorough and not f.src and not f.srcname and f.key not in ("b", "ba", "boa", "x"):
                return None
            if n == 4 and (f.key not in ("b", "ba", "x", "ans:source-", "ans:name-", "opt:sourcez")):
                return None
            fs.append(f)
        return (fs, named) if legal(fs) else None
    ls = list(c.explore(layout))

    def wide(ch):
        """The backtrace and the source at every position of a wide shape (two-digit indices)."""
        w = 13
        p = ch(w)
        key = ch(["b", "boa", "src", "srcx", "n-ob"])
        named = ch([True, False])
        q = ch(["-", (p + 5) % w, (p + 11) % w]) if key in ("b", "boa") else "-"
        fs = [own_field("x", i) for i in range(w)]
        fs[p] = src_field("opt" if key == "src" else "ans", ("source", "z" if key == "src" else "-"), p) if key.startswith("src") else own_field(key, p)
        if q != "-":
            fs[q] = src_field("ans", ("source", "-"), q)
        return fs, named
    ws = list(c.explore(wide))
    ls += ws
    progs = []
    size = 12
    c.cov["wide_layouts"] = len(ws)
    for i in range(0, len(ls), size):
        ds, rs = [], []
        part = ls[i:i + size]
        for j, (fs, named) in enumerate(part):
            n = "S%d" % j
            ds.append("#[derive(Error)] #[error(\"m\")] pub struct %s%s%s\n" % (n, decl(fs, named), "" if named else ";") + DBG % n)
            rs.append("fn r%d(c: &mut ::mc::Ctx) { %s }\n" % (j, checks("struct" + decl(fs, named), n, fs, named)))
        # the same layouts as variants; the froms of one enum must differ
        groups, cur, froms = [], [], set()
        for fs, named in part:
            fr = [f.ty for f in fs if "#[from]" in f.attr]
            fr = [t.replace("Option<Ans>", "Ans").replace("Option<Box<dyn StdError + Send + Sync>>", "BDyn") for t in fr]
            if len(cur) == 3 or any(t in froms for t in fr):
                groups.append(cur)
                cur, froms = [], set()
            cur.append((fs, named))
            froms.update(fr)
        groups.append(cur)
        for g, vs in enumerate(groups):
            n = "E%d" % g
            ds.append("#[derive(Error)] pub enum %s { #[error(\"u\")] U, %s }\n" % (n, ", ".join("#[error(\"v\")] V%d%s" % (k, decl(fs, nm)) for k, (fs, nm) in enumerate(vs))) + DBG % n)
            body = "".join(checks("enum variant" + decl(fs, nm), "%s::V%d" % (n, k), fs, nm) for k, (fs, nm) in enumerate(vs))
            rs.append("fn e%d(c: &mut ::mc::Ctx) { c.bt_is(\"U\", &%s::U, &[0], Some(false)); %s }\n" % (g, n, body))
        progs.append(Prog("layout/%d" % i, HEADER + "".join(ds) + "".join(rs) + "pub fn run(c: &mut ::mc::Ctx) { %s%s }" % (
            "".join("r%d(c);" % j for j in range(len(part))), "".join("e%d(c);" % j for j in range(len(groups))))))
    # every ordered choice of variant classes in one enum
    classes = {
        "none": ([own_field("x", 0)], False), "unit-ish": ([own_field("n-ans", 0)], True),
        "type": ([own_field("x", 0), own_field("b", 1)], True), "attr": ([own_field("boa", 0)], False),
        "fwd": ([src_field("ans", ("source", "z"), 0)], False), "fwdopt": ([own_field("x", 1), src_field("opt", ("name", "a"), 0)], True),
        "typesrc": ([src_field("ans", ("name", "-"), 0), own_field("b", 1)], True), "src": ([src_field("ans", ("source", "-"), 0)], False),
        "typesrcopt": ([own_field("b", 0), src_field("opt", ("source", "-"), 1)], False),
    }

    def enums(ch):
        n = ch([1, 2, 3] if c.thorough else [1, 2])
        return tuple(ch(list(classes)) for _ in range(n))
    es = list(c.explore(enums))
    for i in range(0, len(es), 10):
        ds, rs = [], []
        for j, ks in enumerate(es[i:i + 10]):
            vs = [classes[k] for k in ks]
            n = "E%d" % j
            ds.append("#[derive(Error)] pub enum %s { %s }\n" % (n, ", ".join("#[error(\"v\")] V%d%s" % (k, decl(fs, nm)) for k, (fs, nm) in enumerate(vs))) + DBG % n)
            rs.append("fn e%d(c: &mut ::mc::Ctx) { %s }\n" % (j, "".join(checks("enum " + "/".join(ks) + " variant %d" % k, "%s::V%d" % (n, k), fs, nm) for k, (fs, nm) in enumerate(vs))))
        progs.append(Prog("enum/%d" % i, HEADER + "".join(ds) + "".join(rs) + "pub fn run(c: &mut ::mc::Ctx) { %s }" % "".join("e%d(c);" % j for j in range(len(rs)))))
    progs.append(Prog("generic", GENERIC.replace("#[source_] ", ""), 18))
    c.sample(repr([(f.key, f.name) for f in ls[len(ls) // 2][0]]))
    c.sample(progs[0].src[300:1500])
    c.run_progs(progs, tag="bt", toolchain=NIGHTLY, head=HEAD_N + COMMON, externs=("thiserror", "mc", "anyhow"))
    return c.finish(rule="every sequence of up to 3 (thorough 4) fields over own-backtrace kinds and source kinds x designations, as struct and as variant, every value combination; backtrace and source at every position of 13 fields; identity of the answer by address",
                    programs=len(progs), layouts=len(ls), enums=len(es))
