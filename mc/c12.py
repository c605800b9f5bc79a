"""C12: a variant's own attribute decides its Display, else the enum's."""
import re
from .core import Check, Prog, rust_str, NIGHTLY

HEADER = """use ::thiserror::Error; use ::mc::{Leaf, Node, P, As};
use ::core::fmt::{self, Debug};
pub mod h {
    use super::*;
    pub fn f0(f: &mut fmt::Formatter) -> fmt::Result { ::std::write!(f, "F0 {}", ::mc::opts(f)) }
    pub fn f1<A: Debug>(a: &A, f: &mut fmt::Formatter) -> fmt::Result { ::std::write!(f, "F1 {:?} {:p} {}", a, a, ::mc::opts(f)) }
    pub fn f2<A: Debug, B: Debug>(a: &A, b: &B, f: &mut fmt::Formatter) -> fmt::Result { ::std::write!(f, "F2 {:?} {:p} {:?} {:p} {}", a, a, b, b, ::mc::opts(f)) }
    pub fn f3<A: Debug, B: Debug, C: Debug>(a: &A, b: &B, c: &C, f: &mut fmt::Formatter) -> fmt::Result { ::std::write!(f, "F3 {:?} {:p} {:?} {:p} {:?} {:p} {}", a, a, b, b, c, c, ::mc::opts(f)) }
}
pub struct H;
impl H {
    pub fn f0(f: &mut fmt::Formatter<'_>) -> fmt::Result { f.pad("H0") }
    pub fn f1<A: Debug>(a: &A, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("H1 ")?; a.fmt(f) }
    pub fn f2<A: Debug, B: Debug>(a: &A, b: &B, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("H2 ")?; a.fmt(f)?; b.fmt(f) }
    pub fn f3<A: Debug, B: Debug, C: Debug>(a: &A, b: &B, c: &C, f: &mut fmt::Formatter<'_>) -> fmt::Result { a.fmt(f)?; f.write_str(" H3 ")?; c.fmt(f)?; b.fmt(f) }
}
pub trait HT { fn g(self, f: &mut fmt::Formatter) -> fmt::Result; }
impl HT for &P { fn g(self, f: &mut fmt::Formatter) -> fmt::Result { ::std::write!(f, "T {:?} {:p}", self, self) } }
impl HT for &Node { fn g(self, f: &mut fmt::Formatter) -> fmt::Result { ::std::write!(f, "TN {:?} {:p}", self, self) } }
"""

# shape -> fields (name, type)
SHAPES = {
    "u": None,
    "n0": [],
    "t0": [],
    "t1": [("0", "P")],
    "t2": [("0", "P"), ("1", "P")],
    "t3": [("0", "P"), ("1", "Node"), ("2", "P")],
    "tn": [("0", "Node")],
    "x": [("x", "P")],
    "y": [("y", "P")],
    "xy": [("x", "P"), ("y", "P")],
    "yx": [("y", "P"), ("x", "P")],
    "xyz": [("x", "P"), ("y", "P"), ("r#fn", "Node")],
    "s": [("source", "Node")],
    "xs": [("x", "P"), ("source", "Node")],
}
TUPLE = ("t0", "t1", "t2", "t3", "tn")

OWN = {
    "u": ['"own"', '"o{{}}"'],
    "n0": ['"own {}", 1 + 1'],
    "t0": ['"own"'],
    "t1": ['"o {0:>5} {0:?}"', '"{}", .0'],
    "t2": ['"o {1} {0:#?}"', '"{a}{1}{b}", a = .1, b = .0'],
    "t3": ['"o {2}{1}{0}"'],
    "tn": ['"o {0}"'],
    "x": ['"o {x} {x:x}"', '"{0} {x}", .x'],
    "y": ['"o {y:^9}"'],
    "xy": ['"o {y:^9} {}", .x'],
    "yx": ['"{x}{y}"'],
    "xyz": ['"{fn}{x}{y:?}"'],
    "s": ['"own"', '"o {source}"'],
    "xs": ['"{x:?}"'],
}
# enum attribute -> fields the message refers to
GLOBAL = {
    '"glob"': (),
    '"g {{ {} }}", 7': (),
    '"g {x} {}", .x': ("x",),
    '"g {y:?} {x:>4} {x}"': ("x", "y"),
    '"g {0} {0:?}"': ("0",),
    '"g {1} {0:X} {}{n}", .1, n = .0': None,     # ambiguous in tuples
    '"g {1} {0:X} {n}", n = .0': ("0", "1"),
    '"g {source} {n:>5}", n = "é"': ("source",),
    '"g {fn} {x}"': ("fn", "x"),
}
GLOBAL = {k: v for k, v in GLOBAL.items() if v is not None}


def paths(shape):
    """Formatting functions that accept the fields of the shape."""
    n = len(SHAPES[shape] or ())
    out = ["h::f%d" % n, "self::h::f%d" % n, "H::f%d" % n, "<H>::f%d" % n]
    if n:
        out.append("h::f%d::<%s>" % (n, ", ".join("_" if i % 2 else t for i, (_, t) in enumerate(SHAPES[shape]))))
    if n == 1:
        out += ["::core::fmt::Debug::fmt", "fmt::Display::fmt", "HT::g", "<_ as HT>::g"]
        if SHAPES[shape][0][1] == "P":
            out += ["::core::fmt::LowerHex::fmt", "<P as fmt::Octal>::fmt"]
    return out


GFMT = ["h::f0", "h::f1", "h::f2", "fmt::Debug::fmt", "HT::g", "h::f3"]
ARITY = {"h::f0": 0, "h::f1": 1, "h::f2": 2, "h::f3": 3, "fmt::Debug::fmt": 1, "HT::g": 1}


def local(f):
    return "_" + f if f.isdigit() else f


def oracle(msg):
    """The message as format_args! over locals named after the fields."""
    i = 1
    while msg[i] != '"':
        i += 1
    text, rest = msg[:i + 1], msg[i + 1:]
    rest = re.sub(r"(?<![\w.)])\.(\d)", r"_\1", rest)
    rest = re.sub(r"(?<![\w.)])\.(\w+)", r"\1", rest)
    unnamed = rest and not re.match(r", \w+ = ", rest)
    if not unnamed:
        text = re.sub(r"\{(\d)", r"{_\1", text)
    text = text.replace("{fn", "{r#fn") if "r#" in text else text.replace("{fn", "{fn_")
    return text + rest


def lookup(shape, i, field_names):
    return all(any(n.replace("r#", "") == f for n, _ in SHAPES[shape] or ()) for f in field_names)


def decl(shape, name, i, generic):
    fs = SHAPES[shape]
    if fs is None:
        return name
    # the first P field of a generic enum has the parameter as its type
    tys = []
    for n, t in fs:
        tys.append("T" if generic and t == "P" else t)
    if shape in TUPLE:
        return "%s(%s)" % (name, ", ".join(tys))
    return "%s { %s }" % (name, ", ".join("%s: %s" % (n, t) for (n, _), t in zip(fs, tys)))


def value(shape, path, i):
    fs = SHAPES[shape]
    if fs is None:
        return path
    vals = ["P(%d)" % (10 * i + k) if t == "P" else "Node(%d, Some(Leaf(%d)))" % (10 * i + k, 40 + i) for k, (n, t) in enumerate(fs)]
    if shape in TUPLE:
        return "%s(%s)" % (path, ", ".join(vals))
    return "%s { %s }" % (path, ", ".join("%s: %s" % (n, v) for (n, _), v in zip(fs, vals)))


def pattern(shape, path):
    fs = SHAPES[shape]
    if fs is None:
        return path
    ls = [local(n) if n != "r#fn" else "fn_" for n, _ in fs]
    if shape in TUPLE:
        return "%s(%s)" % (path, ", ".join(ls))
    return "%s { %s }" % (path, ", ".join("%s: %s" % (n, l) for (n, _), l in zip(fs, ls)))


def kind_ok(shape, kind):
    """Is the attribute (kind, payload) valid on the variant?"""
    k, v = kind
    n = len(SHAPES[shape] or ())
    if k == "transparent":
        return shape in ("t1", "tn", "x", "y", "s")
    if k == "fmt":
        if v in ("fmt::Debug::fmt", "HT::g"):
            return n == 1
        return v not in ARITY or ARITY[v] == n
    return True


def attr(kind):
    k, v = kind
    return {"none": "", "transparent": "#[error(transparent)] ", "fmt": "#[error(fmt = %s)] " % v, "msg": "#[error(%s)] " % v}[k]


def build(n, glob, variants, generic):
    """variants: [(shape, own kind)]; -> definition, checks"""
    name = "E%d" % n
    body = ", ".join(attr(own) + decl(s, "V%d" % i, i, generic) for i, (s, own) in enumerate(variants))
    used = generic and any(t == "P" for s, _ in variants for _, t in SHAPES[s] or ())
    g = "<T>" if used else ""
    d = "#[derive(Error)] %spub enum %s%s { %s }\n" % (attr(glob), name, g, body)
    dbg = "impl%s Debug for %s%s { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { ::core::result::Result::Ok(()) } }\n" % (g, name, g)
    ty = name + ("::<P>" if used else "")
    out = []
    for i, (s, own) in enumerate(variants):
        k, v = glob if own[0] == "none" else own
        tag = rust_str("%s [%d]" % (d.strip(), i))
        p = "%s::V%d" % (name, i)
        src = [n_ for n_, t in SHAPES[s] or () if n_ == "source"]
        lines = ["let e: %s = %s;" % (ty.replace("::<", "<"), value(s, p, i)), "#[allow(irrefutable_let_patterns, unused_variables)] let %s = &e else { panic!() };" % pattern(s, p)]
        args = [local(f) if f != "r#fn" else "fn_" for f, _ in SHAPES[s] or ()]
        if k == "msg":
            lines.append("c.msg(%s, &e, format_args!(%s));" % (tag, oracle(v)))
        elif k == "fmt":
            lines.append("c.like(%s, &e, &As(&|f: &mut fmt::Formatter| %s(%s)));" % (tag, v, ", ".join(args + ["f"])))
        else:
            lines.append("c.transparent(%s, &e, %s, %s);" % (tag, args[0], args[0]))
        if k != "transparent":
            lines.append("c.source_is(%s, &e, %s);" % (tag, "Some((&source.to_string(), &[::mc::addr(source)]))" if src else "None"))
        out.append("{ %s }\n" % " ".join(lines))
    return d + dbg, "".join(out)


EXTRA = HEADER + """
#[derive(Error, Debug)] #[error("empty")] pub enum Empty1 {}
#[derive(Error, Debug)] #[error(transparent)] pub enum Empty2 {}
#[derive(Error, Debug)] #[error(fmt = h::f1)] pub enum Empty3 {}
#[derive(Error)] #[error(fmt = Self::show)] pub enum Assoc { A(P), #[error(fmt = Assoc::two)] B(P, P), #[error(fmt = Self::show)] C { a: P }, #[error("lit")] D }
impl Assoc {
    fn show(a: &P, f: &mut fmt::Formatter) -> fmt::Result { ::std::write!(f, "S {} {:p} {}", a, a, ::mc::opts(f)) }
    fn two(a: &P, b: &P, f: &mut fmt::Formatter) -> fmt::Result { ::std::write!(f, "2 {} {} {}", b, a, ::mc::opts(f)) }
}
impl Debug for Assoc { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
#[derive(Error, Debug)] #[error(fmt = gen)] pub enum Gen<'a, T: Debug, const N: usize> { A(&'a T, [u8; N]), B { x: T, y: &'a str } }
fn gen<A: Debug, B: Debug>(a: &A, b: &B, f: &mut fmt::Formatter) -> fmt::Result { ::std::write!(f, "{:?} {:?}", a, b) }
#[derive(Error, Debug)] pub enum ByFnPtr { #[error(fmt = PTR)] A(P), #[error(fmt = CLO)] B(P) }
const PTR: fn(&P, &mut fmt::Formatter) -> fmt::Result = h::f1::<P>;
static CLO: fn(&P, &mut fmt::Formatter) -> fmt::Result = |a, f| ::std::write!(f, "clo {}", a);
#[derive(Error, Debug)] pub enum Unsized<'a> { #[error(fmt = un)] A(&'a str, Box<str>), #[error(fmt = un2)] B { r#type: Box<dyn ::std::error::Error>, b: Option<P> } }
fn un(a: &str, b: &str, f: &mut fmt::Formatter) -> fmt::Result { ::std::write!(f, "{}+{}", a, b) }
fn un2(a: &Box<dyn ::std::error::Error>, b: &Option<P>, f: &mut fmt::Formatter) -> fmt::Result { ::std::write!(f, "{}+{:?}", a, b) }
pub fn run(c: &mut ::mc::Ctx) {
    c.pairs("empty", &[("Empty1", ::mc::impls!(Empty1: ::std::error::Error), true), ("Empty2", ::mc::impls!(Empty2: ::std::error::Error), true), ("Empty3", ::mc::impls!(Empty3: ::std::error::Error), true)]);
    let e = Assoc::A(P(1)); let Assoc::A(a) = &e else { panic!() }; c.like("assoc A", &e, &As(&|f: &mut fmt::Formatter| Assoc::show(a, f)));
    let e = Assoc::C { a: P(1) }; let Assoc::C { a } = &e else { panic!() }; c.like("assoc C", &e, &As(&|f: &mut fmt::Formatter| Assoc::show(a, f)));
    c.like("assoc B", &Assoc::B(P(1), P(2)), &As(&|f: &mut fmt::Formatter| Assoc::two(&P(1), &P(2), f)));
    c.msg("assoc D", &Assoc::D, format_args!("lit"));
    c.msg("gen A", &Gen::A(&3u8, [1, 2]), format_args!("3 [1, 2]"));
    c.msg("gen B", &{ let e: Gen<u8, 0> = Gen::B { x: 3, y: "é" }; e }, format_args!("3 \\"é\\""));
    let e = ByFnPtr::A(P(1)); let ByFnPtr::A(a) = &e else { panic!() }; c.like("ptr", &e, &As(&|f: &mut fmt::Formatter| h::f1(a, f)));
    c.msg("clo", &ByFnPtr::B(P(1)), format_args!("clo {}", P(1)));
    c.msg("unsized", &Unsized::A("a", "b".into()), format_args!("a+b"));
    c.msg("unsized", &Unsized::B { r#type: Box::new(Leaf(2)), b: Some(P(1)) }, format_args!("leaf2+Some({:?})", P(1)));
}
"""


def permuted(w, mul):
    """Field names whose alphabetical order differs from their declaration order."""
    return ["f%d" % (i * mul % w) for i in range(w)]


def wide_prog(w):
    """Formatting functions of w arguments, messages over w fields, enums of w variants."""
    ts = ["A%d" % i for i in range(w)]
    o = [HEADER, "pub fn fw<%s>(%s, f: &mut fmt::Formatter) -> fmt::Result { %s ::std::write!(f, \"{}\", ::mc::opts(f)) }\n" % (
        ", ".join("%s: Debug" % t for t in ts), ", ".join("a%d: &%s" % (i, t) for i, t in enumerate(ts)), " ".join("::std::write!(f, \"{:?} {:p};\", a%d, a%d)?;" % (i, i) for i in range(w)))]
    tys = ["P" if i % 3 else "u8" for i in range(w)]
    val = lambda i, k: "P(%d)" % (k + i) if tys[i] == "P" else "%d" % (k + i)
    rs = []
    layouts = [None] + [permuted(w, m) for m in (1, 5, w - 1)] + [["a%s" % ("b" * (w - i)) for i in range(w)], [("r#fn", "Zz", "_1", "_10", "_2", "__f", "r#type", "x1", "x10", "x2", "X", "é", "e", "self_", "r#in", "z", "y", "w", "v", "u", "t", "s", "r")[i] for i in range(w)]]
    n = 0
    for names in layouts:
        # the enum inherits the function; one variant has its own message naming every field, last first
        mem = names or [str(i) for i in range(w)]
        body = ", ".join(("%s: %s" % (m, t)) if names else t for m, t in zip(mem, tys))
        body = ("{ %s }" if names else "(%s)") % body
        plain = lambda m: m.replace("r#", "")
        inline = "".join("{%s}" % plain(m) for m in reversed(mem))
        dots = ", ".join(".%s" % m for m in reversed(mem))
        hole = "{}" * w
        expect = "".join("{}" for _ in mem)
        name = "W%d" % n
        n += 1
        o.append("#[derive(Error)] #[error(fmt = fw)] pub enum %s { A%s, #[error(\"%s\")] B%s, #[error(\"%s\", %s)] C%s, #[error(fmt = fw::<%s>)] D%s }\n" % (
            name, body, inline, body, hole, dots, body, ", ".join("_" if i % 2 else t for i, t in enumerate(tys)), body))
        o.append("impl Debug for %s { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { ::core::result::Result::Ok(()) } }\n" % name)
        o.append("#[derive(Error)] #[error(\"%s\", %s)] pub struct %sS%s%s\nimpl Debug for %sS { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { ::core::result::Result::Ok(()) } }\n" % (hole + ("{10}{0}" if names else ""), dots, name, body, "" if names else ";", name))
        for k, v in enumerate(("%s::A" % name, "%s::B" % name, "%s::C" % name, "%s::D" % name, name + "S")):
            lit = "%s { %s }" % (v, ", ".join("%s: %s" % (m, val(i, 20 * k)) for i, m in enumerate(mem)))
            pat = "%s { %s }" % (v, ", ".join("%s: b%d" % (m, i) for i, m in enumerate(mem)))
            tag = rust_str("wide %d %s" % (w, v))
            r = "{ let e = %s; #[allow(irrefutable_let_patterns)] let %s = &e else { panic!() };" % (lit, pat)
            bs = ["b%d" % i for i in range(w)]
            if v[-1] in "AD":
                r += " c.like(%s, &e, &As(&|f: &mut fmt::Formatter| fw(%s, f)));" % (tag, ", ".join(bs))
            else:
                r += " c.msg(%s, &e, format_args!(\"%s%s\", %s));" % (tag, expect, "{10}{0}" if v[-1] == "S" and names else "", ", ".join(reversed(bs)))
            rs.append(r + " }\n")
    # many variants, every one with its own attribute kind in turn
    kinds = [lambda i: "#[error(\"own%d {0}\")] V%d(u8)" % (i, i), lambda i: "V%d(u8)" % i, lambda i: "#[error(transparent)] V%d(Leaf%d)" % (i, i), lambda i: "#[error(fmt = g%d)] V%d(u8)" % (i, i)]
    for shift in range(4):
        vs = []
        for i in range(w):
            k = (i + shift) % 4
            vs.append(kinds[k](i).replace("Leaf%d" % i, "Leaf").replace("g%d" % i, "g::<%d>" % i))
            e, tag = "M%d::V%d" % (shift, i), rust_str("many %d variant %d" % (shift, i))
            if k == 0:
                rs.append("c.msg(%s, &%s(%d), format_args!(\"own%d %d\"));\n" % (tag, e, i, i, i))
            elif k == 1:
                rs.append("c.msg(%s, &%s(%d), format_args!(\"glob %d\"));\n" % (tag, e, i, i))
            elif k == 2:
                rs.append("c.msg(%s, &%s(Leaf(%d)), format_args!(\"{}\", Leaf(%d)));\n" % (tag, e, i, i))
            else:
                rs.append("c.msg(%s, &%s(%d), format_args!(\"g%d %d\"));\n" % (tag, e, i, i, i))
        o.append("#[derive(Error, Debug)] #[error(\"glob {0}\")] pub enum M%d { %s }\n" % (shift, ", ".join(vs)))
    o.append("pub fn g<const I: u8>(a: &u8, f: &mut fmt::Formatter) -> fmt::Result { ::std::write!(f, \"g{} {}\", I, a) }\n")
    return Prog("wide/%d" % w, "".join(o) + "pub fn run(c: &mut ::mc::Ctx) {\n" + "".join(rs) + "}", len(rs))


def run(tier=None):
    c = Check("C12", "model_checking", tier)
    c.base("std")
    small = ["u", "t1", "t2", "x", "yx", "s"] if c.thorough else ["u", "t2", "yx", "s"]
    tiny = ["u", "t1", "yx", "tn"] if c.thorough else ["t1", "yx"]

    def owns(shape, many):
        o = [("msg", m) for m in OWN[shape][:None if many else 1]]
        o += [("fmt", p) for p in (paths(shape) if many else paths(shape)[:1])]
        if kind_ok(shape, ("transparent", None)):
            o.append(("transparent", None))
        return o

    def compose(ch):
        n = ch((1, 2, 3))
        glob = ch([("none", None), ("transparent", None)] + [("msg", m) for m in GLOBAL] + [("fmt", p) for p in GFMT])
        pool = list(SHAPES) if n == 1 else list(SHAPES) if n == 2 and c.thorough else small + ["x", "t1", "tn"] if n == 2 else tiny
        vs = []
        for i in range(n):
            s = ch(sorted(set(pool)) if i or n < 3 else sorted(set(pool + ["u", "t2", "s"])))
            inherit = [("none", None)] if glob[0] != "none" and kind_ok(s, glob) and (glob[0] != "msg" or lookup(s, i, GLOBAL[glob[1]])) else []
            o = inherit + owns(s, n == 1 or c.thorough and n == 2 and i == 0)
            if n == 3 and i == 2:
                o = inherit or o[:1]
            vs.append((s, ch(o)))
        generic = ch((False, True)) if n == 1 or c.thorough else (n == 2 and len(vs[0][0]) == len(vs[1][0]))
        if generic:
            # functions named for one concrete type do not apply to a parameter
            for s, own in vs:
                k, v = glob if own[0] == "none" else own
                has = any(t == "P" for _, t in SHAPES[s] or ())
                if has and (k == "fmt" or k == "msg" and not v.endswith('"')):
                    return None
        return n, glob, vs, generic
    sp = [x for x in c.explore(compose) if x]
    # a parameter needs its bounds, which messages infer and functions do not: checked in EXTRA
    progs = []
    step = 25
    for i in range(0, len(sp), step):
        ds, rs = [], []
        for j, (n, g, vs, gen) in enumerate(sp[i:i + step]):
            d, r = build(j, g, vs, gen)
            ds.append(d)
            rs.append(r)
        progs.append(Prog("enum/%d" % i, HEADER + "".join(ds) + "pub fn run(c: &mut ::mc::Ctx) {\n" + "".join(rs) + "}", len(rs)))
    for w in (11, 12, 13, 21, 23) if c.thorough else (12, 21):
        progs.append(wide_prog(w))
    progs.append(Prog("extra", EXTRA, 10))
    c.sample(progs[0].src[len(HEADER):][:700])
    c.sample(repr(sp[-1]))
    c.run_progs(progs, tag="en")
    c.run_progs(progs if c.thorough else list({p.id: p for p in progs[::8] + progs[-3:]}.values()), tag="enn", toolchain=NIGHTLY)
    return c.finish(rule="every assignment of attribute kinds to the enum and its variants within the bound; every variant constructed and formatted; functions and messages over 12 and 21 (11 to 23) fields under six naming orders, enums of as many variants",
                    programs=len(progs), enums=len(sp), variants=sum(len(x[2]) for x in sp))
