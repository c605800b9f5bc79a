"""C05: transparent errors forward Display and source."""
import itertools
from .core import Check, Prog, rust_str, NIGHTLY
from .c01 import DBG

HEADER = """use ::thiserror::Error; use ::mc::{Leaf, Node, P, addr};
use ::std::{boxed::Box, sync::Arc, rc::Rc, error::Error as StdError};
static NODE: Node = Node(8, Some(Leaf(81)));
"""
# type, value, how to see f: &T as (display, &dyn StdError)
KINDS = {
    "node": ("Node", "Node(1, Some(Leaf(11)))", "f", "f"),
    "node-nosrc": ("Node", "Node(1, None)", "f", "f"),
    "leaf": ("Leaf", "Leaf(2)", "f", "f"),
    "probe": ("P", "P(3)", "f", "f"),
    "boxdyn": ("Box<dyn StdError>", "Box::new(Node(4, Some(Leaf(41))))", "f", "&**f"),
    "boxdyn-nosrc": ("Box<dyn StdError>", "Box::new(P(4))", "f", "&**f"),
    "boxdyn-send": ("Box<dyn StdError + Send + 'static>", "Box::new(Node(4, Some(Leaf(41))))", "f", "&**f"),
    "boxdyn-ss": ("Box<dyn StdError + Send + Sync>", "Box::new(Node(5, Some(Leaf(51))))", "f", "&**f"),
    "boxdyn-us": ("Box<dyn StdError + Send + Sync + ::std::panic::UnwindSafe>", "Box::new(Node(5, Some(Leaf(51))))", "f", "&**f"),
    "box": ("Box<Node>", "Box::new(Node(6, Some(Leaf(61))))", "f", "&**f"),
    "arc": ("Arc<Node>", "Arc::new(Node(6, Some(Leaf(61))))", "f", "&**f"),
    "arcdyn": ("Arc<dyn StdError + Send + Sync>", "Arc::new(Node(6, Some(Leaf(61))))", "f", "&**f"),
    "ref": ("&'static Node", "&NODE", "f", "*f"),
    "refdyn": ("&'static (dyn StdError + 'static)", "&NODE", "f", "*f"),
    "anyhow": ("::anyhow::Error", "::anyhow::Error::new(Node(7, Some(Leaf(71)))).context(\"ctx\")", "f", "&**f"),
    "anyhow-nosrc": ("::anyhow::Error", "::anyhow::anyhow!(\"plain\")", "f", "&**f"),
    "io": ("::std::io::Error", "::std::io::Error::other(Node(8, Some(Leaf(81))))", "f", "f"),
    "fmt": ("::std::fmt::Error", "::std::fmt::Error", "f", "f"),
    "string-err": ("Box<dyn StdError + Send + Sync>", "\"héllo\".into()", "f", "&**f"),
    "rc": ("Rc<dyn StdError>", "Rc::new(Node(6, Some(Leaf(61))))", "f", "&**f"),
}
NOT_FROM = ("rc",)


def derive(n, body):
    return "#[derive(Error)] " + body + DBG % n


# name -> (definition of type n wrapping t, constructor, accessor of the field)
WRAP = {
    "ts": (lambda n, t: derive(n, "#[error(transparent)] pub struct %s(%s);\n" % (n, t)), "%s(%s)", "&e.0"),
    "tsf": (lambda n, t: derive(n, "#[error(transparent)] pub struct %s(#[from] %s);\n" % (n, t)), "%s(%s)", "&e.0"),
    "ns": (lambda n, t: derive(n, "#[error(transparent)] pub struct %s { inner: %s }\n" % (n, t)), "%s { inner: %s }", "&e.inner"),
    "nsf": (lambda n, t: derive(n, "#[error(transparent)] pub struct %s { #[from] cause: %s }\n" % (n, t)), "%s { cause: %s }", "&e.cause"),
    "nss": (lambda n, t: derive(n, "#[error(transparent)] pub struct %s { source: %s }\n" % (n, t)), "%s { source: %s }", "&e.source"),
    "nsr": (lambda n, t: derive(n, "#[error(transparent)] pub struct %s { r#source: %s }\n" % (n, t)), "%s { r#source: %s }", "&e.r#source"),
    "et": (lambda n, t: derive(n, "pub enum %s { #[error(\"x\")] X, #[error(transparent)] A(%s), #[error(\"{0}\")] Z(#[source] Leaf) }\n" % (n, t)), "%s::A(%s)", "{ let N::A(f) = &e else { panic!() }; f }"),
    "etf": (lambda n, t: derive(n, "pub enum %s { #[error(\"x\")] X(Leaf), #[error(transparent)] A(#[from] %s) }\n" % (n, t)), "%s::A(%s)", "{ let N::A(f) = &e else { panic!() }; f }"),
    "en": (lambda n, t: derive(n, "pub enum %s { #[error(transparent)] A { inner: %s }, #[error(\"z\")] Z { source: Leaf } }\n" % (n, t)), "%s::A { inner: %s }", "{ let N::A { inner: f } = &e else { panic!() }; f }"),
    "ens": (lambda n, t: derive(n, "pub enum %s { #[error(transparent)] A { source: %s } }\n" % (n, t)), "%s::A { source: %s }", "{ let N::A { source: f } = &e; f }"),
    "ei": (lambda n, t: derive(n, "#[error(transparent)] pub enum %s { A(%s), B(Leaf), C { e: P }, #[error(\"own\")] D(u8, u8) }\n" % (n, t)), "%s::A(%s)", "{ let N::A(f) = &e else { panic!() }; f }"),
    "eif": (lambda n, t: derive(n, "#[error(transparent)] pub enum %s { #[error(\"own\")] D, A { #[from] inner: %s } }\n" % (n, t)), "%s::A { inner: %s }", "{ let N::A { inner: f } = &e else { panic!() }; f }"),
    "et2": (lambda n, t: derive(n, "pub enum %s { #[error(transparent)] Z(Leaf), #[error(transparent)] A(%s), #[error(transparent)] Y { p: P } }\n" % (n, t)), "%s::A(%s)", "{ let N::A(f) = &e else { panic!() }; f }"),
    "gs": (lambda n, t: derive_gen(n, "#[error(transparent)] pub struct %s<T>(T);\n" % n), "%s(%s)", "&e.0"),
    "gsn": (lambda n, t: derive_gen(n, "#[error(transparent)] pub struct %s<T> { source: T }\n" % n), "%s { source: %s }", "&e.source"),
    "ge": (lambda n, t: derive_gen(n, "pub enum %s<T> { #[error(transparent)] A(T), #[error(\"b\")] B }\n" % n), "%s::A(%s)", "{ let N::A(f) = &e else { panic!() }; f }"),
}


def derive_gen(n, body):
    return "#[derive(Error)] " + body + (DBG % n).replace("impl ", "impl<T> ", 1).replace("for %s " % n, "for %s<T> " % n)


def tyname(w, n, inner):
    return "%s<%s>" % (n, inner) if w.startswith("g") else n


def build(stack, kind, n0):
    """stack: wrappers from innermost to outermost. -> (definitions, checks)"""
    ty, val, disp, dyn = KINDS[kind]
    defs = []
    for d, w in enumerate(stack):
        n = "W%d_%d" % (n0, d)
        defs.append(WRAP[w][0](n, ty))
        val = WRAP[w][1] % (n, val)
        ity = ty
        ty = tyname(w, n, ty)
        if d < len(stack) - 1:
            disp, dyn = "f", "f"
    w, n = stack[-1], "W%d_%d" % (n0, len(stack) - 1)
    acc = WRAP[w][2].replace("N::", n + "::")
    tag = rust_str("%s of %s" % ("<".join(reversed(stack)), kind))
    chk = "{ let e: %s = %s; let f = %s; c.transparent(%s, &e, %s, %s); }\n" % (ty, val, acc, tag, disp, dyn)
    extra = ""
    if w.startswith("ei") or w in ("et", "et2", "en"):
        t = n
        more = {"ei": "{ let e = %s::B(Leaf(5)); let %s::B(f) = &e else { panic!() }; c.transparent(%s, &e, f, f); let e = %s::C { e: P(6) }; let %s::C { e: f } = &e else { panic!() }; c.transparent(%s, &e, f, f); c.source_is(%s, &%s::D(1, 2), None); c.eqf(%s, format_args!(\"{}\", %s::D(1, 2)), format_args!(\"own\")); }" % (t, t, tag, t, t, tag, tag, t, tag, t),
                "et": "{ c.source_is(%s, &%s::X, None); c.source_is(%s, &%s::Z(Leaf(3)), Some((\"leaf3\", &[]))); c.eqf(%s, format_args!(\"{}\", %s::Z(Leaf(3))), format_args!(\"leaf3\")); }" % (tag, t, tag, t, tag, t),
                "en": "{ c.source_is(%s, &%s::Z { source: Leaf(3) }, Some((\"leaf3\", &[]))); c.eqf(%s, format_args!(\"{}\", %s::Z { source: Leaf(3) }), format_args!(\"z\")); }" % (tag, t, tag, t),
                "et2": "{ let e = %s::Z(Leaf(5)); let %s::Z(f) = &e else { panic!() }; c.transparent(%s, &e, f, f); let e = %s::Y { p: P(6) }; let %s::Y { p: f } = &e else { panic!() }; c.transparent(%s, &e, f, f); }" % (t, t, tag, t, t, tag),
                "eif": "{ c.source_is(%s, &%s::D, None); }" % (tag, t)}
        extra = more.get(w, "") + "\n"
    if w in ("tsf", "nsf", "etf", "eif"):
        chk += "{ let e = <%s as ::core::convert::From<%s>>::from(%s); let f = %s; c.transparent(%s, &e, %s, %s); }\n" % (ty, ity, val_of(val, w), acc, tag, disp, dyn)
    return "".join(defs), chk + extra


def val_of(val, w):
    """The value inside the outermost constructor."""
    i = min(x for x in (val.find("("), val.find("{")) if x >= 0)
    inner = val[i + 1:-1].strip()
    if val[i] == "{":
        inner = inner[inner.index(":") + 1:].strip()
    return inner


NONSTATIC = HEADER + """
#[derive(Debug)] pub struct Ns<'a>(&'a str, Leaf);
impl<'a> ::core::fmt::Display for Ns<'a> { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.pad(self.0) } }
impl<'a> StdError for Ns<'a> { fn source(&self) -> ::core::option::Option<&(dyn StdError + 'static)> { ::core::option::Option::Some(&self.1) } }
#[derive(Error, Debug)] #[error(transparent)] pub struct A<'a>(Ns<'a>);
#[derive(Error, Debug)] #[error(transparent)] pub struct B<'a> { inner: Ns<'a> }
#[derive(Error, Debug)] pub enum C<'a> { #[error(transparent)] X(Ns<'a>), #[error(transparent)] Y { e: &'a Ns<'a> }, #[error("{0}")] Z(&'a str) }
#[derive(Error, Debug)] #[error(transparent)] pub struct D<'a>(Box<dyn StdError + 'a>);
#[derive(Error, Debug)] #[error(transparent)] pub struct E<'a>(Box<dyn StdError + Send + Sync + 'a>);
#[derive(Error, Debug)] #[error(transparent)] pub struct F<'a, T: StdError>(&'a T);
#[derive(Error, Debug)] #[error(transparent)] pub struct G<T: StdError + ?Sized>(Box<T>) where T: ::core::marker::Sized;
#[derive(Error, Debug)] #[error(transparent)] pub enum H<'a, T> where T: StdError + 'a { A(T), B(Arc<T>), C(&'a Leaf) }
pub fn run(c: &mut ::mc::Ctx) {
  let s = String::from("héy"); let ns = || Ns(&s, Leaf(4));
  let e = A(ns()); c.transparent("A", &e, &e.0, &e.0);
  let e = B { inner: ns() }; c.transparent("B", &e, &e.inner, &e.inner);
  let e = C::X(ns()); let C::X(f) = &e else { panic!() }; c.transparent("CX", &e, f, f);
  let n = ns(); let e = C::Y { e: &n }; c.transparent("CY", &e, &n, &n);
  c.source_is("CZ", &C::Z(&s), None);
  let e = D(Box::new(ns())); c.transparent("D", &e, &e.0, &*e.0);
  let e = E(Box::new(ns())); c.transparent("E", &e, &e.0, &*e.0);
  let n = Node(1, Some(Leaf(2))); let e = F(&n); c.transparent("F", &e, &n, &n);
  let e = G(Box::new(Node(1, Some(Leaf(2))))); c.transparent("G", &e, &e.0, &e.0);
  let e = H::A(ns()); let H::A(f) = &e else { panic!() }; c.transparent("HA", &e, f, f);
  let e = H::B(Arc::new(ns())); let H::B(f) = &e else { panic!() }; c.transparent("HB", &e, f, &**f);
  let l = Leaf(1); let e: H<P> = H::C(&l); c.transparent("HC", &e, &l, &l);
}
"""


def run(tier=None):
    c = Check("C05", "model_checking", tier)
    c.base("std")
    depth = 4 if c.thorough else 3

    def compose(ch):
        kind = ch(list(KINDS))
        n = ch(range(1, depth + 1))
        if n >= 2 and kind not in (("node", "boxdyn", "anyhow", "probe") if n == 2 else ("node", "boxdyn-ss") if n == 3 else ("boxdyn",)):
            return None
        ws = list(WRAP)
        if n == 3 and not c.thorough:
            ws = ["tsf", "nss", "etf", "en", "ei", "gs"]
        if n == 4:
            ws = ["ts", "etf", "ei", "gsn"]
        st = [ch(ws) for _ in range(n)]
        if st[0].startswith("g") and (KINDS[kind][0].startswith(("Box<dyn", "Arc", "Rc", "::anyhow")) or KINDS[kind][0].startswith("&'static (dyn")):
            return None      # T must itself be an Error
        return st, kind
    stacks = [s for s in c.explore(compose) if s]
    progs = []
    step = 20
    for i in range(0, len(stacks), step):
        ds, rs = [], []
        for j, (st, kind) in enumerate(stacks[i:i + step]):
            d, r = build(st, kind, j)
            ds.append(d)
            rs.append(r)
        progs.append(Prog("stack/%d" % i, HEADER + "".join(ds) + "pub fn run(c: &mut ::mc::Ctx) {\n" + "".join(rs) + "}", len(rs)))
    progs.append(Prog("nonstatic", NONSTATIC, 12))
    c.sample(repr(stacks[0]))
    c.sample(repr(stacks[-1]))
    c.sample(progs[0].src[:800])
    c.run_progs(progs, tag="tr", externs=("thiserror", "mc", "anyhow"))
    c.run_progs(progs if c.thorough else progs[::5], tag="trn", toolchain=NIGHTLY, externs=("thiserror", "mc", "anyhow"))
    return c.finish(rule="every wrapper layout over every wrapped type, and every stack of wrappers up to the depth; 504 formatter option combinations each; source compared by address",
                    programs=len(progs), stacks=len(stacks))
