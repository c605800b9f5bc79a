"""C06: From conversions."""
import itertools
from .core import Check, Prog, rust_str, NIGHTLY
from .c01 import DBG

HEAD_N = "#![allow(warnings)]\n#![feature(error_generic_member_access)]\n"
HEADER = """use ::thiserror::Error; use ::mc::{Leaf, Tok, Node, addr};
use ::std::{boxed::Box, sync::Arc, error::Error as StdError, backtrace::{Backtrace, BacktraceStatus}};
pub type Bt = Backtrace;
#[inline(never)] pub fn marker_fn<T, U: ::core::convert::From<T>>(t: T) -> U { ::std::hint::black_box(<U as ::core::convert::From<T>>::from(::std::hint::black_box(t))) }
pub fn q<T, U: ::core::convert::From<T>>(t: T) -> ::core::result::Result<(), U> { ::core::result::Result::Err(t)?; ::core::result::Result::Ok(()) }
pub fn fresh(b: &Backtrace) -> bool { b.status() == BacktraceStatus::Captured && b.to_string().contains("marker_fn") }
"""
# field type, From parameter, value given `t` (a Tok), expression `&Tok` given `f: &Field`, source display/addr
FT = {
    "tok": ("Tok", "Tok", "t", "f", "addr(f)"),
    "opt": ("Option<Tok>", "Tok", "t", "f.as_ref().unwrap()", "addr(f.as_ref().unwrap())"),
    "optpath": ("::core::option::Option<Tok>", "Tok", "t", "f.as_ref().unwrap()", "addr(f.as_ref().unwrap())"),
    "box": ("Box<Tok>", "Box<Tok>", "Box::new(t)", "&**f", "addr(&**f), addr(f)"),
    "optbox": ("Option<Box<Tok>>", "Box<Tok>", "Box::new(t)", "&**f.as_ref().unwrap()", "addr(f.as_ref().unwrap()), addr(&**f.as_ref().unwrap())"),
    "arc": ("Arc<Tok>", "Arc<Tok>", "Arc::new(t)", "&**f", "addr(&**f), addr(f)"),
    "boxdyn": ("Box<dyn StdError + Send + Sync>", "Box<dyn StdError + Send + Sync>", "{ let b: Box<dyn StdError + Send + Sync> = Box::new(t); b }", "f.downcast_ref::<Tok>().unwrap()", "addr(&**f)"),
    "optdyn": ("Option<Box<dyn StdError>>", "Box<dyn StdError>", "{ let b: Box<dyn StdError> = Box::new(t); b }", "f.as_ref().unwrap().downcast_ref::<Tok>().unwrap()", "addr(&**f.as_ref().unwrap())"),
    "anyhow": ("::anyhow::Error", "::anyhow::Error", "::anyhow::Error::new(t)", "f.downcast_ref::<Tok>().unwrap()", ""),
    "wrap": ("super::W", "super::W", "super::W(t)", "&f.0", "addr(f)"),
}
# backtrace companions: type, attribute, expression of the check given `b: &Field`
BT = {
    "bt": ("Backtrace", "", "fresh(b)"), "bt-path": ("::std::backtrace::Backtrace", "", "fresh(b)"), "bt-attr": ("Backtrace", "#[backtrace] ", "fresh(b)"),
    "optbt": ("Option<Backtrace>", "#[backtrace] ", "b.as_ref().map_or(false, fresh)"),
    "arcbt": ("Arc<Backtrace>", "#[backtrace] ", "fresh(b) && Arc::strong_count(b) == 1"), "boxbt": ("Box<Backtrace>", "#[backtrace] ", "fresh(&**b)"),
    "alias": ("Bt", "#[backtrace] ", "fresh(b)"),
    "optbt-full": ("::std::option::Option<::std::backtrace::Backtrace>", "#[backtrace] ", "b.as_ref().map_or(false, fresh)"),
}
# the converted field is also the one that the backtrace is requested from
SELF = ["#[from] #[backtrace]", "#[backtrace] #[from]"] + [" ".join(p) for p in itertools.permutations(("#[source]", "#[from]", "#[backtrace]"))]
CANDS = ["Tok", "Option<Tok>", "Box<Tok>", "Option<Box<Tok>>", "Arc<Tok>", "Box<dyn StdError + Send + Sync>", "Box<dyn StdError>", "Leaf", "u8", "()", "String", "::std::io::Error", "Node", "Backtrace", "Option<Backtrace>", "::core::option::Option<Box<dyn StdError>>", "&'static str", "super::W", "::anyhow::Error"]


def fields(ft, bt, btpos, named, names, extra, fromattr):
    """-> (declaration, from member, backtrace member)"""
    fs = [[names[0], fromattr + " ", FT[ft][0]]]
    if bt:
        b = [names[1], BT[bt][1], BT[bt][0]]
        fs.insert(0 if btpos else 1, b)
    out, fm, bm = [], None, None
    for i, (n, a, t) in enumerate(fs):
        m = n if named else str(i)
        if "from" in a:
            fm = m
        else:
            bm = m
        out.append("%s%s%s" % (a, "%s: " % n if named else "", t))
    return (" { %s }" if named else "(%s)") % ", ".join(out), fm, bm


def body_checks(tag, ty, path, ft, bt, fm, bm, msg):
    F = FT[ft]
    t = rust_str(tag)
    get = "let %s { %s: f, .. } = &e else { c.fail(%s, \"wrong variant\"); return; };" % (path, fm, t)
    o = []
    for how in ("marker_fn::<_, %s>(v)" % ty, "q::<_, %s>(v).unwrap_err()" % ty, "{ let e: %s = v.into(); e }" % ty):
        o.append("{ ::mc::drops(); let (t, at) = Tok::new(7); let v: %s = %s; let e: %s = %s; %s\n" % (F[1], F[2], ty, how, get))
        o.append("c.ok(%s, ::mc::drops() == 0 && (%s).at() == at, \"the value is moved into the field unchanged\");" % (t, F[3]))
        o.append("c.source_is(%s, &e, Some((\"tok7\", &[%s]))); c.eqf(%s, format_args!(\"{}\", e), format_args!(%s));" % (t, F[4], t, rust_str(msg)))
        if bm is not None:
            k = BT[bt][2]
            if not how.startswith("marker"):
                k = k.replace("fresh(b)", "b.status() == BacktraceStatus::Captured").replace("map_or(false, fresh)", "map_or(false, |b| b.status() == BacktraceStatus::Captured)").replace("fresh(&**b)", "b.status() == BacktraceStatus::Captured")
            o.append("let %s { %s: b, .. } = &e else { return; }; c.ok(%s, %s, \"the backtrace is captured by the conversion\");" % (path, bm, t, k))
        o.append("drop(e); c.ok(%s, ::mc::drops() == 1, \"dropped once\"); }\n" % t)
    return "".join(o)


def absent(tag, ty, froms):
    """Exactly the From impls the model has."""
    norm = lambda s: s.replace("::core::option::", "").replace("::std::option::", "")
    have = {norm(f) for f in froms}
    o = []
    for k in CANDS:
        o.append("c.ok(%s, ::mc::impls!(%s: ::core::convert::From<%s>) == %s, %s);" % (rust_str(tag), ty, k, str(norm(k) in have).lower(), rust_str("From<%s> exists exactly if declared" % k)))
    return "".join(o) + "\n"


def struct_case(n, ft, bt, btpos, named, names, fromattr):
    decl, fm, bm = fields(ft, bt, btpos, named, names, None, fromattr)
    d = "#[derive(Error)] #[error(\"m%d\")] pub struct S%d%s%s\n" % (n, n, decl, "" if named else ";") + DBG % ("S%d" % n)
    tag = "struct" + decl
    return d, body_checks(tag, "S%d" % n, "S%d" % n, ft, bt, fm, bm, "m%d" % n) + absent(tag, "S%d" % n, [FT[ft][1]])


def enum_case(n, vs):
    """vs: list of None (no from) or (ft, bt, btpos, named, names, fromattr)."""
    decls, checks, froms = [], [], []
    tag = "enum"
    for i, v in enumerate(vs):
        if isinstance(v, str):
            decls.append("#[error(\"v%d\")] V%d%s" % (i, i, v))
            continue
        ft, bt, btpos, named, names, fa = v
        decl, fm, bm = fields(ft, bt, btpos, named, names, None, fa)
        decls.append("#[error(\"v%d\")] V%d%s" % (i, i, decl))
        froms.append(FT[ft][1])
        tag += "/" + decl
        checks.append((i, ft, bt, fm, bm))
    d = "#[derive(Error)] pub enum E%d { %s }\n" % (n, ", ".join(decls)) + DBG % ("E%d" % n)
    o = "".join(body_checks(tag, "E%d" % n, "E%d::V%d" % (n, i), ft, bt, fm, bm, "v%d" % i) for i, ft, bt, fm, bm in checks)
    return d, o + absent(tag, "E%d" % n, froms)


GENERIC = HEADER + """
#[derive(Error, Debug)] #[error("g")] pub struct A<T>(#[from] T);
#[derive(Error, Debug)] #[error("g")] pub struct B<T: StdError + 'static>(#[from] Option<T>);
#[derive(Error, Debug)] #[error("g")] pub enum C<T, const N: usize> where T: StdError + 'static { X(#[from] ::mc::Tok), Y([u8; N], T), Z(#[from] Wrap<T>) }
#[derive(Error, Debug)] #[error("w")] pub struct Wrap<T>(pub ::std::vec::Vec<T>);
#[derive(Error, Debug)] #[error("g")] pub struct D<T>(#[from] Wrap2<T>, ) where T: ::core::fmt::Debug + 'static, for<'a> &'a T: Sized;
#[derive(Error, Debug)] #[error("w")] pub struct Wrap2<T>(pub T);
#[derive(Error, Debug)] #[error(transparent)] pub struct Tr<T>(#[from] T);
#[derive(Error, Debug)] pub enum TrE { #[error(transparent)] A(#[from] Tok), #[error(transparent)] B { #[from] r#fn: Leaf }, #[error("c")] C { #[from] r#type: Node } }
#[derive(Error, Debug)] pub(crate) enum Vis { #[error("a")] A { #[from] #[source] source: Tok }, #[error("b")] B }
mod inner { #[derive(::thiserror::Error, Debug)] #[error("p")] pub struct Priv { #[from] x: ::mc::Tok } impl Priv { pub fn x(&self) -> &::mc::Tok { &self.x } } }
pub fn run(c: &mut ::mc::Ctx) {
  let (t, at) = Tok::new(1); let e: A<Tok> = A::from(t); c.ok("A", e.0.at() == at, "moved");
  let (t, at) = Tok::new(1); let e: A<Box<Tok>> = Box::new(t).into(); c.ok("A", e.0.at() == at, "moved");
  let (t, at) = Tok::new(1); let e: B<Tok> = B::from(t); c.ok("B", e.0.as_ref().unwrap().at() == at, "moved into Some");
  c.ok("B", !::mc::impls!(B<Tok>: From<Option<Tok>>), "no From<Option>");
  let (t, at) = Tok::new(1); let e: C<Leaf, 3> = C::from(t); c.ok("C", matches!(&e, C::X(t) if t.at() == at), "moved");
  let e: C<Leaf, 3> = C::from(Wrap(vec![Leaf(1)])); c.ok("C", matches!(&e, C::Z(w) if w.0.len() == 1), "variant");
  c.ok("C", !::mc::impls!(C<Leaf, 3>: From<Leaf>), "no From<T>"); c.ok("C", !::mc::impls!(C<Leaf, 3>: From<Wrap<Node>>), "no From<Wrap<other>>");
  let e: D<Leaf> = D::from(Wrap2(Leaf(4))); c.ok("D", e.0.0 == Leaf(4), "moved");
  let (t, at) = Tok::new(1); let e: Tr<Tok> = Tr::from(t); c.ok("Tr", e.0.at() == at && e.source().is_none(), "moved");
  let (t, at) = Tok::new(1); let e = TrE::from(t); c.ok("TrE", matches!(&e, TrE::A(t) if t.at() == at), "moved");
  let e = TrE::from(Leaf(3)); c.ok("TrE", matches!(&e, TrE::B { r#fn: Leaf(3) }), "moved");
  let e = TrE::from(Node(3, None)); c.ok("TrE", matches!(&e, TrE::C { r#type: Node(3, None) }), "moved");
  let (t, at) = Tok::new(1); let e = Vis::from(t); c.ok("Vis", matches!(&e, Vis::A { source } if source.at() == at), "moved");
  let (t, at) = Tok::new(1); let e = inner::Priv::from(t); c.ok("Priv", e.x().at() == at, "moved");
}
"""


def run(tier=None):
    c = Check("C06", "model_checking", tier)
    c.bases_parallel(("std", NIGHTLY), ("std", "stable"))
    names = [("source", "backtrace"), ("cause", "bt"), ("r#type", "r#fn"), ("backtrace", "source")]

    def structs(ch):
        ft = ch(list(FT))
        bt = ch([None] + list(BT))
        if bt and ft not in ("tok", "opt", "boxdyn") and not c.thorough:
            return None
        if bt and ft == "anyhow" and False:
            return None
        pos = ch(2) if bt else 0
        named = ch([True, False])
        nm = ch(names) if named else names[0]
        if named and nm == names[3] and bt:
            return None          # the field called source would be the backtrace
        fa = ch(["#[from]", "#[from] #[source]", "#[source] #[from]"] + SELF) if not bt else ch(["#[from]", "#[source] #[from]"]) if ft == "tok" else "#[from]"
        return ft, bt, pos, named, nm, fa
    ss = [s for s in c.explore(structs) if s]
    # enums: every ordered selection of from-variants of distinct types among other variants
    others = ["", "(u8)", " { a: Leaf, source: Leaf }", "(#[source] Tok)", " { source: ::std::io::Error }", "(Tok, Tok)"]
    fts = ["tok", "opt", "box", "boxdyn", "arc", "wrap"]

    def enums(ch):
        n = ch([1, 2, 3, 4] if c.thorough else [1, 2, 3])
        used, vs = set(), []
        for i in range(n):
            k = ch(fts + ["other"]) if n < 4 else ch(["tok", "box", "other"])
            if k == "other":
                vs.append(ch(others) if n < 3 else others[(i + len(used)) % len(others)])
            else:
                if FT[k][1] in used:
                    return None
                used.add(FT[k][1])
                bt = ch([None, "bt", "arcbt", "self"]) if n < 3 else None
                own = bt == "self"
                vs.append((k, None if own else bt, i % 2, i % 2 == 0, names[i % 3], SELF[len(vs) * 3 % len(SELF)] if own else "#[from]"))
        if not used:
            return None
        return vs
    es = [e for e in c.explore(enums) if e]
    # which need the nightly library (backtrace capture on stable compiles too, but provide() does not)
    def build(kind, items, make, size):
        out = []
        for i in range(0, len(items), size):
            ds, rs = [], []
            for j, it in enumerate(items[i:i + size]):
                d, r = make(j, it)
                ds.append(d)
                rs.append("fn r%d(c: &mut ::mc::Ctx) { %s }\n" % (j, r))
            out.append(Prog("%s/%d" % (kind, i), HEADER + "".join(ds) + "".join(rs) + "pub fn run(c: &mut ::mc::Ctx) { %s }" % "".join("r%d(c);" % j for j in range(len(rs))), len(rs)))
        return out
    night = lambda v: isinstance(v, tuple) and (v[1] or "backtrace" in v[5])
    st = [s for s in ss if not night(s)]
    progs_plain = build("struct", st, lambda j, s: struct_case(j, *s), 15)
    progs_bt = build("struct-bt", [s for s in ss if night(s)], lambda j, s: struct_case(j, *s), 15)
    e_plain = [e for e in es if not any(night(v) for v in e)]
    e_bt = [e for e in es if any(night(v) for v in e)]
    progs_plain += build("enum", e_plain, enum_case, 15) + [Prog("generic", GENERIC, 14)]
    progs_bt += build("enum-bt", e_bt, enum_case, 15)
    c.sample(repr(ss[len(ss) // 3]))
    c.sample(repr(es[-1]))
    c.sample(progs_bt[0].src[900:2200])
    common = "pub struct W(pub ::mc::Tok); impl ::core::fmt::Debug for W { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str(\"W\") } } impl ::core::fmt::Display for W { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { ::core::fmt::Display::fmt(&self.0, f) } } impl ::std::error::Error for W {}\n"
    env = {"RUST_BACKTRACE": "1"}
    ex = ("thiserror", "mc", "anyhow")
    c.run_progs(progs_plain, tag="from", head="#![allow(warnings)]\n" + common, env=env, externs=ex)
    c.run_progs(progs_bt + (progs_plain if c.thorough else progs_plain[::6]), tag="fromn", toolchain=NIGHTLY, head=HEAD_N + common, env=env, externs=ex)
    return c.finish(rule="every from-field type x backtrace companion x position x naming for structs; every ordered choice of variants for enums; value identity by heap address, capture by frame name, absent impls by trait probing",
                    programs=len(progs_plain) + len(progs_bt), layouts=len(ss), enums=len(es))
