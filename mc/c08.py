"""C08: which instantiations of a generic error implement Display, Error and From."""
import itertools
import re
from .core import Check, Prog, rust_str, log

HEADER = """#[allow(dead_code)] fn has_from<A: ::core::convert::From<B>, B>() -> bool { true }
use ::thiserror::Error; use ::mc::{Is, IsNot, mk, mk::{Same, Any, Swap, Two, Tr, Mk, Via}};
use ::std::{boxed::Box, sync::Arc, rc::Rc, vec::Vec, marker::PhantomData, error::Error as StdError};
"""
# placeholder spec -> trait constant
SPECS = {"": "DISPLAY", ":?": "DEBUG", ":x": "LOWERHEX", ":o": "OCTAL", ":X": "UPPERHEX", ":b": "BINARY", ":e": "LOWEREXP", ":E": "UPPEREXP", ":p": "POINTER",
         ":#?": "DEBUG", ":>5": "DISPLAY", ":x?": "DEBUG", ":#010b": "BINARY", ":.3": "DISPLAY", ":X?": "DEBUG", ":+e": "LOWEREXP", ":^#x": "LOWERHEX", ":?}{%": "DEBUG"}
del SPECS[":?}{%"]
# field types that mention the parameters
FORMS = ["T", "U", "Same<T>", "Any<T>", "Swap<T>", "Box<T>", "Vec<T>", "Option<T>", "Two<T, U>", "Two<U, T>", "Same<Same<T>>", "Arc<Swap<U>>", "<T as Tr>::Ty", "T::Ty",
         "<Vec<T> as Tr>::Ty", "PhantomData<T>", "::mc::mk::Same<U>", "Two<u8, T>", "Result<T, U>", "<u8 as Tr>::Gen<T>", "Option<Box<U>>", "Any<Same<T>>", "u8", "&'static str", "r#Same<T>", "Same<Any<T>>",
         "<u8 as Via<T>>::Out", "<Same<u8> as ::mc::mk::Via<Any<U>>>::Out", "<Vec<T> as Via<u8>>::Out", "<Vec<U> as Via<T>>::Out"]
ALL = ["Zero", "OnlyDisplay", "OnlyDebug", "OnlyOctal", "OnlyLowerHex", "OnlyUpperHex", "OnlyBinary", "OnlyLowerExp", "OnlyUpperExp", "OnlyPointer", "DispDbg", "DbgHex", "DispHex",
       "NoDisplay", "NoDebug", "NoOctal", "NoLowerHex", "NoUpperHex", "NoBinary", "NoLowerExp", "NoUpperExp", "NoPointer", "Err", "All"]
FEW = ["Zero", "OnlyDisplay", "OnlyDebug", "OnlyLowerHex", "DispDbg", "DispHex", "NoDebug", "Err", "All"]
DECOR = {
    "plain": ("<T, U>", "", "", "", ""),
    "inline": ("<T: Mk, U: Mk + Tr>", "", "", "", ""),
    "where": ("<T, U>", " where T: Mk, U: Tr + Mk, Same<T>: Mk", "", "", ""),
    "whereself": ("<T, U>", " where for<'x> &'x T: Mk, Vec<U>: Mk,", "", "", ""),
    "life": ("<'a, T, U>", "", "'static, ", "PhantomData<&'a ()>", "<'a, T, U>"),
    "life2": ("<'a, 'b: 'a, T: 'a, U: 'b + Mk>", " where T: 'b", "'static, 'static, ", "PhantomData<(&'a (), &'b ())>", "<'a, 'b, T, U>"),
    "const": ("<T, U, const N: usize>", "", "", "[u8; N]", "<T, U, N>"),
    "constdef": ("<T = u8, U = Vec<T>, const N: usize = 3>", "", "", "PhantomData<[u8; N]>", ""),
    "default": ("<T = u8, U = T>", "", "", "", ""),
    "assoc": ("<T: Tr<Ty = T>, U: ::core::marker::Sized>", " where U: Tr<Ty = U>", "", "", ""),
    "attr": ("<#[allow(dead_code)] T, #[cfg(all())] U>", "", "", "", ""),
}


def subst(ty, m, n):
    import re
    return re.sub(r"\bU\b", "mk::" + n, re.sub(r"\bT\b", "mk::" + m, ty)) if ty != "T::Ty" else "mk::%s" % m


def mentions(ty):
    import re
    return bool(re.search(r"\b[TU]\b", ty))


def render_item(n, shape, fields, named, dec, transparent, message_extra=""):
    g, w, pre, extra, _ = DECOR[dec]
    fs = []
    for i, (ty, specs, attr) in enumerate(fields):
        name = "f%d" % i
        if named and attr == "name":
            name = "source"
        at = {"source": "#[source] ", "from": "#[from] "}.get(attr, "")
        fs.append((name if named else str(i), at, ty))
    # every declared parameter must be used
    used = " ".join(t for t, _, _ in fields)
    import re
    rest = [p for p in ("T", "U") if not re.search(r"\b%s\b" % p, used.replace("u8 as", ""))]
    ex = []
    if rest or extra:
        ex = ["PhantomData<(%s)>" % "".join(p + "," for p in rest)] if rest else []
        if extra:
            ex.append(extra)
    def body(sel, exs):
        items = ["%s%s%s" % (a, m + ": " if named else "", t) for m, a, t in sel] + ["%s%s" % ("x%d: " % k if named else "", t) for k, t in enumerate(exs)]
        return (" { %s }" if named else "(%s)") % ", ".join(items)
    def msg(sel):
        if transparent:
            return "transparent"
        return rust_str("m " + " ".join("{%s%s}" % (m, s) for m, s in sel))
    if shape == "struct":
        places = [(m, s) for (m, _, _), (_, sp, _) in zip(fs, fields) for s in sp]
        b = body(fs, ex)
        d = "#[derive(Error)] #[error(%s)] pub struct %s%s%s%s\n" % (msg(places), n, g, (w + b) if named else b + w, "" if named else ";")
    elif shape == "enum1":
        places = [(m, s) for (m, _, _), (_, sp, _) in zip(fs, fields) for s in sp]
        d = "#[derive(Error)] pub enum %s%s%s { #[error(\"u\")] A, #[error(%s)] V%s%s }\n" % (n, g, w, msg(places), body(fs, ex if not transparent else []),
                                                                                   ", #[error(\"x\")] X(%s)" % ", ".join(ex) if transparent and ex else "")
    else:   # enumn: every field in a variant of its own
        vs = []
        for k, ((m, a, t), (_, sp, at)) in enumerate(zip(fs, fields)):
            mm = m if named else "0"
            vs.append("#[error(%s)] V%d%s" % (msg([(mm, s) for s in sp]), k, body([(m, a, t)], [])))
        if ex:
            vs.append("#[error(\"x\")] X(%s)" % ", ".join(ex))
        d = "#[derive(Error)] pub enum %s%s%s { %s }\n" % (n, g, w, ", ".join(vs))
    # Debug exists for every instantiation, so that it never decides
    gi = re.sub(r" = [^,>]+(<T>)?", lambda m_: "", g) if "=" in g and "Ty" not in g else g
    if dec in ("default",):
        gi = "<T, U>"
    if dec == "constdef":
        gi = "<T, U, const N: usize>"
    args = {"life": "<'a, T, U>", "life2": "<'a, 'b, T, U>", "const": "<T, U, N>", "constdef": "<T, U, N>"}.get(dec, "<T, U>")
    dbg = "impl%s ::core::fmt::Debug for %s%s%s { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str(\"dbg\") } }\n" % (gi, n, args, w)
    return d, dbg


FULL = False


def insts(n, dec, few):
    pre = DECOR[dec][2]
    post = ", 2" if dec == "const" else ""
    for m in few:
        for k in few:
            if not FULL and len(few) > 4 and m != k and "All" not in (m, k) and k != "Zero":
                continue
            yield m, k, "%s<%smk::%s, mk::%s%s>" % (n, pre, m, k, post)


def check_item(n, tag, fields, dec, transparent, few, error=True):
    o = []
    for m, k, inst in insts(n, dec, few):
        disp, src, froms = [], [], []
        for ty, specs, attr in fields:
            t = subst(ty, m, k)
            if transparent:
                disp.append("<Is<%s>>::DISPLAY" % t)
                src.append("<Is<%s>>::ERROR" % t)
            elif attr:
                u = t
                if u.startswith("Option<"):
                    u = u[7:-1]
                src.append("<Is<%s>>::ERROR" % u)
            for s in specs:
                disp.append("<Is<%s>>::%s" % (t, SPECS[s]))
        wd = " && ".join(dict.fromkeys(disp)) or "true"
        we = wd + "".join(" && " + s for s in dict.fromkeys(src))
        o.append("(%s, <Is<%s>>::DISPLAY, %s)," % (rust_str("%s: Display" % inst), inst, wd))
        for ty, _, attr in fields:
            if attr == "from":
                t = subst(ty, m, k)
                o.append(("(%s, has_from::<%s, %s>(), true)," if "'a" in t else "(%s, ::mc::impls!(%s: ::core::convert::From<%s>), true),") % (rust_str("%s: From<%s>" % (inst, t)), inst, t))
        if error:
            o.append("(%s, <Is<%s>>::ERROR, %s)," % (rust_str("%s: Error" % inst), inst, we))
    return "c.pairs(%s, &[%s]);\n" % (rust_str(tag), "\n".join(o))


FIXED = HEADER + """
// parameters that need nothing, message without fields, hand-written Display
#[derive(Error, Debug)] #[error("plain")] pub struct A<T>(pub T);
#[derive(Error, Debug)] pub struct B<T>(pub T);
impl<T: ::core::fmt::LowerHex> ::core::fmt::Display for B<T> { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { ::core::write!(f, "{:x}", self.0) } }
// a named argument hides the field
#[derive(Error, Debug)] #[error("{x} {y}", x = 1)] pub struct C<T, U> { pub x: T, pub y: U }
// explicit bounds with dot arguments
#[derive(Error, Debug)] #[error("{}", .0)] pub struct D<T: ::core::fmt::Display>(pub T);
// unsized parameters
#[derive(Error)] #[error("{0}")] pub struct E<T: ?Sized>(pub Box<T>);
impl<T: ?Sized> ::core::fmt::Debug for E<T> { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str("E") } }
#[derive(Error)] #[error("{x:?}")] pub struct F<T> where T: ?::core::marker::Sized { pub x: Arc<T> }
impl<T: ?Sized> ::core::fmt::Debug for F<T> { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str("F") } }
// two variants of one enum each add their bound; the inherited message is used for every variant
#[derive(Error, Debug)] #[error("{0:x}")] pub enum G<T, U> { X(T), Y(U), #[error("own")] Z(U), #[error(transparent)] W(Same<U>) }
// fmt functions fix the bounds themselves
fn h<T: ::core::fmt::Binary>(t: &T, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { t.fmt(f) }
#[derive(Error, Debug)] pub enum H<T: ::core::fmt::Binary, U> { #[error(fmt = h::<T>)] X(T), #[error("{0:?}")] Y(U) }
// a recursive type without a generic source
#[derive(Error, Debug)] #[error("{t}")] pub struct I<T> { pub t: T, pub next: ::core::option::Option<Box<I<T>>> }
// several parameters with the same bound
#[derive(Error, Debug)] #[error("{0}{0:?}{1}{0}")] pub struct J<T, U>(pub T, pub Same<U>);
// From does not need anything
pub struct K2<T>(pub T);
#[derive(Error)] #[error("k {source}")] pub struct K<T> { #[from] pub source: T }
impl<T> ::core::fmt::Debug for K<T> { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str("K") } }
#[derive(Error)] pub enum L<T, U> { #[error("l")] X(#[from] Same<T>), #[error(transparent)] Y { #[from] y: ::core::option::Option<Any<U>> }, #[error("{0:?} {1}")] Z(T, U) }
impl<T, U> ::core::fmt::Debug for L<T, U> { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str("L") } }
// an unsized last field
#[derive(Error, Debug)] #[error("{0} {1:?} {1:>4?}", )] pub struct N<T: ?Sized>(pub u8, pub T);
#[derive(Error, Debug)] #[error("{x} {t} {t:>4} {}", .t.to_string().len())] pub struct O<T: ?Sized + ::core::fmt::Display> { pub x: u8, pub t: T }
#[derive(Error, Debug)] #[error("{source} {t:?}")] pub struct P1<S, T> where T: ?::core::marker::Sized { pub source: S, pub t: T }
#[derive(Error, Debug)] #[error("q {x}")] pub struct Q1 { pub x: u8, pub source: dyn ::std::error::Error + Send + Sync }
trait DD: ::core::fmt::Debug + ::core::fmt::Display {} impl<T: ::core::fmt::Debug + ::core::fmt::Display> DD for T {}
fn unsized_tails(c: &mut ::mc::Ctx) {
  
  let n: ::std::boxed::Box<N<[u8]>> = ::std::boxed::Box::new(N(1, [2u8, 3]));
  c.eqf("tail", format_args!("{}", n), format_args!("1 [2, 3] [   2,    3]"));
  let n: &N<dyn DD> = &N(1, 2u8);
  c.eqf("tail", format_args!("{}", n), format_args!("1 2    2"));
  let o: &O<dyn ::core::fmt::Display> = &O { x: 1, t: 23u8 };
  c.eqf("tail", format_args!("{}", o), format_args!("1 23   23 2"));
  let p: &P1<::mc::Leaf, [u8]> = &P1 { source: ::mc::Leaf(1), t: [4u8] };
  c.eqf("tail", format_args!("{} {}", p, p.t.len()), format_args!("{} [4] 1", ::mc::Leaf(1)));
  c.pairs("tails", &[("N<str>", <Is<N<str>>>::DISPLAY, true), ("N<dyn Display>", <Is<N<dyn ::core::fmt::Display>>>::DISPLAY, false), ("O<str>: Display", <Is<O<str>>>::DISPLAY, true), ("O<dyn Display>: Error", <Is<O<dyn ::core::fmt::Display>>>::ERROR, false), ("P1<Leaf, str>", <Is<P1<::mc::Leaf, str>>>::ERROR, true), ("P1<u8, str>", <Is<P1<u8, str>>>::ERROR, false), ("Q1", <Is<Q1>>::ERROR, true)]);
}
"""


def fixed():
    """The hand-written shapes, over all markers."""
    head = FIXED
    o = []
    for m in ALL:
        M = "mk::" + m
        t = lambda x, tr: "<Is<%s>>::%s" % (x, tr)
        rows = [
            ("A<%s>" % M, "true", t(M, "DEBUG")),
            ("B<%s>" % M, t(M, "LOWERHEX"), t(M, "LOWERHEX") + " && " + t(M, "DEBUG")),
            ("C<%s, mk::All>" % M, "true", t(M, "DEBUG")),
            ("C<mk::Zero, %s>" % M, t(M, "DISPLAY"), "false"),
            ("E<%s>" % M, t(M, "DISPLAY"), t(M, "DISPLAY")),
            ("F<%s>" % M, t(M, "DEBUG"), t(M, "DEBUG")),
            ("G<%s, mk::All>" % M, t(M, "LOWERHEX"), t(M, "LOWERHEX") + " && " + t(M, "DEBUG")),
            ("G<mk::All, %s>" % M, t(M, "LOWERHEX") + " && " + t(M, "DISPLAY"), t(M, "LOWERHEX") + " && " + t(M, "DEBUG") + " && " + t(M, "ERROR")),
            ("H<mk::All, %s>" % M, t(M, "DEBUG"), t(M, "DEBUG")),
            ("I<%s>" % M, t(M, "DISPLAY"), t(M, "DISPLAY") + " && " + t(M, "DEBUG")),
            ("J<%s, mk::All>" % M, t(M, "DISPLAY") + " && " + t(M, "DEBUG"), t(M, "DISPLAY") + " && " + t(M, "DEBUG")),
            ("J<mk::All, %s>" % M, t(M, "DISPLAY"), t(M, "DISPLAY") + " && " + t(M, "DEBUG")),
            ("K<%s>" % M, t(M, "DISPLAY"), t(M, "ERROR")),
        ]
        for x, d, e in rows:
            o.append("(%s, <Is<%s>>::DISPLAY, %s), (%s, <Is<%s>>::ERROR, %s)," % (rust_str(x + ": Display"), x, d, rust_str(x + ": Error"), x, e))
        o.append("(\"From\", ::mc::impls!(K<%s>: ::core::convert::From<%s>), true), (\"From\", ::mc::impls!(L<%s, mk::Zero>: ::core::convert::From<Same<%s>>), true), (\"From\", ::mc::impls!(K<%s>: ::core::convert::From<K2<%s>>), false)," % ((M,) * 6))
    o.append("(\"E<str>\", <Is<E<str>>>::DISPLAY, true), (\"E<dyn Debug>\", <Is<E<dyn ::core::fmt::Debug>>>::DISPLAY, false), (\"F<[u8]>\", <Is<F<[u8]>>>::DISPLAY, true), (\"E<str>: Error\", <Is<E<str>>>::ERROR, true), (\"D<u8>\", <Is<D<u8>>>::ERROR, true),")
    head = head.replace("#[error(transparent)] Y { #[from] y: ::core::option::Option<Any<U>> }", "#[error(\"y\")] Y { #[from] y: ::core::option::Option<Any<U>> }")
    return Prog("fixed", head + "pub fn run(c: &mut ::mc::Ctx) { unsized_tails(c); c.pairs(\"fixed\", &[%s]); c.eq(\"I\", &::std::string::ToString::to_string(&I { t: 4, next: None }), \"4\"); }" % "\n".join(o), 300)


def wide_prog(w):
    """The parameter's field at every position of w fields (two-digit indices), as struct, as variant and among w variants;
    the bound comes from exactly the placeholder that names it."""
    ds, rows = [HEADER], []
    dbg = lambda n: "impl<T, U> ::core::fmt::Debug for %s<T, U> { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str(\"d\") } }\n" % n
    for p in range(w):
        q = (p + 7) % w                      # the field of U is not mentioned unless q is the decoy
        for named in (True, False):
            fs = [("f%d" % i, "T" if i == p else "U" if i == q else "u8") for i in range(w)]
            body = ("{ %s }" if named else "(%s)") % ", ".join("%s%s" % (n + ": " if named else "", t) for n, t in fs)
            for k, (spec, tr) in enumerate((("", "DISPLAY"), (":?", "DEBUG"), (":x", "LOWERHEX"))):
                n = "W%d_%d_%d" % (p, named, k)
                others = " ".join("{%s%d:x}" % ("f" if named else "", i) for i in range(w) if i not in (p, q))
                m = "%s {%s%d%s}" % (others, "f" if named else "", p, spec)
                ds.append("#[derive(Error)] #[error(\"%s\")] pub struct %s<T, U>%s%s\n" % (m, n, body, "" if named else ";") + dbg(n))
                v = "V" + n
                # one variant per position: only variant p shows its T
                arms = []
                for i in range(w):
                    if i == p:
                        arms.append("#[error(\"{0%s}\")] A%d(T)" % (spec, i) if not named else "#[error(\"{a%s}\")] A%d { a: T }" % (spec, i))
                    else:
                        arms.append("#[error(\"m\")] A%d(%s)" % (i, ("T", "U", "u8")[(i + p) % 3]))
                arms.append("#[error(\"m\")] Z(U)")
                ds.append("#[derive(Error)] pub enum %s<T, U> { %s }\n" % (v, ", ".join(arms)) + dbg(v))
                for x in (n, v):
                    for mk in ("Zero", "OnlyDisplay", "OnlyDebug", "OnlyLowerHex", "All"):
                        inst = "%s<mk::%s, mk::Zero>" % (x, mk)
                        rows.append("(%s, <Is<%s>>::DISPLAY, <Is<mk::%s>>::%s)," % (rust_str(inst + ": Display"), inst, mk, tr))
            # as source: the parameter must be an error, wherever its field is
            n = "S%d_%d" % (p, named)
            fs = [("f%d" % i, ("#[source] " if i == p else "", "T" if i == p else "U" if i == q else "u8")) for i in range(w)]
            body = ("{ %s }" if named else "(%s)") % ", ".join("%s%s%s" % (a, x + ": " if named else "", t) for x, (a, t) in fs)
            ds.append("#[derive(Error)] #[error(\"m\")] pub struct %s<T, U>%s%s\n" % (n, body, "" if named else ";") + dbg(n))
            for mk in ("Zero", "DispDbg", "Err", "All"):
                inst = "%s<mk::%s, mk::Zero>" % (n, mk)
                rows.append("(%s, <Is<%s>>::ERROR, <Is<mk::%s>>::ERROR), (%s, <Is<%s>>::DISPLAY, true)," % (rust_str(inst + ": Error"), inst, mk, rust_str(inst + ": Display"), inst))
    # many parameters, each shown by a trait of its own
    trs = [s for s in SPECS if s in ("", ":?", ":x", ":o", ":X", ":b", ":e", ":E", ":p")]
    ps = ["P%d" % i for i in range(w)]
    ds.append("#[derive(Error)] #[error(\"%s\")] pub struct Many<%s>(%s);\n" % (" ".join("{%d%s}" % (i, trs[i % len(trs)]) for i in range(w)), ", ".join(ps), ", ".join(ps)))
    ds.append("impl<%s> ::core::fmt::Debug for Many<%s> { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str(\"d\") } }\n" % (", ".join(ps), ", ".join(ps)))
    for i in range(w):
        for mk in ALL:
            args = ["mk::All"] * w
            args[i] = "mk::" + mk
            inst = "Many<%s>" % ", ".join(args)
            rows.append("(%s, <Is<%s>>::DISPLAY, <Is<mk::%s>>::%s)," % (rust_str("Many: parameter %d = %s" % (i, mk)), inst, mk, SPECS[trs[i % len(trs)]]))
    return Prog("wide/%d" % w, "".join(ds) + "pub fn run(c: &mut ::mc::Ctx) { c.pairs(\"wide\", &[%s]); }" % "\n".join(rows), len(rows))


def inherit_progs(c):
    """A message on the enum, over variants that have the fields it names at different positions and of different types."""
    msgs = ["{a}", "{b:?}", "{a:x} {b}", "{b} {a:?}"]
    orders = [("a", "b"), ("b", "a"), ("x", "a", "b"), ("a", "x", "b")]
    types = [("T", "u8"), ("u8", "T"), ("T", "U"), ("u8", "u8"), ("U", "T"), ("Swap<T>", "U")]
    first, second = (types, types) if c.thorough else (types[:4], [types[0], types[4], types[5], types[1]])
    if not c.thorough:
        orders = orders[:3]

    def enum(ch):
        named = ch([True, False])
        return named, ch(msgs), [(ch(orders), ch(first)), (ch(orders), ch(second))]
    items = []
    for named, m, vs in c.explore(enum):
        if not named:
            # by number: what the message names is a position
            m = m.replace("{a", "{0").replace("{b", "{1")
        arms, bounds = [], []
        for o, t in vs:
            ty = {"a": t[0], "b": t[1], "x": "u16"}
            arms.append([(n, ty[n]) for n in o])
            for ref, spec in re.findall(r"\{(\w)([^}]*)\}", m):
                at = ty[ref] if named else ty[o[int(ref)]]
                bounds.append((at, spec))
        items.append((named, m, arms, bounds))
    progs, size = [], 40
    for i in range(0, len(items), size):
        ds, rows = [HEADER], []
        for j, (named, m, arms, bounds) in enumerate(items[i:i + size]):
            n = "I%d" % j
            ds.append("#[derive(Error)] #[error(%s)] pub enum %s<T, U> { %s, #[error(\"own\")] Z(PhantomData<(T, U)>) }\n" % (rust_str(m), n, ", ".join(
                "V%d%s" % (k, ("{ %s }" if named else "(%s)") % ", ".join((f + ": " if named else "") + t for f, t in a)) for k, a in enumerate(arms))))
            ds.append("impl<T, U> ::core::fmt::Debug for %s<T, U> { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str(\"d\") } }\n" % n)
            for a, b in (("Zero", "Zero"), ("All", "Zero"), ("Zero", "All"), ("OnlyDisplay", "All"), ("OnlyDebug", "All"), ("OnlyLowerHex", "All"), ("All", "OnlyDisplay"), ("All", "OnlyDebug"), ("All", "OnlyLowerHex")):
                inst = "%s<mk::%s, mk::%s>" % (n, a, b)
                want = " && ".join(dict.fromkeys("<Is<%s>>::%s" % (subst(t, a, b), SPECS[sp]) for t, sp in bounds))
                rows.append("(%s, <Is<%s>>::DISPLAY, %s)," % (rust_str("%s %s: %s" % (m, arms, inst)), inst, want))
        progs.append(Prog("inherit/%d" % i, "".join(ds) + "pub fn run(c: &mut ::mc::Ctx) { c.pairs(\"inherit\", &[%s]); }" % "\n".join(rows), len(rows)))
    return progs


def transparent_structs(c):
    """A transparent struct has one field, so it declares no other type parameter than that field's."""
    heads = [("<T>", "", "<T>", ""), ("<T: Mk>", "", "<T>", ""), ("<T>", " where T: Mk, Vec<T>: Mk", "<T>", ""), ("<T = u8>", "", "<T>", ""), ("<T, const N: usize>", "", "<T, N>", ", 3")]

    def item(ch):
        ty = ch([f for f in FORMS if mentions(f) and "U" not in f and f not in ("PhantomData<T>", "Vec<T>", "Option<T>", "<Vec<T> as Tr>::Ty", "Two<u8, T>", "<u8 as Tr>::Gen<T>") and "Via<" not in f])
        ty = "<T as Tr>::Ty" if ty == "T::Ty" else ty
        return ty, ch(heads), ch([True, False]), ch(["", "#[from] "])
    ds, rows, lent = [HEADER], [], []
    for i, (ty, (g, w, a, post), named, at) in enumerate(c.explore(item)):
        if at and ("Tr>" in ty or ty == "T"):
            at = ""
        n = "TS%d" % i
        gi = g.replace(" = u8", "")
        ds.append("#[derive(Error)] #[error(transparent)] pub struct %s%s%s\n" % (n, g, (w + " { %sf: %s }" % (at, ty)) if named else "(%s%s)%s;" % (at, ty, w)))
        ds.append("impl%s ::core::fmt::Debug for %s%s%s { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str(\"d\") } }\n" % (gi, n, a, w))
        for m in (ALL if c.thorough or i % 2 else FEW) + ["Lent<'a>"]:
            inst = "%s<mk::%s%s>" % (n, m, post)
            t = subst(ty, m, m)
            if m == "Lent<'a>" and at:
                continue       # #[from] says it is a source
            (lent if m == "Lent<'a>" else rows).append("(%s, <Is<%s>>::DISPLAY, <Is<%s>>::DISPLAY), (%s, <Is<%s>>::ERROR, <Is<%s>>::DISPLAY && <Is<%s>>::ERROR)," % (rust_str(inst + ": Display"), inst, t, rust_str(inst + ": Error"), inst, t, t))
    return Prog("transparent-structs", "".join(ds) + "fn lent<'a>(c: &mut ::mc::Ctx, _: &'a u8) { c.pairs(\"lent\", &[%s]); }\npub fn run(c: &mut ::mc::Ctx) { c.pairs(\"transparent\", &[%s]); lent(c, &1); }" % ("\n".join(lent), "\n".join(rows)), len(rows))


def run(tier=None):
    c = Check("C08", "model_checking", tier)
    c.base("std")
    global FULL
    FULL = c.thorough
    progs = []

    def single(ch):
        """One field: every type form x every placeholder, alone and as source, over all markers."""
        ty = ch(FORMS)
        spec = ch(["none"] + list(SPECS))
        shape = ch(["struct", "enum1"])
        named = ch([True, False])
        attr = ch(["", "source"])
        if attr and (spec not in ("none", "", ":?") or "static" in ty or ty in ("u8", "PhantomData<T>", "Result<T, U>", "Vec<T>", "Option<T>", "<Vec<T> as Tr>::Ty", "<u8 as Tr>::Gen<T>") or "Via<" in ty):
            return None
        if attr and shape == "struct" and not named and not c.thorough:
            return None
        if not c.thorough and spec in (":#?", ":>5", ":x?", ":#010b", ":.3", ":X?", ":+e", ":^#x") and (ty not in ("T", "Same<T>") or named):
            return None
        if not mentions(ty) and spec not in ("none", ""):
            return None
        if spec == ":p" and ty in ("Same<T>",):
            pass
        return ("%s %s %s" % (shape, ty, spec), shape, [(ty, [] if spec == "none" else [spec], attr)], named, "plain", False, ALL)

    def pairs(ch):
        """Two fields, up to two placeholders each, in one item or in two variants, under every header."""
        dec = ch(list(DECOR))
        shape = ch(["struct", "enum1", "enumn"])
        fa = ch(["T", "Same<T>", "Swap<T>", "T::Ty"] if dec == "plain" or c.thorough else ["T", "Swap<T>"])
        fb = ch(["U", "T", "Two<T, U>", "Any<U>"] if dec == "plain" or c.thorough else ["U", "Two<T, U>"])
        if fa == "T::Ty" and dec not in ("inline2",):
            fa = "<T as Tr>::Ty"
        sa = ch([[], [""], [":?"], ["", ":x"]])
        sb = ch([[], [":?"], [":x", ""]])
        at = ch((["", "source", "name"] if dec in ("plain", "where") else [""]) + (["from"] if shape == "enumn" and "Tr>" not in fa else []))
        named = ch([True, False]) if at != "name" else True
        if at == "from" and not c.thorough and (sb or len(sa) > 1):
            return None
        if not c.thorough and named != (len(sa) % 2 == 0) and at != "name":
            return None
        return ("%s %s %s%s %s%s %s" % (dec, shape, fa, sa, fb, sb, at), shape, [(fa, sa, at), (fb, sb, "")], named, dec, False, FEW)

    def transp(ch):
        dec = ch(list(DECOR))
        ty = ch([f for f in FORMS if mentions(f) and f not in ("PhantomData<T>", "Vec<T>", "Option<T>", "Result<T, U>", "Option<Box<U>>", "<Vec<T> as Tr>::Ty") and "Via<" not in f])
        shape = ch(["enum1"]) if dec != "x" else None
        named = ch([True, False])
        if not c.thorough and dec != "plain" and ty not in ("T", "Same<T>"):
            return None
        return ("transparent %s %s" % (dec, ty), shape, [(ty, [], "")], named, dec, True, FEW if dec != "plain" else ALL)
    items = list(c.explore(single)) + list(c.explore(pairs)) + list(c.explore(transp))
    size = 6
    ninst = 0
    for i in range(0, len(items), size):
        ds, rs, lents = [], [], []
        for j, (tag, shape, fields, named, dec, tr, few) in enumerate(items[i:i + size]):
            n = "S%d" % j
            fields = [("<T as Tr>::Ty" if f == "T::Ty" else f, s, a) for f, s, a in fields]
            if few is ALL:
                # vary one parameter over all markers; the other is exercised in pairs
                second = any("U" in f for f, _, _ in fields)
                few2 = FEW if second else ["Zero", "All"]
            if not dec.startswith("life"):
                # types that borrow: only a source has to be 'static
                lent = _one(n, tag + " (borrowing)", fields, dec, tr, "Lent<'a>", "Lent<'a>", not any(a for _, _, a in fields))
                lents.append(lent)
            d, dbg = render_item(n, shape, fields, named, dec, tr)
            ds.append(d + dbg)
            cb = check_item(n, tag, fields, dec, tr, few if few is FEW else few2)
            if few is ALL:
                o = []
                seconds = ["All"] if second else ["Zero"]
                pre_few = [(m, k) for m in ALL for k in seconds] + ([(k, m) for m in ALL for k in seconds] if second else [])
                cb += check_pairs(n, tag, fields, dec, tr, pre_few)
            rs.append(cb)
        progs.append(Prog("items/%d" % i, HEADER + "".join(ds) + "".join("fn r%d(c: &mut ::mc::Ctx) { %s }\n" % (j, r) for j, r in enumerate(rs)) + "fn lent<'a>(c: &mut ::mc::Ctx, _: &'a u8) { %s }\npub fn run(c: &mut ::mc::Ctx) { %s lent(c, &1); }" % ("".join(lents), "".join("r%d(c);" % j for j in range(len(rs))))))
    progs.append(fixed())
    for w in (13, 23) if c.thorough else (13,):
        progs.append(wide_prog(w))
    progs += inherit_progs(c)
    progs.append(transparent_structs(c))
    c.sample(items[len(items) // 2][0])
    c.sample(items[-1][0])
    c.sample(progs[0].src[300:1200])
    c.max_unit = 1 << 20
    log("%d items, %.1f MB" % (len(items), sum(len(p.src) for p in progs) / 1e6))
    c.run_progs(progs, tag="gen")
    return c.finish(rule="every field type form x placeholder trait x designation; pairs of fields under every generics header; each instantiated with marker types that implement exactly a subset of the traits; the parameter at every position of 13 (23) fields and variants, 13 (23) parameters; expected impls computed from the field types' own impls",
                    programs=len(progs), layouts=len(items))


def check_pairs(n, tag, fields, dec, transparent, ms):
    out = []
    for m, k in ms:
        b = check_item(n, tag, fields, dec, transparent, [m]) if m == k else None
        if b is None:
            b = _one(n, tag, fields, dec, transparent, m, k)
        out.append(b)
    return "".join(out)


def _one(n, tag, fields, dec, transparent, m, k, error=True):
    global insts
    saved = insts
    try:
        insts = lambda n_, dec_, few_: ((m, k, "%s<%smk::%s, mk::%s%s>" % (n_, DECOR[dec_][2], m, k, ", 2" if dec_ == "const" else "")) for _ in [0])
        return check_item(n, tag, fields, dec, transparent, None, error)
    finally:
        insts = saved
