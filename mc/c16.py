"""C16: every legal identifier works in every role, in every edition."""
import itertools
from .core import Check, Prog, NIGHTLY, STABLE, rust_str

STRICT = "as break const continue else enum extern false fn for if impl in let loop match mod move mut pub ref return static struct trait true type unsafe use where while async await dyn".split()
RESERVED = "abstract become box do final macro override priv typeof unsized virtual yield try".split()
NEVER_RAW = {"self", "Self", "super", "crate", "_"}
WEAK = "union auto default raw macro_rules safe catch gen".split()
PLAIN = ["x", "_x", "x_", "x1", "_1", "_0", "x0y", "X", "Xx", "é", "ñame", "变量", "ß", "ω1", "_é", "ａ", "a9z_", "fmt", "write", "args", "f", "formatter", "core", "std", "thiserror", "e", "ee", "u8", "str",
         "i", "p", "display", "debug", "transparent", "from", "error", "request", "n", "long_name_with_many_parts_in_it_0123456789", "Q", "r", "b", "br", "c", "cr", "rb", "l"]


def arg_forms(n, edition):
    """The ways to write the name of a named argument: keywords need no `r#` there."""
    return [n, "r#" + n]


def keyword(n, edition):
    return n in STRICT or n in RESERVED or n == "gen" and edition >= "2024"


def forms(n, edition):
    """The ways to write the name."""
    if keyword(n, edition):
        return ["r#" + n]
    return [n, "r#" + n]


L = "::mc::Leaf"
OPT = "::core::option::Option"
BT = "::std::backtrace::Backtrace"


def s(v):
    return "&%s.to_string()" % v


# (key, definition, run) with @D declared form, @U form used in arguments, @N the name
ROLES = [
    ("msg", '#[error("{@N} {@N:?} {@N:>4}{@N:#x}|{{@N}}")] pub struct E { @D: u8 }', 'c.msg("", &E { @D: 5 }, format_args!("5 5    50x5|{{@N}}"));'),
    ("second", '#[error("{@N}{other}{@N}")] pub struct E { @D: u8, other: i8 }', 'c.msg("", &E { @D: 5, other: -1 }, format_args!("5-15"));'),
    ("before", '#[error("{other}{@N}")] pub struct E { other: i8, @D: u8 }', 'c.msg("", &E { @D: 5, other: -1 }, format_args!("-15"));'),
    ("path", '#[error("{@N} {@N:?}")] pub struct E { @D: ::std::path::PathBuf }', 'c.msg("", &E { @D: "p".into() }, format_args!("p \\"p\\""));'),
    ("pointer", '#[error("{@N:p} {@N}")] pub struct E { @D: &\'static u8 }', 'let e = E { @D: &5 }; c.msg("", &e, format_args!("{:p} 5", e.@D));'),
    ("dot", '#[error("{}", .@U)] pub struct E { @D: u8 }', 'c.msg("", &E { @D: 5 }, format_args!("5"));'),
    ("dotcall", '#[error("{} {}", .@U.count_ones(), .@U)] pub struct E { @D: u8 }', 'c.msg("", &E { @D: 5 }, format_args!("2 5"));'),
    ("dotnested", '#[error("{} {x}", .o.@U, x = .o.@U + 1)] pub struct E { o: O } #[derive(Debug)] pub struct O { @D: u8 }', 'c.msg("", &E { o: O { @D: 5 } }, format_args!("5 6"));'),
    ("dotself", '#[error("{}", self.@U)] pub struct E { @D: u8 }', 'c.msg("", &E { @D: 5 }, format_args!("5"));'),
    ("named", '#[error("{@N}{@N:?}", @A = 7)] pub struct E { other: u8 }', 'c.msg("", &E { other: 5 }, format_args!("77"));'),
    ("nameddot", '#[error("{@N} {other}", @A = .other)] pub struct E { other: u8 }', 'c.msg("", &E { other: 5 }, format_args!("5 5"));'),
    ("namedself", '#[error("{@N}{@N:?}{}", .@U, @A = .@U + 1)] pub struct E { @D: u8 }', 'c.msg("", &E { @D: 5 }, format_args!("665"));'),
    ("namedenum", 'pub enum E { #[error("{@N}{}", .@U, @A = 1)] A { @D: u8 }, #[error("{other}{@N}{o}", @A = .other, o = .@U)] B { other: u8, @D: i8 } }', 'c.msg("", &E::A { @D: 5 }, format_args!("15")); c.msg("", &E::B { @D: 5, other: 2 }, format_args!("225"));'),
    ("width", '#[error("{other:@N$}|{other:.@N$}", @A = 4)] pub struct E { other: f32 }', 'c.msg("", &E { other: 1.5 }, format_args!(" 1.5|1.5000"));'),
    ("arglocals", '#[error("{@N:?} {@N} {__field_@N} {___field_@N} {____field_@N} {__display_@N} {___display_@N} {@N:>2}", __field_@N = 5, ___field_@N = 6, ____field_@N = 7, __display_@N = 8, ___display_@N = 9)] pub struct E { @D: u8 }', 'c.msg("", &E { @D: 1 }, format_args!("1 1 5 6 7 8 9  1"));'),
    ("argindices", '#[error("{0} {0:?} {__field0} {___field0} {__display0} {___display0} {@N}", __field0 = 5, ___field0 = 6, __display0 = 7, ___display0 = 8, @A = .0 + 1)] pub struct E(u8);', 'c.msg("", &E(1), format_args!("1 1 5 6 7 8 2"));'),
    ("source", '#[error("m")] pub struct E { #[source] @D: %s }' % L, 'let e = E { @D: %s(1) }; c.source_is("", &e, Some(("leaf1", &[::mc::addr(&e.@D)])));' % L),
    ("optsource", '#[error("m")] pub struct E { #[source] @D: %s<%s> }' % (OPT, L), 'let e = E { @D: Some(%s(1)) }; c.source_is("", &e, Some(("leaf1", &[::mc::addr(e.@D.as_ref().unwrap())])));' % L),
    ("from", '#[error("m {@N}")] pub struct E { #[from] @D: %s }' % L, 'let e = E::from(%s(2)); c.msg("", &e, format_args!("m leaf2")); c.source_is("", &e, Some(("leaf2", &[::mc::addr(&e.@D)])));' % L),
    ("optfrom", '#[error("m")] pub struct E { #[from] @D: %s<%s> }' % (OPT, L), 'let e = E::from(%s(2)); c.ok("", e.@D.is_some(), "converted");' % L),
    ("transparent", '#[error(transparent)] pub struct E { @D: ::mc::Node }', 'let e = E { @D: ::mc::Node(1, None) }; c.transparent("", &e, &e, &e.@D);'),
    ("transparentfrom", '#[error(transparent)] pub struct E { #[from] @D: %s }' % L, 'let e = E::from(%s(3)); c.transparent("", &e, &e, &e.@D);' % L),
    ("tname", '#[error("{0}")] pub struct @D(#[from] %s);' % L, 'let e = Ty::from(%s(1)); c.msg("", &e, format_args!("leaf1"));' % L),
    ("ename", 'pub enum @D { #[error("{0}")] A(#[from] %s), #[error("{x}")] B { x: u8 }, #[error(transparent)] C(::mc::Node), #[error(fmt = show)] D } fn show(f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str("d") }' % L,
     'let e = Ty::from(%s(1)); c.msg("", &e, format_args!("leaf1")); c.msg("", &Ty::B { x: 3 }, format_args!("3")); c.msg("", &Ty::D, format_args!("d"));' % L),
    ("variant", 'pub enum E { #[error("{0}{x}", x = .0)] @D(u8), #[error("o")] Other }', 'c.msg("", &E::@D(3), format_args!("33"));'),
    ("unitvariant", 'pub enum E { #[error("m")] @D }', 'c.msg("", &E::@D, format_args!("m"));'),
    ("variantfrom", 'pub enum E { #[error("m")] @D(#[from] %s), #[error(transparent)] Other(#[from] ::core::fmt::Error) }' % L, 'let e = E::from(%s(1)); c.msg("", &e, format_args!("m")); c.ok("", matches!(e, E::@D(_)), "variant");' % L),
    ("varianttrans", 'pub enum E { #[error(transparent)] @D(::mc::Node), #[error("s")] Other { source: %s } }' % L, 'let e = E::@D(::mc::Node(1, None)); if let E::@D(n) = &e { c.transparent("", &e, &e, n); }'),
    ("enummsg", 'pub enum E { #[error("{@N} {@N:?} {}", .@U)] A { @D: u8 }, #[error("{other}{@N}")] B { other: u8, @D: i8 } }', 'c.msg("", &E::A { @D: 5 }, format_args!("5 5 5")); c.msg("", &E::B { @D: 5, other: 6 }, format_args!("65"));'),
    ("enumouter", '#[error("{@N}")] pub enum E { A { @D: u8 }, B { @D: i8, other: u8 } }', 'c.msg("", &E::A { @D: 5 }, format_args!("5")); c.msg("", &E::B { @D: -5, other: 6 }, format_args!("-5"));'),
    ("enumsource", 'pub enum E { #[error("m")] A { #[source] @D: %s }, #[error("n")] B { #[source] @D: %s<Box<%s>>, other: u8 } }' % (L, OPT, L), 'let e = E::A { @D: %s(1) }; if let E::A { @D: x } = &e { c.source_is("", &e, Some(("leaf1", &[::mc::addr(x)]))); } c.source_is("", &E::B { @D: None, other: 1 }, None);' % L),
    ("enumfrom", 'pub enum E { #[error("m{@N}")] A { #[from] @D: %s }, #[error("n")] B }' % L, 'let e = E::from(%s(1)); c.msg("", &e, format_args!("mleaf1"));' % L),
    ("enumtrans", 'pub enum E { #[error(transparent)] A { @D: ::mc::Node }, #[error("n")] B }', 'let e = E::A { @D: ::mc::Node(1, None) }; if let E::A { @D: x } = &e { c.transparent("", &e, &e, x); }'),
    ("fmtfield", 'pub enum E { #[error(fmt = show)] A { @D: u8, other: i8 } } fn show(a: &u8, b: &i8, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { write!(f, "{} {}", a, b) }', 'c.msg("", &E::A { @D: 1, other: -1 }, format_args!("1 -1"));'),
    ("fmtname", 'pub enum E { #[error(fmt = @D)] A(u8), #[error(fmt = m::@D)] B } fn @D(a: &u8, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { write!(f, "{}", a) } mod m { pub fn @D(f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str("b") } }', 'c.msg("", &E::A(1), format_args!("1")); c.msg("", &E::B, format_args!("b"));'),
    ("fmtsame", 'pub enum E { #[error(fmt = @D)] A { @D: u8, other: i8 } } fn @D(a: &u8, b: &i8, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { write!(f, "{} {}", a, b) }', 'c.msg("", &E::A { @D: 1, other: -1 }, format_args!("1 -1"));'),
    ("argfn", '#[error("{}", m::@U(.x))] pub struct E { x: u8 } mod m { pub fn @D(x: &u8) -> u8 { *x + 1 } }', 'c.msg("", &E { x: 1 }, format_args!("2"));'),
    ("argmethod", '#[error("{} {}", self.@U(), .x.@U())] pub struct E { x: X } #[derive(Debug)] pub struct X; impl X { fn @D(&self) -> u8 { 2 } } impl E { fn @D(&self) -> u8 { 1 } }', 'c.msg("", &E { x: X }, format_args!("1 2"));'),
]
GEN = [
    ("param", '#[error("{0} {0:?}")] pub struct E<@D>(@D);', 'c.msg("", &E(4u8), format_args!("4 4")); use ::mc::IsNot as _; c.pairs("", &[("Error", <::mc::Is<E<u8>>>::ERROR, true), ("not", <::mc::Is<E<Vec<u8>>>>::DISPLAY, false)]);'),
    ("paramsource", '#[error("m")] pub struct E<@D> { #[source] x: @D }', 'let e = E { x: %s(1) }; c.source_is("", &e, Some(("leaf1", &[::mc::addr(&e.x)])));' % L),
    ("paramenum", 'pub enum E<@D> { #[error("{0}")] A(@D), #[error("{x:?}")] B { x: Vec<@D> }, #[error(transparent)] C(#[from] Box<%s>) }' % L, 'c.msg("", &E::A(1u8), format_args!("1")); c.msg("", &E::B { x: vec![1u8] }, format_args!("[1]"));'),
    ("const", '#[error("{0:?} {}", @U)] pub struct E<const @D: usize>([u8; { @D }]);', None),
]
NIGHT = [
    ("bt", '#[error("m")] pub struct E { @D: %s }' % BT, 'let e = E { @D: %s::disabled() }; c.bt_is("", &e, &[::mc::addr(&e.@D)], None);' % BT),
    ("btattr", '#[error("m")] pub struct E { #[backtrace] @D: %s<%s>, other: u8 }' % (OPT, BT), 'let e = E { @D: Some(%s::disabled()), other: 1 }; c.bt_is("", &e, &[::mc::addr(e.@D.as_ref().unwrap())], None);' % BT),
    ("btsource", '#[error("m")] pub struct E { #[source] #[backtrace] @D: ::mc::Ans }', 'let e = E { @D: ::mc::Ans::new(true) }; c.bt_is("", &e, &[::mc::addr(&e.@D.bt)], Some(true));'),
    ("btboth", '#[error("m")] pub struct E { #[source] @D: %s<::mc::Ans>, other: %s }' % (OPT, BT), 'let e = E { @D: None, other: %s::disabled() }; c.bt_is("", &e, &[::mc::addr(&e.other)], Some(false));' % BT),
    ("btfrom", '#[error("m")] pub struct E { #[from] source: %s, @D: %s }' % (L, BT), 'let e = E::from(%s(1)); c.bt_is("", &e, &[::mc::addr(&e.@D)], None);' % L),
    ("btenum", 'pub enum E { #[error("m")] A { @D: %s, other: u8 }, #[error("n")] B { #[source] #[backtrace] @D: ::mc::Ans }, #[error("o")] C { #[source] @D: ::mc::Ans, other: %s }, #[error("p")] D { #[from] source: %s, @D: %s } }' % (BT, BT, L, BT),
     'let e = E::A { @D: %s::disabled(), other: 0 }; if let E::A { @D: x, .. } = &e { c.bt_is("a", &e, &[::mc::addr(x)], None); } let e = E::B { @D: ::mc::Ans::new(true) }; if let E::B { @D: x } = &e { c.bt_is("b", &e, &[::mc::addr(&x.bt)], Some(true)); } '
     'let e = E::C { @D: ::mc::Ans::new(false), other: %s::disabled() }; if let E::C { other: x, .. } = &e { c.bt_is("c", &e, &[::mc::addr(x)], Some(true)); } let e = E::from(%s(1)); if let E::D { @D: x, .. } = &e { c.bt_is("d", &e, &[::mc::addr(x)], None); }' % (BT, BT, L)),
]

# Two names in one type, to be told apart.
PAIRS = [("r#type", "type_"), ("r#fn", "fn_"), ("x", "_x"), ("_x", "__x"), ("é", "e"), ("x", "X"), ("r#a", "b"), ("_0", "x"), ("_1", "_0"), ("x", "xx"), ("r#async", "r#await"), ("r#true", "r#false"), ("display0", "field0"), ("r#r", "r#f"), ("变", "变量")]


def program(roles, names, edition, name_of):
    mods, runs = [], []
    i = 0
    for key, d, r in roles:
        if r is None:
            continue
        for df in forms(name_of, edition):
            for uf, af in itertools.product(forms(name_of, edition) if "@U" in d else [None], arg_forms(name_of, edition) if "@A" in d else [None]):
                if key in ("ename",) and name_of in ("A", "B"):
                    continue
                dd = d.replace("@D", df).replace("@N", name_of).replace("@U", uf or "").replace("@A", af or "")
                rr = r.replace("@D", df).replace("@N", name_of)
                if key in ("tname", "ename"):
                    dd = "pub mod d { #[derive(::thiserror::Error, Debug)] %s } use self::d::%s as Ty; " % (dd, df)
                    mods.append("pub mod m%d { %s\npub fn run(c: &mut ::mc::Ctx) { %s } }" % (i, dd, rr.replace('("", ', "(%s, " % rust_str("%s %s %s %s" % (key, df, uf or "", af or "")))))
                    runs.append("m%d::run(c);" % i)
                    i += 1
                    continue
                mods.append("pub mod m%d { #[derive(::thiserror::Error, Debug)] %s\npub fn run(c: &mut ::mc::Ctx) { %s } }" % (i, dd, rr.replace('("", ', "(%s, " % rust_str("%s %s %s %s" % (key, df, uf or "", af or "")))))
                runs.append("m%d::run(c);" % i)
                i += 1
    return "\n".join(mods) + "\npub fn run(c: &mut ::mc::Ctx) { %s }" % " ".join(runs), i


def skip(key, n):
    """Uses in which the name means something else."""
    if n in ("source", "backtrace"):
        return True
    if key == "tname" and n in ("_0", "_1"):
        return True     # also a variable of the generated code
    if key in ("tname", "ename") and n in ("A", "u8", "str", "E", "Error", "X", "Q"):
        return n == "u8"       # the field type of those programs
    if key.startswith("param") and n in ("u8", "str"):
        return True
    if key in ("tname", "ename", "param", "paramsource", "paramenum") and n in ("core", "std", "thiserror"):
        return False
    if key == "argmethod" and n == "fmt":
        return False
    if key == "fmtname" and n == "m":
        return True
    if key in ("second", "before") and n == "other":
        return True
    return False


def run(tier):
    c = Check("C16", "model_checking", tier)
    c.bases_parallel(("std", STABLE), ("std", NIGHTLY))
    names = [n for n in STRICT + RESERVED + WEAK + PLAIN]
    if c.thorough:
        names += more_names()
    kinds = 0
    for edition in ("2018", "2021", "2024"):
        def one(ch, roles):
            n = ch(names)
            chosen = [r for r in roles if not skip(r[0], n)]
            src, k = program(chosen, names, edition, n)
            c.count(k)
            return Prog("%s/%s" % (edition, n), src)
        c.run_progs(list(c.explore(lambda ch: one(ch, ROLES + GEN))), edition=edition, tag="s" + edition)
        c.run_progs(list(c.explore(lambda ch: one(ch, NIGHT))), "std", NIGHTLY, edition=edition, tag="n" + edition, head="#![feature(error_generic_member_access)]\n#![allow(warnings)]\n")

        def pair(ch):
            a, b = ch(PAIRS)
            if ch.flag():
                a, b = b, a
            na, nb = a.replace("r#", ""), b.replace("r#", "")
            if not a.startswith("r#") and keyword(na, edition) or not b.startswith("r#") and keyword(nb, edition):
                return None
            t = [("s", '#[error("{%s}|{%s}|{%s:?}|{}|{}", .%s, .%s)] pub struct E { %s: u8, %s: i8 }' % (na, nb, na, b, a, a, b), "E { %s: 1, %s: -2 }" % (a, b), "1|-2|1|-2|1"),
                 ("p", '#[error("{%s:p}{%s:p}{%s}", %s = .%s)] pub struct E { %s: u8, %s: i8 }' % (na, nb, na, a, b, a, b), None, None),
                 ("n", '#[error("{%s}{%s}", %s = .%s, %s = .%s)] pub struct E { x0: u8, y0: i8 }' % (na, nb, b, "x0", a, "y0"), "E { x0: 1, y0: -2 }", "-21"),
                 ("e", 'pub enum E { #[error("{%s}{%s}")] %s { %s: u8, %s: i8 }, #[error("{%s}")] %s { %s: u8, %s: i8 } }' % (nb, na, a, b, a, na, b, b, a), "E::%s { %s: 1, %s: -2 }" % (a, b, a), "1-2")]
            mods = "".join("pub mod %s { #[derive(::thiserror::Error, Debug)] %s\npub fn run(c: &mut ::mc::Ctx) { c.msg(%s, &%s, format_args!(\"%s\")); } }\n" % (k, d, rust_str(k + a + b), v, w) for k, d, v, w in t if v)
            return Prog("%s/pair/%s/%s" % (edition, a, b), mods + "pub fn run(c: &mut ::mc::Ctx) { %s }" % " ".join(k + "::run(c);" for k, _, v, _ in t if v))
        c.run_progs(list(c.explore(pair)), edition=edition, tag="p" + edition)
    return c.finish(names=len(names), roles=len(ROLES + GEN + NIGHT))


def more_names():
    """All identifiers of up to two characters over an alphabet, and non-ASCII ones of many scripts."""
    first, rest = "aZ_éω变", "aZ_09éω变"
    out = [a for a in first if a != "_"] + [a + b for a in first for b in rest if a + b != "__"]
    out += [a + b + c for a in "a_é" for b in "0_é" for c in "9_Z变" if not (a + b).startswith("__")]
    return [n for n in out if n not in PLAIN and not keyword(n, "2024")]
