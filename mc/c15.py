"""C15: generated code does not see the names of the user's scope."""
import itertools
import re
from .core import Check, Prog, NIGHTLY, STABLE

# ---- what the surrounding module may define --------------------------------
# One entry per name: every item kind that can carry it.
TYPES = ["Option", "Result", "Error", "Display", "Debug", "Formatter", "Arguments", "String", "Box", "Vec", "ToString", "ToOwned", "From", "Into", "AsRef", "Deref",
         "Backtrace", "Request", "Path", "PathBuf", "AsDynError", "AsDisplay", "ThiserrorProvide", "Sealed", "Var", "Sized", "Send", "Sync", "Copy", "Clone",
         "Fn", "Iterator", "Default", "Pointer", "LowerHex", "Write", "Infallible", "Self_", "PhantomData", "UnwindSafe", "thiserror", "core", "std", "alloc", "fmt", "error",
         "option", "convert", "backtrace", "__private", "private"]
PRIMS = ["str", "u8", "usize", "bool", "char", "u32", "i32", "f64"]
VALUES = ["Some", "None", "Ok", "Err"]
FNS = ["Some", "Ok", "Err", "write", "from", "into", "source", "provide", "fmt", "drop", "display", "capture", "_fmt", "default", "request", "backtrace", "transparent", "__formatter", "write_str",
       "provide_ref", "thiserror_provide", "as_dyn_error", "as_display", "unreachable", "format_args", "main", "self_", "std", "core", "thiserror"]
MACROS = ["write", "writeln", "format", "format_args", "panic", "unreachable", "matches", "vec", "concat", "stringify", "print", "println", "assert", "compile_error", "todo", "unimplemented",
          "include_str", "env", "cfg", "debug_assert", "try", "Error", "error", "backtrace", "from", "source", "transparent", "fmt", "core", "std", "thiserror"]
# methods that std types used by the expansion have too, on everything
METHODS = ["write_str(&self, _: &::core::primitive::str) -> ::core::primitive::u8 { 0 }", "write_fmt(&self, _: ::core::fmt::Arguments<'_>) -> ::core::primitive::u8 { 0 }",
           "as_ref(&self) -> ::core::primitive::u8 { 0 }", "fmt(&self) -> ::core::primitive::u8 { 0 }", "source(&self) -> ::core::primitive::u8 { 0 }",
           "provide(&self) -> ::core::primitive::u8 { 0 }", "provide_ref(&self) -> ::core::primitive::u8 { 0 }", "from(_: &Self) -> ::core::primitive::u8 { 0 }",
           "into(&self) -> ::core::primitive::u8 { 0 }", "capture() -> ::core::primitive::u8 { 0 }", "display(&self) -> ::core::primitive::u8 { 0 }", "deref(&self) -> ::core::primitive::u8 { 0 }",
           "to_string(&self) -> ::core::primitive::u8 { 0 }", "borrow(&self) -> ::core::primitive::u8 { 0 }", "clone_ref(&self) -> ::core::primitive::u8 { 0 }"]


def shadows():
    """-> [(name, key, definition)]"""
    out = []
    for n in TYPES:
        if n in ("Self_",):
            continue
        out.append((n, "struct " + n, "pub struct %s;" % n if n not in LOWER_CONST else "pub struct %s {}" % n))
        out.append((n, "enum " + n, "pub enum %s { Some, None, Ok, Err }" % n))
        out.append((n, "alias " + n, "pub type %s<T> = ::core::marker::PhantomData<T>;" % n))
        out.append((n, "trait " + n, "pub trait %s {}" % n))
        out.append((n, "blanket trait " + n, "pub trait %s {} impl<T: ?::core::marker::Sized> %s for T {}" % (n, n)))
        out.append((n, "mod " + n, "pub mod %s {}" % n))
        out.append((n, "union " + n, "pub union %s { pub x: ::core::primitive::u8 }" % n))
    for n in PRIMS:
        out.append((n, "alias " + n, "pub type %s = ();" % n))
        out.append((n, "struct " + n, "pub struct %s {}" % n))
        out.append((n, "mod " + n, "pub mod %s {}" % n))
        out.append((n, "trait " + n, "pub trait %s {}" % n))
    for n in VALUES:
        out.append((n, "const " + n, "pub const %s: () = ();" % n))
        out.append((n, "static " + n, "pub static %s: () = ();" % n))
        out.append((n, "unit struct " + n, "pub struct %s;" % n))
        out.append((n, "tuple struct " + n, "pub struct %s<T>(pub T);" % n))
        out.append((n, "function " + n, "pub fn %s() {}" % n))
    for n in FNS:
        if n not in VALUES:
            out.append((n, "function " + n, "pub fn %s() {}" % n))
    for n in MACROS:
        out.append((n + "!", "macro " + n, "macro_rules! %s { ($($t:tt)*) => { ::core::compile_error!(\"the user's macro\") } }" % ("r#" + n if n in ("try",) else n)))
    for m in METHODS:
        n = m.split("(")[0]
        out.append((n + "()", "method " + n, "pub trait Ext_%s { fn %s } impl<T: ?::core::marker::Sized> Ext_%s for T {}" % (n, m, n)))
    return out


# A unit or tuple struct is also a value: names the expansion binds as variables.
LOWER_CONST = {"thiserror", "core", "std", "alloc", "fmt", "error", "option", "convert", "backtrace", "__private", "private"}

# Names that local variables and parameters of generated code might have. As constants,
# statics or unit structs of the user they cannot be shadowed by a binding.
VARIABLES = ["source", "backtrace", "request", "transparent", "error", "err", "formatter", "fmt", "value", "inner", "this", "other", "var", "field", "arg", "args", "display",
             "result", "res", "ret", "body", "from", "into", "opt", "some", "bt", "req", "dyn_error", "message", "msg", "text", "write", "wrapped", "cause", "variant", "out", "tmp",
             "f", "e", "x", "w", "s", "v", "r", "t"] + ["_" + x for x in ("source", "backtrace", "request", "transparent", "error", "formatter", "f", "e", "self")]
HOLDERS = [("const", "pub const %s: () = ();"), ("static", "pub static %s: () = ();"), ("unit struct", "pub struct %s;"), ("tuple struct", "pub struct %s(pub ());"),
           ("unit variant", "pub enum Holder { %s } pub use self::Holder::*;"), ("const fn", "pub const fn %s() {}"), ("module", "pub mod %s {}"), ("type", "pub type %s = ();")]
PLACES = ["local", "glob", "use", "outer", "fn"]

# ---- what is derived ---------------------------------------------------------
# @T type, @V variant, @P type parameter
S = "::std::string::ToString::to_string"
SRC = "::std::error::Error::source(&e)"
DBG = " impl%s ::core::fmt::Debug for @T%s { fn fmt(&self, _: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { ::core::result::Result::Ok(()) } }"
D = DBG % ("", "")
DP = DBG % ("<@P>", "<@P>")
ST = "&'static ::core::primitive::str"
U8 = "::core::primitive::u8"
OPT = "::core::option::Option"
BOX = "::std::boxed::Box<dyn ::std::error::Error>"
HASSRC = 'c.ok("source", ' + OPT + '::is_some(&' + SRC + '), "has a source");'
NOSRC = 'c.ok("source", ' + OPT + '::is_none(&' + SRC + '), "has no source");'
SRCMSG = 'c.eq("source", &' + S + '(' + OPT + '::unwrap(' + SRC + ')), "%s");'


def show(text):
    return 'c.eq("display", &' + S + '(&e), "%s");' % text


FROM = "let e: @T%s = ::core::convert::From::from(%s);"
KINDS = [
    ("unit", '#[derive(::thiserror::Error)] #[error("m")] pub struct @T;' + D, ["let e = @T; " + show("m") + NOSRC]),
    ("tuple", '#[derive(::thiserror::Error)] #[error("{0} {1:?} {x}", x = .0)] pub struct @T(%s, %s);' % (U8, ST) + D, ['let e = @T(1, "a"); ' + show('1 \\"a\\" 1')]),
    ("named", '#[derive(::thiserror::Error)] #[error("{p} {x:>3} {y:#x} {}", .y)] pub struct @T { p: ::std::path::PathBuf, x: %s, y: %s }' % (ST, U8) + D,
     ['let e = @T { p: ::core::convert::From::from("p"), x: "a", y: 5 }; ' + show("p   a 0x5 5") + NOSRC]),
    ("pointer", '#[derive(::thiserror::Error)] #[error("{0:p}")] pub struct @T(&\'static %s);' % U8 + D,
     ['let e = @T(&5); let mut s = ' + S + '(&e); s.truncate(2); c.eq("display", &s, "0x");']),
    ("source", '#[derive(::thiserror::Error)] #[error("m")] pub struct @T { source: ::mc::Leaf }' + D, ["let e = @T { source: ::mc::Leaf(3) }; " + show("m") + SRCMSG % "leaf3"]),
    ("optsource", '#[derive(::thiserror::Error)] #[error("m")] pub struct @T(#[source] %s<::mc::Leaf>);' % OPT + D,
     ["let e = @T(%s::Some(::mc::Leaf(3))); " % OPT + show("m") + SRCMSG % "leaf3", "let e = @T(%s::None); " % OPT + NOSRC]),
    ("boxsource", '#[derive(::thiserror::Error)] #[error("m")] pub struct @T(#[source] %s);' % BOX + D, ["let e = @T(::std::boxed::Box::new(::mc::Leaf(4))); " + SRCMSG % "leaf4"]),
    ("from", '#[derive(::thiserror::Error)] #[error("m {0}")] pub struct @T(#[from] ::mc::Leaf);' + D, [FROM % ("", "::mc::Leaf(5)") + show("m leaf5") + SRCMSG % "leaf5"]),
    ("optfrom", '#[derive(::thiserror::Error)] #[error("m")] pub struct @T { #[from] inner: %s<::mc::Leaf> }' % OPT + D, [FROM % ("", "::mc::Leaf(5)") + show("m") + SRCMSG % "leaf5"]),
    ("transparent", '#[derive(::thiserror::Error)] #[error(transparent)] pub struct @T(#[from] ::mc::Leaf);' + D, [FROM % ("", "::mc::Leaf(6)") + show("leaf6") + NOSRC]),
    ("enum", '#[derive(::thiserror::Error)] pub enum @T { #[error("a")] @V, #[error("{0} {x}", x = .1)] @V1(%s, %s), #[error("{p} {q:?}")] @V2 { p: ::std::path::PathBuf, q: %s }, '
     '#[error("s")] @V3 { source: ::mc::Leaf }, #[error("o")] @V4(#[source] %s<::std::boxed::Box<::mc::Leaf>>), #[error(transparent)] @V5(#[from] ::mc::Node), #[error("f{0}")] @V6(#[from] ::core::fmt::Error), '
     '#[error(fmt = show_it)] @V7(%s), #[error(transparent)] @V8 { #[from] inner: %s } }' % (U8, ST, U8, OPT, U8, BOX) +
     ' fn show_it(__x: &%s, __f: &mut ::core::fmt::Formatter<\'_>) -> ::core::fmt::Result { ::core::fmt::Display::fmt(__x, __f) }' % U8 + D,
     ["let e = @T::@V; " + show("a") + NOSRC, 'let e = @T::@V1(1, "x"); ' + show("1 x"), 'let e = @T::@V2 { p: ::core::convert::From::from("p"), q: 2 }; ' + show("p 2"),
      "let e = @T::@V3 { source: ::mc::Leaf(1) }; " + show("s") + SRCMSG % "leaf1", "let e = @T::@V4(%s::None); " % OPT + show("o") + NOSRC,
      "let e = @T::@V4(%s::Some(::std::boxed::Box::new(::mc::Leaf(2)))); " % OPT + SRCMSG % "leaf2",
      FROM % ("", "::mc::Node(1, %s::Some(::mc::Leaf(7)))" % OPT) + show("node1[ NoneNone]") + SRCMSG % "leaf7",
      FROM % ("", "::core::fmt::Error") + show("fan error occurred when formatting an argument") + HASSRC, "let e = @T::@V7(9); " + show("9") + NOSRC,
      FROM % ("", "<%s as ::core::convert::From<::mc::Leaf>>::from(::mc::Leaf(8))" % BOX) + show("leaf8") + NOSRC]),
    ("enummsg", '#[derive(::thiserror::Error)] #[error("d")] pub enum @T { @V, @V1(%s), #[error("{x}")] @V2 { x: %s } }' % (U8, U8) + D, ["let e = @T::@V; " + show("d"), "let e = @T::@V1(1); " + show("d"), "let e = @T::@V2 { x: 3 }; " + show("3")]),
    ("empty", "#[derive(::thiserror::Error)] pub enum @T {}" + D, []),
    ("generic", '#[derive(::thiserror::Error)] #[error("{0} {0:?} {x:x}", x = 3)] pub struct @T<@P>(@P);' + DP, ["let e = @T(5u8); " + show("5 5 3")]),
    ("genericsource", '#[derive(::thiserror::Error)] #[error("m")] pub struct @T<@P> { #[source] inner: @P }' + DP, ["let e = @T { inner: ::mc::Leaf(1) }; " + SRCMSG % "leaf1"]),
    ("generictrans", "#[derive(::thiserror::Error)] #[error(transparent)] pub struct @T<@P>(@P);" + DP, ["let e = @T(::mc::Leaf(1)); " + show("leaf1") + NOSRC]),
    ("genericenum", '#[derive(::thiserror::Error)] pub enum @T<@P> { #[error("{0}")] @V(@P), #[error("{x:?}")] @V1 { x: @P }, #[error("b")] @V2(#[from] ::std::boxed::Box<::mc::Leaf>), #[error("p{0:p}")] @V3(&\'static @P) where @P: \'static }'.replace(" where @P: 'static", "") .replace("<@P> {", "<@P: 'static> {") +
     DBG % ("<@P>", "<@P>"), ["let e = @T::@V(5u8); " + show("5"), 'let e = @T::@V1 { x: "q" }; ' + show('\\"q\\"'), FROM % ("<::core::primitive::u8>", "::std::boxed::Box::new(::mc::Leaf(2))") + show("b") + HASSRC]),
    ("genericfrom", '#[derive(::thiserror::Error)] #[error("m")] pub struct @T<@P: ::core::fmt::Debug + ::std::error::Error + \'static>(#[from] ::std::boxed::Box<@P>);' + DBG % ("<@P: ::core::fmt::Debug + ::std::error::Error + 'static>", "<@P>"),
     ["let e: @T<::mc::Leaf> = ::core::convert::From::from(::std::boxed::Box::new(::mc::Leaf(2))); " + show("m") + SRCMSG % "leaf2"]),
    ("const", '#[derive(::thiserror::Error)] #[error("{0:?}")] pub struct @T<const @P: ::core::primitive::usize>([%s; { @P }]);' % U8 + DBG % ("<const @P: ::core::primitive::usize>", "<{ @P }>"), ["let e = @T([1, 2]); " + show("[1, 2]")]),
    ("lifetime", "#[derive(::thiserror::Error)] #[error(\"{0} {x}\", x = .0)] pub struct @T<'a>(&'a ::core::primitive::str);" + DBG % ("", "<'_>"), ['let e = @T("l"); ' + show("l l")]),
    ("self", '#[derive(::thiserror::Error)] #[error("{self:?}{}", self.0)] pub struct @T(%s);' % U8 + DBG % ("", ""), ["let e = @T(4); " + show("4")]),
]
# no field of these has a name of its own
KINDS_VARIABLES = [
    ("vtuple", '#[derive(::thiserror::Error)] pub enum @T { #[error("a")] @V, #[error("{} {}", .0, .1)] @V1(%s, %s), #[error("s")] @V3(#[source] ::mc::Leaf), #[error("o")] @V4(#[from] %s<::std::boxed::Box<::mc::Leaf>>), '
     '#[error(transparent)] @V5(#[from] ::mc::Node), #[error(fmt = show_it)] @V6(#[from] ::core::fmt::Error) }' % (U8, ST, OPT) +
     ' fn show_it(__x: &::core::fmt::Error, __f: &mut ::core::fmt::Formatter<\'_>) -> ::core::fmt::Result { ::core::fmt::Display::fmt(__x, __f) }' + D,
     ["let e = @T::@V; " + show("a") + NOSRC, 'let e = @T::@V1(1, "x"); ' + show("1 x"), "let e = @T::@V3(::mc::Leaf(1)); " + show("s") + SRCMSG % "leaf1",
      FROM % ("", "::std::boxed::Box::new(::mc::Leaf(2))") + show("o") + SRCMSG % "leaf2", "let e = @T::@V4(%s::None); " % OPT + NOSRC,
      FROM % ("", "::mc::Node(1, %s::Some(::mc::Leaf(7)))" % OPT) + show("node1[ NoneNone]") + SRCMSG % "leaf7", FROM % ("", "::core::fmt::Error") + HASSRC]),
]
BT = "::std::backtrace::Backtrace"
KINDS_NIGHTLY = [
    ("bt", '#[derive(::thiserror::Error)] #[error("m")] pub struct @T { backtrace: %s }' % BT + D, ["let e = @T { backtrace: %s::disabled() }; " % BT + 'c.bt_is("bt", &e, &[::mc::addr(&e.backtrace)], %s::None);' % OPT]),
    ("btopt", '#[derive(::thiserror::Error)] #[error("m")] pub struct @T { #[backtrace] b: %s<%s> }' % (OPT, BT) + D,
     ["let e = @T { b: %s::Some(%s::disabled()) }; " % (OPT, BT) + 'c.bt_is("bt", &e, &[::mc::addr(%s::unwrap(%s::as_ref(&e.b)))], %s::None);' % (OPT, OPT, OPT), "let e = @T { b: %s::None }; " % OPT + 'c.bt_is("bt", &e, &[0], %s::None);' % OPT]),
    ("btfrom", '#[derive(::thiserror::Error)] #[error("m")] pub struct @T { #[from] source: ::mc::Leaf, backtrace: %s }' % BT + D, [FROM % ("", "::mc::Leaf(1)") + 'c.bt_is("bt", &e, &[::mc::addr(&e.backtrace)], %s::None);' % OPT + SRCMSG % "leaf1"]),
    ("btfromarc", '#[derive(::thiserror::Error)] pub enum @T { #[error("m")] @V { #[from] source: ::mc::Leaf, #[backtrace] b: ::std::sync::Arc<%s> }, #[error("n")] @V1 { #[from] source: ::core::fmt::Error, #[backtrace] b: %s<%s> } }' % (BT, OPT, BT) + D,
     [FROM % ("", "::mc::Leaf(1)") + SRCMSG % "leaf1", FROM % ("", "::core::fmt::Error") + HASSRC]),
    ("btforward", '#[derive(::thiserror::Error)] pub enum @T { #[error("m")] @V(#[source] #[backtrace] ::mc::Ans), #[error("n")] @V1 { #[backtrace] source: %s<::mc::Ans> }, #[error("o")] @V2 { source: ::mc::Ans, backtrace: %s }, #[error(transparent)] @V3(#[from] #[backtrace] ::mc::Ans) }' % (OPT, BT) + D,
     ["let e = @T::@V(::mc::Ans::new(true)); " + show("m") + 'if let @T::@V(a) = &e { c.bt_is("fw", &e, &[::mc::addr(&a.bt)], %s::Some(true)); }' % OPT,
      "let e = @T::@V2 { source: ::mc::Ans::new(true), backtrace: %s::disabled() }; " % BT + 'if let @T::@V2 { source: a, .. } = &e { c.bt_is("fw2", &e, &[::mc::addr(&a.bt)], %s::Some(true)); }' % OPT,
      FROM % ("", "::mc::Ans::new(true)") + 'if let @T::@V3(a) = &e { c.bt_is("fw3", &e, &[::mc::addr(&a.bt)], %s::Some(true)); }' % OPT,
      "let e = @T::@V1 { source: %s::None }; " % OPT + show("n") + NOSRC]),
]

KINDS_VARIABLES_NIGHTLY = [
    ("vbt", '#[derive(::thiserror::Error)] #[error("m")] pub struct @T(%s, #[source] %s<::mc::Ans>);' % (BT, OPT) + D,
     ["let e = @T(%s::disabled(), %s::None); " % (BT, OPT) + 'c.bt_is("bt", &e, &[::mc::addr(&e.0)], %s::None);' % OPT,
      "let e = @T(%s::disabled(), %s::Some(::mc::Ans::new(true))); " % (BT, OPT) + 'c.bt_is("bt", &e, &[::mc::addr(&%s::unwrap(%s::as_ref(&e.1)).bt)], %s::Some(true));' % (OPT, OPT, OPT)]),
    ("vbtenum", '#[derive(::thiserror::Error)] pub enum @T { #[error("m")] @V(#[source] #[backtrace] ::mc::Ans), #[error("n")] @V1(#[from] #[backtrace] %s<::mc::Node>), #[error("o")] @V2(%s, #[source] ::mc::Ans), '
     '#[error("p")] @V3(#[from] ::mc::Leaf, #[backtrace] %s<%s>), #[error("q")] @V4(%s), #[error("r")] @V5, #[error("r")] @V6(#[backtrace] %s<%s>, #[source] %s<::mc::Ans>) }' % (OPT, BT, OPT, BT, BT, OPT, BT, OPT) + D,
     ["let e = @T::@V(::mc::Ans::new(true)); " + show("m") + 'if let @T::@V(a) = &e { c.bt_is("v", &e, &[::mc::addr(&a.bt)], %s::Some(true)); }' % OPT,
      "let e = @T::@V1(%s::None); " % OPT + NOSRC + 'c.bt_is("v1", &e, &[0], %s::None);' % OPT,
      "let e = @T::@V2(%s::disabled(), ::mc::Ans::new(true)); " % BT + 'if let @T::@V2(_, a) = &e { c.bt_is("v2", &e, &[::mc::addr(&a.bt)], %s::Some(true)); }' % OPT,
      FROM % ("", "::mc::Leaf(1)") + 'if let @T::@V3(_, %s::Some(a)) = &e { c.bt_is("v3", &e, &[::mc::addr(a)], %s::None); }' % (OPT, OPT),
      "let e = @T::@V4(%s::disabled()); " % BT + 'if let @T::@V4(a) = &e { c.bt_is("v4", &e, &[::mc::addr(a)], %s::None); }' % OPT,
      "let e = @T::@V6(%s::Some(%s::disabled()), %s::None); " % (OPT, BT, OPT) + 'if let @T::@V6(%s::Some(a), _) = &e { c.bt_is("v6", &e, &[::mc::addr(a)], %s::None); }' % (OPT, OPT)]),
]


def instance(kind, tname, vname, pname, i):
    key, d, tests = kind
    def sub(s):
        s = re.sub(r"@V(\d*)", lambda m: (vname if m.group(1) == "" else "Va" + m.group(1)), s)
        return s.replace("@T", tname).replace("@P", pname)
    return sub(d), sub("".join("{ %s }\n" % t for t in tests))


def module(kinds, shadow, place, npre):
    """Every kind of derive in a scope with the given items."""
    ds, ts = [], []
    for i, k in enumerate(kinds):
        d, t = instance(k, "K%d" % i, "V0", "T0", i)
        if "show_it" in d:
            d = d.replace("show_it", "show_it%d" % i)
        ds.append(d)
        ts.append(t)
    ds, ts = "\n".join(ds), "".join(ts)
    ismac = shadow.lstrip().startswith("macro_rules!")
    body = {
        "local": lambda: "%s\n%s\npub fn run(c: &mut ::mc::Ctx) {\n%s}" % (shadow, ds, ts),
        "glob": lambda: "pub mod defs { %s }\nuse self::defs::*;\n%s\npub fn run(c: &mut ::mc::Ctx) {\n%s}" % (shadow, ds, ts),
        "fn": lambda: "pub fn run(c: &mut ::mc::Ctx) {\n%s\n%s\n%s}" % (shadow, ds, ts),
        "outer": lambda: "%s\npub mod inner { use super::*;\n%s\npub fn run(c: &mut ::mc::Ctx) {\n%s} }\npub fn run(c: &mut ::mc::Ctx) { inner::run(c) }" % (shadow, ds, ts),
    }[place]()
    if npre:
        return "#[no_implicit_prelude] pub mod np {\n%s\n}\npub fn run(c: &mut ::mc::Ctx) { np::run(c) }" % body
    return body


def variable_module(kinds, shadow):
    """The tests stand in a module of their own, where their variables may have any name."""
    ds, ts, use = [], [], []
    for i, k in enumerate(kinds):
        d, t = instance(k, "K%d" % i, "V0", "T0", i)
        ds.append(d.replace("show_it", "show_it%d" % i))
        ts.append(t)
        use.append("K%d" % i)
    return "%s\n%s\npub mod tests { use super::{%s};\npub fn run(c: &mut ::mc::Ctx) {\n%s} }\npub use self::tests::run;" % (shadow, "\n".join(ds), ", ".join(use), "".join(ts))


def variables(c, kinds):
    def binds(k, name):
        # a field of that name is bound by its own name, as an argument may be
        return re.search(r"\b%s\s*[:=][^:=]" % name, k[1])
    def one(ch):
        how, text = ch(HOLDERS)
        n = ch(VARIABLES)
        ks = [k for k in kinds if not binds(k, n)]
        return Prog("variable/%s/%s" % (how, n), variable_module(ks, text % n))
    out = list(c.explore(one))
    def all_at_once(ch):
        how, text = ch(HOLDERS[:4])
        names = [n for n in VARIABLES + [chr(i) for i in range(97, 123)] if not any(binds(k, n) for k in kinds)]
        return Prog("variables/%s" % how, variable_module(kinds, "\n".join(text % n for n in sorted(set(names)))))
    return out + list(c.explore(all_at_once))


def position_names():
    return [n for n in TYPES + PRIMS + VALUES + ["Self_", "T", "E", "F", "K", "Source"] if n not in ("Self_",)]


def run(tier):
    c = Check("C15", "model_checking", tier)
    c.bases_parallel(("std", STABLE), ("std", NIGHTLY))
    sh = shadows()

    def progs(kinds, thorough):
        out = []

        def one(ch):
            name, key, d = ch(sh)
            place = ch(("local", "glob", "fn", "outer"))
            npre = ch((False, True))
            if d.startswith("macro_rules!") and place == "glob":
                return None
            if not thorough and place in ("glob", "outer") and npre:
                return None
            return Prog("%s/%s/%s" % (key, place, "noprelude" if npre else "prelude"), module(kinds, d, place, npre))
        out += c.explore(one)

        # everything at once: the first, second, ... definition of every name
        byname = {}
        for n, key, d in sh:
            byname.setdefault(n, []).append((key, d))
        width = max(len(v) for v in byname.values())

        def many(ch):
            k = ch(width)
            what = ch(("all", "types", "values", "macros", "methods"))
            place = ch(("local", "fn", "outer"))
            npre = ch((False, True))
            ds, used = [], set()
            for n, v in byname.items():
                key, d = v[k % len(v)]
                cls = "macros" if key.startswith("macro") else "methods" if key.startswith("method") else "types" if n in TYPES + PRIMS else "values"
                if what not in ("all", cls):
                    continue
                # one definition per name and namespace
                base = n.rstrip("!()")
                ns = ("m" if cls == "macros" else "x" if cls == "methods" else "t" if n in TYPES + PRIMS else "v", base)
                if n == "glob" or (ns[0] == "v" and base in TYPES):
                    continue
                if ns in used:
                    continue
                used.add(ns)
                ds.append(d)
            return Prog("many/%d/%s/%s/%s" % (k, what, place, npre), module(kinds, "\n".join(ds), place, npre))
        out += c.explore(many)

        # the names in the position of type, variant and parameter
        def pos(ch):
            n = ch(position_names())
            where = ch(("type", "variant", "param", "all"))
            npre = ch((False, True))
            body, runs = [], []
            for i, k in enumerate(kinds):
                t = n if where == "type" else "Er"
                v = n if where == "variant" else "V0"
                p = n if where == "param" else "T0"
                if where == "all":
                    t, v = n, n
                if p == n and (n == "Backtrace" or k[0] == "const" and n not in ("T", "E", "F", "K", "Source")):
                    continue        # Backtrace is recognised by its name; a constant argument named like a type is a type
                d, ts = instance(k, t, v, p, i)
                body.append("pub mod m%d {\n%s\npub fn run(c: &mut ::mc::Ctx) {\n%s}\n}" % (i, d, ts))
                runs.append("m%d::run(c);" % i)
            src = "\n".join(body) + "\npub fn run(c: &mut ::mc::Ctx) { %s }" % " ".join(runs)
            if npre:
                src = "#[no_implicit_prelude] pub mod np {\n%s\n}\npub fn run(c: &mut ::mc::Ctx) { np::run(c) }" % src
            return Prog("position/%s/%s/%s" % (where, n, npre), src)
        out += c.explore(pos)
        return out

    def pairs(kinds):
        # two names at a time
        names = {}
        for x in sh:
            names.setdefault(x[0], x)
        small = list(names.values())
        def two(ch):
            i = ch(len(small))
            j = ch(len(small))
            if i >= j or small[i][0].rstrip("!()") == small[j][0].rstrip("!()"):
                return None
            return Prog("pair/%s/%s" % (small[i][1], small[j][1]), module(kinds, small[i][2] + "\n" + small[j][2], "local", False))
        return list(c.explore(two))
    st = progs(KINDS, c.thorough)
    for e in ("2021",) + (("2018", "2024") if c.thorough else ()):
        c.run_progs(st, STABLE and "std", STABLE, edition=e, tag="s" + e, chunks=8)
    ek = KINDS + KINDS_VARIABLES if c.thorough else [k for k in KINDS if k[0] in ("named", "source", "from", "transparent", "enum", "enummsg", "genericenum")] + KINDS_VARIABLES
    c.run_progs(variables(c, ek), "std", STABLE, tag="vars", chunks=8)
    if c.thorough:
        c.run_progs(pairs(KINDS), "std", STABLE, tag="pairs", chunks=16)
    if not c.thorough:
        c.run_progs([p for p in st if p.id.startswith(("many", "position"))], "std", STABLE, edition="2018", tag="e18", chunks=8)
    c.run_progs(progs(KINDS_NIGHTLY, c.thorough), "std", NIGHTLY, head="#![feature(error_generic_member_access)]\n#![allow(warnings)]\n", tag="n", chunks=8)
    c.run_progs(variables(c, KINDS_NIGHTLY + KINDS_VARIABLES_NIGHTLY), "std", NIGHTLY, head="#![feature(error_generic_member_access)]\n#![allow(warnings)]\n", tag="nvars", chunks=8)
    return c.finish(shadowing_items=len(sh), kinds=len(KINDS) + len(KINDS_NIGHTLY))
