"""C10, second part: a rejected type, used as an error in every ordinary way, causes no
rustc errors besides the derive's own."""
from .core import Prog, log, MachineryError

# container kinds: (name, generics, where, arguments to use it with, Self: 'static)
GENERICS = [("", "", ""), ("<T>", "", "<u8>"), ("<T: Copy>", "", "<u8>"), ("<T>", "where T: Copy + 'static", "<u8>"), ("<'a>", "", "<'static>"), ("<'a: 'a, T: 'a + ?Sized>", "", "<'static, str>"),
            ("<const N: usize>", "", "<3>"), ("<T = u8, const N: usize = 2>", "", "<u16, 3>"), ("<T, U>", "where T: Into<U>, U: Copy,", "<u8, u16>"), ("<T>", "where", "<u8>"), ("<T>", "where for<'x> T: Fn(&'x u8)", "<fn(&u8)>"),
            ("<#[allow(unused)] T>", "where Option<T>: Clone", "<u8>"), ("<T: ?Sized + Copy>", "where Box<T>: Sized", "<u8>"), ("<'a, 'b: 'a, T: Iterator<Item = &'a u8>>", "where T::Item: Clone, 'b: 'a", "<'static, 'static, std::slice::Iter<'static, u8>>")]
# offences: (attributes, body) of a struct; `P` is a phantom field type that uses the parameters
STRUCTS = [('#[error("a")] #[error("b")]', "{ p: P }"), ("#[error]", "{ p: P }"), ("#[error(transparent)]", "{ p: P, q: u8 }"), ("#[error(fmt = f)]", "(P);"), ("#[source] #[error(\"a\")]", "(P);"),
           ("#[error(\"a\")]", "(#[from] P, #[source] u8);"), ("#[error(\"a\")]", "{ #[error(\"x\")] p: P }"), ("#[error(\"{0}\", 1)]", "(P);"), ("#[error(\"a\")]", "(#[source] #[source] P);"),
           ("#[error(1)]", "{ p: P }"), ("#[error(transparent)]", "(#[source] P);"), ("#[error(transparent)] #[error(\"a\")]", "(P);"), ("#[error(\"a\")]", "{ #[from] p: P, q: u8, r: u8 }"), ("#[error(\"a\")]", "{ #[backtrace(x)] p: P }")]
ENUMS = [("", '#[error("a")] A, B(P)'), ("", '#[error("a")] A, #[error(transparent)] B(P, u8)'), ("", '#[error("a")] #[error("b")] A(P), #[error("c")] B'), ('#[error("a")]', "A(P), #[from] B"),
         ("#[error(transparent)]", "A(#[source] P)"), ("", '#[error("a")] A(#[from] P, #[source] u8)'), ('#[error(fmt = f)] #[error("a")]', "A(P)"), ("#[backtrace]", '#[error("a")] A(P)')]


def source(decl_attrs, kw, gen, where, args, body, derive="Debug, ::thiserror::Error", name="S"):
    params = gen
    # a field type that mentions every parameter
    parts = []
    for p in (gen[1:-1].split(",") if gen else []):
        p = p.strip()
        if p.startswith("#["):
            p = p.split("]", 1)[1].strip()
        if p.startswith("const"):
            continue
        if p.startswith("'"):
            parts.append("&%s u8" % p.split(":")[0].strip())
        else:
            n = p.split(":")[0].split("=")[0].strip()
            if n and n[0].isupper() and len(n) <= 2:
                parts.append("::core::marker::PhantomData<%s>" % n)
    ph = "(%s)" % "".join(x + "," for x in parts) if parts else "u16"
    import re
    b = re.sub(r"\bP\b", lambda m: ph, body)
    if kw == "enum":
        decl = "pub enum %s%s %s { %s }" % (name, params, where, b)
    elif b.endswith(";"):
        decl = "pub struct %s%s%s %s;" % (name, params, b[:-1], where)
    else:
        decl = "pub struct %s%s %s %s" % (name, params, where, b)
    full = "%s %s" % (decl_attrs, decl)
    ty = name + args
    use = """
use ::std::error::Error as StdError;
fn is_error<E: StdError + ?Sized>(_: &E) -> bool { true }
fn question(e: ::core::result::Result<(), %(t)s>) -> ::core::result::Result<(), ::std::boxed::Box<dyn StdError>> { e?; Ok(()) }
fn boxed(e: %(t)s) -> ::std::boxed::Box<dyn StdError> { ::std::boxed::Box::new(e) }
fn dynamic<'z>(e: &'z %(t)s) -> &'z (dyn StdError + 'static) { e }
fn all(e: &%(t)s) -> (String, String, bool, bool) { (e.to_string(), format!("{} {:>5} {:?}", e, e, e), e.source().is_some(), is_error(e)) }
fn io(e: &'static %(t)s) -> ::std::io::Error { ::std::io::Error::new(::std::io::ErrorKind::Other, Wrap(e)) }
#[derive(Debug, ::thiserror::Error)] #[error("{0}")] struct Wrap(#[source] &'static %(t)s);
#[derive(Debug, ::thiserror::Error)] enum Outer { #[error("outer {0}")] A(#[from] %(t)s), #[error(transparent)] B(::std::boxed::Box<%(t)s>) }
fn outer(e: ::core::result::Result<(), %(t)s>) -> ::core::result::Result<(), Outer> { e?; Ok(()) }
""" % {"t": ty}
    return full, "#[derive(%s)] %s\n%s" % (derive, full, use)


def expected(messages):
    return [m for m in messages.split(" | ")]


def run(c, host):
    progs, inputs = [], []
    for gi, (g, w, a) in enumerate(GENERICS):
        for k, (at, body) in enumerate(STRUCTS):
            full, src = source(at, "struct", g, w, a, body)
            progs.append(Prog("reject/struct%d/g%d" % (k, gi), src))
            inputs.append(full)
        for k, (at, body) in enumerate(ENUMS):
            full, src = source(at, "enum", g, w, a, body)
            progs.append(Prog("reject/enum%d/g%d" % (k, gi), src))
            inputs.append(full)
    # names that the fallback could clash with
    for n in ("Error", "Display", "Debug", "Result", "Formatter", "r#type", "Box", "core", "std", "thiserror", "T"):
        for at, body in STRUCTS[:3]:
            for g, w, a in GENERICS[:2 if n != "T" else 1]:
                full, src = source(at, "struct", g, w, a, body, name=n)
                progs.append(Prog("reject/name %s/%s/%s" % (n, at, g), src))
                inputs.append(full)
    check(c, host, progs, inputs, "fallback")


def check(c, host, progs, inputs, tag, kind="std"):
    verdicts = host.judge(inputs)
    c.count(len(progs))
    for p, inp, v, d in zip(progs, inputs, verdicts, c.diagnose(progs, kind, tag=tag)):
        errs = [m for l, m, _ in d if l.startswith("error")]
        replay = "// %s\n%s\n" % (inp, p.src)
        if v[0] != "E":
            raise MachineryError("not rejected: %s: %r" % (inp, v))
        own = {m.split("\\n")[0] for m in v[3].replace('\\"', '"').replace("\\'", "'").split(" | ")}
        if not errs:
            c.direct_violation(p.id, "rustc reports no error for a rejected input", [], replay)
        bad = [x for x in d if x[0].startswith("error") and x[1].split("\n")[0] not in own]
        if bad:
            c.direct_violation(p.id, "secondary errors", ["%s (at: %s)" % (m, l) for _, m, l in bad][:4], replay)
