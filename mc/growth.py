"""Families of derive inputs that grow with a number, shared by C23 and C24."""


def J(n, f, s=", "):
    return s.join(f(i) for i in range(n))


def nest(n, a, b, c):
    return a * n + b + c * n


def arg(text, msg='"{}"', fields="(u8);"):
    return "#[error(%s, %s, y = 1)] struct S%s" % (msg, text, fields)


ITEMS = {
    "named fields shown": lambda n: '#[error("%s")] struct S { %s }' % (J(n, lambda i: "{f%d}" % i, ""), J(n, lambda i: "f%d: u8" % i)),
    "tuple fields shown": lambda n: '#[error("%s")] struct S(%s);' % (J(n, lambda i: "{%d}" % i, ""), J(n, lambda i: "u8")),
    "fields not shown": lambda n: '#[error("m")] struct S { %s }' % J(n, lambda i: "f%d: u8" % i),
    "one placeholder often": lambda n: '#[error("%s")] struct S(u8);' % ("{0}" * n),
    "one parameter shown often": lambda n: '#[error("%s")] struct S<T>(T);' % ("{0}{0:?}" * n),
    "shorthand arguments": lambda n: '#[error("%s", %s)] struct S(u8);' % ("{}" * n, J(n, lambda i: ".0")),
    "named arguments": lambda n: '#[error("m", %s)] struct S { x: u8 }' % J(n, lambda i: "a%d = .x" % i),
    "argument expressions": lambda n: '#[error("m", %s)] struct S { x: u8 }' % J(n, lambda i: "a%d + if b { .x } else { c }" % i),
    "variants": lambda n: 'enum S { %s }' % J(n, lambda i: '#[error("v {x}")] V%d { x: u8 }' % i),
    "variants inheriting": lambda n: '#[error("m {0}")] enum S { %s }' % J(n, lambda i: 'V%d(u8)' % i),
    "generic variants inheriting": lambda n: '#[error("m {0}")] enum S<T> { %s }' % J(n, lambda i: 'V%d(T)' % i),
    "from variants": lambda n: '#[error("m")] enum S { %s }' % J(n, lambda i: 'V%d(#[from] E%d)' % (i, i)),
    "source and backtrace variants": lambda n: '#[error("m")] enum S { %s }' % J(n, lambda i: 'V%d { source: E%d, backtrace: Backtrace }' % (i, i)),
    "forwarding variants": lambda n: '#[error("m")] enum S { %s }' % J(n, lambda i: 'V%d { #[source] #[backtrace] e: E%d, x: u8 }' % (i, i)),
    "transparent variants": lambda n: 'enum S { %s }' % J(n, lambda i: '#[error(transparent)] V%d(#[from] E%d)' % (i, i)),
    "fmt variants": lambda n: '#[error(fmt = f)] enum S { %s }' % J(n, lambda i: 'V%d(E, F)' % i),
    "generic source variants": lambda n: '#[error("m")] enum S<T> { %s }' % J(n, lambda i: 'V%d(#[source] E%d<T>)' % (i, i)),
    "parameters": lambda n: '#[error("%s")] struct S<%s>(%s);' % (J(n, lambda i: "{%d}" % i, ""), J(n, lambda i: "T%d: A + B" % i), J(n, lambda i: "T%d" % i)),
    "lifetimes": lambda n: '#[error("m")] struct S<%s>(%s);' % (J(n, lambda i: "'a%d" % i), J(n, lambda i: "&'a%d u8" % i)),
    "constants": lambda n: '#[error("m")] struct S<%s>(%s);' % (J(n, lambda i: "const N%d: usize" % i), J(n, lambda i: "[u8; N%d]" % i)),
    "where clause": lambda n: '#[error("{0}")] struct S<T>(T) where %s;' % J(n, lambda i: "A%d<T>: B" % i),
    "foreign attributes": lambda n: '%s #[error("m")] struct S;' % J(n, lambda i: '#[doc = "x"]', " "),
    "offences": lambda n: 'enum S { %s }' % J(n, lambda i: '#[error("v")] #[error("w")] V%d(#[from] #[source] #[source] A)' % i),
    "repeated attributes": lambda n: '%s struct S;' % J(n, lambda i: '#[error("m")]', " "),
    "escaped braces": lambda n: '#[error("%s")] struct S;' % ("{{}}" * n),
    "long message": lambda n: '#[error("%s")] struct S(u8);' % ("é{0}" * n),
    "open braces": lambda n: '#[error("%s")] struct S(u8);' % ("{0" * n),
    "long names": lambda n: '#[error("{%s}")] struct S { %s: u8 }' % ("n" * n, "n" * n),
    "long path type": lambda n: '#[error("{0}")] struct S<T>(%sA<T>);' % ("a::" * n),
    "fmt path": lambda n: 'enum S { #[error(fmt = a%s)] A(u8) }' % ("::b::<C<D>, E>" * n),
    "bad commas": lambda n: '#[error("{}" %s)] struct S(u8);' % (",, " * n),
    "bad tokens": lambda n: '#[error("{}", %s)] struct S(u8);' % ("=> @ " * n),
}
# what a type can be wrapped in: prefix, suffix
TYPES = {
    "Option": ("Option<", ">"), "path": ("a::Box<A, ", ">"), "ref": ("&'a ", ""), "mut": ("&'a mut (", ")"), "tuple": ("(", ",)"), "slice": ("[", "]"), "array": ("[", "; 2]"), "fn": ("fn(A) -> ", ""), "fnarg": ("fn(", ")"),
    "qself": ("<", " as A>::B"), "assoc": ("A<B = ", ">"), "dyn": ("Box<dyn A<", ">>"), "sugar": ("Fn(", ")"), "ret": ("Fn(A) -> ", ""), "ptr": ("*const ", ""), "paren": ("(", ")"), "const": ("A<{ 1 }, ", ">"), "impl": ("A<B: C, ", ">"),
    "macro": ("m!(", ")"), "hrtb": ("for<'x> fn(&'x ", ")"), "bound": ("dyn for<'x> A<", ">"),
}
# what an expression can be wrapped in; some leave something open, which is invalid Rust the scanner has to survive
EXPRS = {
    "paren": ("(", ")"), "turbofish": ("a::<", ">"), "half turbofish": ("a::<", ""), "cast": ("x as a<", ">"), "half cast": ("x as a < ", ""), "qself": ("<", " as A>::B"), "less": ("a < ", ""), "angle": ("< ", ""), "shift": ("a << ", ""), "closure": ("|a| ", ""),
    "typed closure": ("|a: A<B, C>| ", ""), "returning closure": ("|| -> A<B, C> { ", " }"), "pipe": ("| ", ""), "or": ("a || ", ""), "unary": ("- ! * & ", ""), "if": ("if a { ", " } else { c }"), "else if": ("if a { b } else ", ""), "if if": ("if ", " { b } else { c }"), "match": ("match ", " { }"),
    "arm": ("match a { b => ", " }"), "if let": ("if let A = ", " { b } else { c }"), "for": ("for a in ", " { b }"), "hrtb closure": ("for<'a> |x| ", ""), "return": ("return ", ""), "break": ("break 'a ", ""), "continue": ("continue 'a ", ""), "let": ("let A = ", ""), "label": ("'a: loop { ", " }"), "range": (".. ", ""),
    "index": ("a[", "]"), "call": (".0.m::<A, B>(", ")"), "struct": ("S { x: ", " }"), "attr": ("#[a] ", ""), "macro": ("a!(", ")"), "try": ("", "?"), "await": ("", ".await.0.1"), "field": ("", ".x"), "method": ("", ".m::<A<B>, C>(.0)"), "as": ("", " as A<B>"), "dyn": ("", " as &dyn A<B> + C"), "path": ("a::", ""),
    "async": ("async move { ", " }"), "unsafe": ("unsafe { ", " }"), "raw": ("&raw const ", ""), "assign": ("a = ", ""), "comma": ("a, ", ""), "named": ("a = 1, b = ", ""), "tuple": ("(.0, ", ")"), "array": ("[", "; 2]"), "open pattern": ("for A { x, .. } in ", ""), "while": ("while let A(b) = ", " { }"), "semi": ("{ a; ", " }"), "const": ("const { ", " }"),
}
