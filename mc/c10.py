"""C10: arbitrary attribute content never makes the derive panic, hang or expand to garbage."""
import itertools
import os
from .core import Check, Host, rust_str, log, clean_env, TARGET

US = "\x1f"
TOKENS = ['"a"', '"{0}"', '"{x}"', '"{x:?} {y}"', "r\"{\"", "transparent", "fmt", "=", ",", ".", "..", "...", "..=", "x", "0", "0.0", "1.", "1e3", "0u8", "0.0.0", "'a", "'c'", "()", "(.x)", "[.0]", "{.x}",
          "(. 0 . 0)", "|", "&", "::", "<", ">", "!", "if", "match", "return", "break", "const", "#", ";", "-", "_", "r#x", "self", "crate", "$", "?", "->", "=>", "as", "async", "b\"x\"", "\"x\"suf", "dyn", "for",
          "4294967296", ".0x1", "99999999999999999999", "1_0.2_0", "~", "@", "fn", "in", "unsafe", "loop", "let", "mut", "raw", "static", "yield", "=="]
CORE = ['"{0}{x}"', ",", ".", "..", "=", "x", "0", "0.0", "'a", "(.x)", "{}", "|", "&", "::", "<", ">", "!", "if", "match", "return", "break", "->", "as", "let", "for", "async", "-", "_", "_ =", "=="]
CHARS = ["{", "}", "0", "9", "42", ":", "x", "?", "r#", "_", "$", "*", ".", " ", "\\n", "é", "ß1", "\u0301", "\U0001f980", "<", "-", "+", "^", "#", "\"", "\\", "self", "p", "b", "crate", "Self", "\u2028", "99999999999", "=", "!", "'", "ſ"]
CORECH = ["{", "}", "0", "1", ":", "x", "?", "r#", "_", " ", "é", "\u0301", "\U0001f980", "p", "$", "self"]
# containers of an #[error(..)] attribute
ERR = ["#[error(@@)] struct S { x: u8, y: T, r#fn: u8 }", "#[error(@@)] struct S(u8, T);", "#[error(@@)] struct S;", "#[error(@@)] struct S { x: T }",
       "#[error(@@)] enum S<T> { A(u8), B { x: T }, #[error(\"c\")] C }", "enum S { #[error(\"a\")] A, #[error(@@)] B(u8) }", "enum S { #[error(@@)] A { x: u8 } }",
       "#[error(\"a\")] struct S { #[error(@@)] x: u8 }", "#[error(@@)] enum S {}", "#[error(@@)] union S { x: u8 }"]
OTHER = ["#[error(\"a\")] struct S { #[source@@] x: T }", "#[error(\"a\")] struct S(#[from@@] T);", "#[error(\"a\")] struct S(#[backtrace@@] T);", "#[error@@] struct S(T);",
         "#[error(\"a\")] #[source@@] struct S(T);", "enum S { #[error(\"a\")] #[from@@] A(u8) }"]
STR = ["#[error(@@)] struct S { x: u8, y: T, r#fn: u8, é: u8 }", "#[error(@@)] struct S(u8, T);", "#[error(@@)] enum S { A(u8), B { x: T, _x: u8 }, C }", "enum S { #[error(@@, x = 1, 2)] A(u8), #[error(@@)] B }".replace("#[error(@@)] B", "#[error(\"b\")] B"),
       "#[error(@@, .0)] struct S(u8);"]

# the inside of every kind of bracket that an argument can contain
HOLES = ["( @@ )", "[ @@ ]", "{ @@ }", "a ( @@ )", "a [ @@ ]", "a ! ( @@ )", "S { @@ }", "match a { @@ }", "if a { @@ }", "| a | { @@ }", "[ a ; @@ ]", "a . m :: < @@ > ( )", "a . m ( @@ ) . n", "async { @@ }", "a :: < @@ >", "x as [ @@ ; 2 ]", "x as ( @@ )", "x as fn ( @@ )",
         "A :: < { @@ } >", "match a { A ( @@ ) => b }", "if let [ @@ ] = a { }", "if let A { @@ } = a { } else { b }", "| A ( @@ ) , b | c", "# [ a ( @@ ) ] b", "<[ @@ ]>::a", "loop { @@ }", "match a { b if c [ @@ ] => d }", "( a , @@ )", "for ( @@ ) in [ b ] { }"]
INSIDE = ["x", ",", ";", "=", "=>", "..", ".", "0", "'a", ":", "<", ">", "|", "&", "!", "#", "(x x)", "[x, x]", "{x, x}", "let", "if", "return", "_", "match"]


def lines(tab, templates, max_, alpha):
    return ["%d\t%s\t%s" % (max_, t, US.join(alpha)) for t in templates]


def run(tier=None):
    c = Check("C10", "model_checking", tier)
    full, mini = Host("full"), Host("min")
    full.build()
    mini.build()
    th = c.thorough
    specs_t = lines(0, ERR[:2], 3, TOKENS)
    specs_t += lines(0, ERR[2:], 2 if not th else 3, TOKENS)
    specs_t += lines(0, OTHER, 2, ["(%s)" % t for t in ("", "x", "\"a\"", ",", ".", "= 1")] + ["= 1", "[x]", "{ x }", "= \"a\"", ":: y", "(a = 1, b(c))", "!", ""])
    # argument lists: after a message that exercises every placeholder
    specs_t += lines(0, ["#[error(\"{x} {0} {y:p}\", @@)] struct S { x: u8, y: T }", "enum S { #[error(\"{0} {1}\", @@)] A(u8, T), #[error(\"u\")] B }"], 4 if th else 3, CORE)
    specs_t += lines(0, ["#[error(\"{x} {0}\", x @@)] struct S(u8);"], 4 if th else 3, CORE)
    specs_t += lines(0, ["#[error(fmt = @@)] enum S { A(u8), B { x: T }, C }"], 3, ["x", "::", "<", ">", "T", "as", "self", "crate", "super", "(u8)", "->", "=", ",", "!", "r#x", "'a", "0", "{x}", "dyn", "&"])
    for h in HOLES:
        specs_t += lines(0, ["#[error(\"{x} {0}\", %s, y = 1)] struct S(u8);" % h], 3, INSIDE)
        if th:
            specs_t += lines(0, ["#[error(\"{x} {0}\", y = %s)] struct S { x: u8 }" % h, "enum S { #[error(\"{x} {0}\", %s)] A(u8), B }" % h], 3, INSIDE)
    specs_t += lines(0, ["enum S { #[error(fmt = %s)] A(u8) }" % f for f in ("a::<@@>", "<@@>::a", "a::<{@@}>::b", "<a as B<@@>>::c", "a(@@)")], 3, INSIDE)
    specs_s = lines(0, STR, 3, CHARS) + lines(0, STR[:3], 5 if th else 4, CORECH)
    if th:
        specs_s += lines(0, STR[:2], 4, CHARS)
    tot = [0, 0, 0, 0]
    for mode, specs in (("tokens", specs_t), ("strings", specs_s)):
        for host in (full, mini):
            for l in host.enumerate(mode, specs, c.work):
                f = l.split("\t")
                if f[0] == "DONE":
                    for i in range(4):
                        tot[i] += int(f[1 + i])
                elif f[0] == "BAD":
                    c.direct_violation("%s/%s" % (mode, f[1][:200]), f[2], [host.kind], "// the derive (syn %s) on this input: %s\n//@input %s\n" % (host.kind, f[2].replace("\n", " "), f[1]))
            log("[C10] %s/%s: %s, %d violations, %.1fs" % (mode, host.kind, tot, len(c.violations), __import__("time").time() - c.t0))
    c.count(tot[0])
    c.cov["traces_validated_against_impl"] += tot[0]
    c.cov["distinct_outcomes"] = tot[3]
    c.sample(specs_t[0][:200])
    c.sample(specs_s[0][:200])
    from . import c10b
    c10b.run(c, full)
    return c.finish(rule="every token sequence / every string up to the length given per template, over the stated alphabets, through the real derive in both syn configurations: no panic, terminates, parses as items, implements Error (and Display when rejected)",
                    inputs=tot[0], rejected=tot[1], not_rust=tot[2])
