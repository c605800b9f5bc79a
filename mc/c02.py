"""C02: extra format arguments and the .field shorthand."""
import itertools
import re
from .core import Check, Prog, rust_str, NIGHTLY
from .c01 import DBG

HEADER = """use ::thiserror::Error; use ::mc::P;
#[derive(Debug, Clone)] pub struct S { pub x: i64, pub t: (i64, (i64, i64)), pub n: Option<Box<S>> }
impl S { pub fn m(&self) -> i64 { self.x * 3 } pub fn id(&self) -> &S { self } pub fn add(&self, y: i64) -> i64 { self.x + y } pub fn a(&self) -> i64 { 77 } }
pub fn s0() -> S { S { x: 40, t: (41, (42, 43)), n: None } }
pub fn g(p: i64, q: i64) -> i64 { p * 100 + q }
pub fn r(p: &i64) -> i64 { *p + 9000 }
pub struct Q<'a> { pub u: &'a i64, pub w: &'a i64 }
impl<'a> Q<'a> { pub fn a(&self) -> i64 { *self.u * 10 + *self.w } pub fn new<T>(u: &'a i64, w: &'a i64) -> Self { Q { u, w } } }
pub struct K<T>(pub ::core::marker::PhantomData<T>, pub i64);
pub const fn kk<T>() -> K<T> { K(::core::marker::PhantomData, 5) }
pub trait Tr { fn tr(&self) -> i64; const C: i64 = 15; }
impl Tr for i64 { fn tr(&self) -> i64 { *self ^ 0x55 } }
"""
# name, type, value
FIELDS = [("a", "i64", "3"), ("b", "i64", "5"), ("s", "S", "S { x: 7, t: (1, (2, 4)), n: Some(Box::new(s0())) }"),
          ("t", "(i64, (i64, (i64, i64)))", "(11, (12, (13, 14)))"), ("v", "[i64; 3]", "[21, 22, 23]"), ("o", "Option<i64>", "Some(31)"), ("n", "usize", "1"), ("f", "fn(i64) -> i64", "|z| z + 1")]
NAMES = [f[0] for f in FIELDS]

# i64 leaves; @x marks field x
LEAVES = ["*@a", "@s.x", "@s.m()", "@t.1.0", "@v[1]", "7", "@t.0", "@s.id().t.1.1", "@t.1.1.1", "r(@a)", "@s.t.0", "@a.pow(2)", "(@f)(2)", "@o.unwrap()", "@v[*@n]", "(@v.len() as i64)", "@a.tr()", "@s. m()", "@t. 1. 0", "@t . 1 . 1.0"]
# i64-valued templates; $ marks an i64 hole, % a bool hole
TEMPL = ["($)", "{ $ }", "{ { ($) } }", "-($)", "!$", "*&$", "$ + $", "$ - $", "$ * $", "$ / ($ | 1)", "$ % ($ | 1)", "$ & $", "$ | $", "$ ^ $", "$ << ($ & 3)", "$ >> ($ & 3)",
         "g($, $)", "g($, $,)", "($, $).1", "($, ($, $)).1.1", "[$, $][0]", "[$; 2][1]", "vec![$, $][1]", "::std::cmp::max($, $)", "<i64>::max($, $)", "<i64 as Ord>::min($, $)", "i64::from($)",
         "$ as i32 as i64", "($ as f64 / 2.0).floor() as i64", "{ let q = $; q + $ }", "{ let q; q = $; q }", "{ let (p, q) = ($, $); p - q }", "{ let mut q = $; q += $; q -= $; q *= $; q }",
         "{ $; $ }", "if % { $ } else { $ }", "if % { $ } else if % { $ } else { $ }", "match $ { 3 => $, 4..=7 => $, _ => $ }", "match $ { q if % => $, _ => { $ } }",
         "(|z: i64| z + $)($)", "(|| $)()", "(move || $)()", "(|z: i64| -> i64 { $ + z })($)", "loop { break $ }", "'l: loop { break 'l $ }", "'l: { if % { break 'l $ }; $ }", "{ let mut k = 0; while % && k < i64::abs($) % 5 { k += 1 } k }",
         "{ let mut k = 0; for q in [$, $] { k += q } k }", "{ let mut k = 0; for q in $.. $ { k += q } k }", "{ let mut k = 0; for q in $..= $ { k ^= q } k }", "($.. $ + 3).sum::<i64>()", "(0..).take(3).sum::<i64>() + $",
         "{ fn h(z: i64) -> i64 { z } h($) }", "{ struct H { y: i64 } H { y: $ }.y }", "(S { x: $, ..s0() }).m()", "S { x: $, t: ($, ($, $)), n: None }.t.1.0", "Some($).unwrap()", "Some($).map(|q| q + $).unwrap_or($)",
         "if let Some(q) = Some($) { q } else { $ }", "{ let Some(q) = Some($) else { panic!() }; q }", "matches!($, 3 | 7) as i64", "(%) as i64", "(!(%)) as i64", "unsafe { $ }", "::core::convert::identity::<i64>($)", "(|z| z)::<>($)",
         "kk::<u8>().1 + $", "Some::<i64>($).unwrap()", "Vec::<i64>::from([$, $])[1]", "($).min($)", "{ macro_rules! mm { ($$z:expr) => { $$z + 1 } } mm!($) }", "1.5f64.max(0.5) as i64 + $", "{ const Z: i64 = 4; Z + $ }", "(&[$, $, $][..])[2]", "<_>::from($)", "i64::tr(&$)", "<i64 as Tr>::C + $"]
TEMPL = [t for t in TEMPL if "::<>" not in t and "<_>::from" not in t]
BOOLS = ["*@a == 3", "@a == @b", "*@a < *@b", "@a > @b", "*@a >= 3", "@b <= @a", "*@a != 4 && @b != @a", "@a == @b || @o.is_some()", "!@o.is_none()", "matches!(@o, Some(31))", "@o.map_or(false, |z| z > *@a)", "true", "(@s.x) < @s.m()"]
# holes that take the reference itself: & marks a field of type i64 as operand
REFS = ["r(&)", "Q { u: &, w: & }.a()", "(Q { w: &, u: & }).a()", "{ let q = &; *q }", "*if % { & } else { & }", "*match & { 3 => &, _ => & }", "*{ & }", "*(&)", "*[&, &][1]", "*(&, &).0", "*loop { break & }", "*'l: { break 'l & }", "*'l: loop { break 'l & }",
        "(|q: &i64| *q)(&)", "*(|| &)()", "*(move || &)()", "*{ let mut q = &; q = &; q }", "{ for q in [&] { let _ = q; } 1 }", "{ let (p, q) = (&, &); p * q }", "& + &", "& - &", "& * &", "& / &", "& % &", "& & &", "& | &", "& ^ &", "-&", "!&", "& << 1", "1 + &",
        "(& < &) as i64", "(& > &) as i64", "(& == &) as i64", "(& != &) as i64", "(& <= &) as i64", "(& >= &) as i64", "**&&", "*Some(&).unwrap()", "*Some::<&i64>(&).unwrap()", "*::core::convert::identity(&)", "Q::new::<u8>(&, &).a()", "*std::cmp::max(&, &)", "&.tr()", "i64::tr(&)", "<i64 as Tr>::tr(&)",
        "*(&.. &).start", "*(&.. &).end", "**(&..= &).end()", "*(.. &).end", "*(&..).start", "*(..= &).end", "*vec![&, &][0]", "matches!(&, 3) as i64", "match (&, &) { (3, q) | (q, 3) => *q, (p, _) => *p }", "if let 3 = & { 1 } else { 2 }", "{ let mut q = &; while q == & { q = &5; } *q }", "*{ 1; & }", "(& as *const i64 == & as *const i64) as i64",
        "{ let q: &i64 = &; *q }", "{ let q = [&; 2]; *q[1] }", "K::<u8>(::core::marker::PhantomData, *&).1", "*&mut *&mut { *& }", "i64::pow(*&, 2)", "*unsafe { & }", "{ let k = |q: &i64, p: &i64| q + p; k(&, &) }", "&.clone()", "&.max(&).clone()", "**Box::new(&)", "unsafe { *&raw const *& }", "unsafe { **&raw const & }"]
TURBO = ["{ #[allow(non_camel_case_types)] struct N; impl N { fn m(&self) -> i64 { 3 } } N.m() + $", "Vec::<i64>::new.clone()().len() as i64 + $", "s0.clone()().x + $", "kk::<u8>.clone()().1 + $", "({ let f = kk::<Vec<u8>>.clone(); f().1 }) + $", "i64::tr.clone()(&$)", "<i64 as Tr>::tr.clone()(&$)"]
TURBO = TURBO[1:]


def rend(expr, style):
    """style: named | tuple | oracle"""
    def f(m):
        n = m.group(1)
        if style == "named":
            return "." + n
        if style == "tuple":
            return ".%d" % NAMES.index(n)
        return "f_" + n
    return re.sub(r"@([a-z])\b", f, expr).replace("$$", "$")


def fill(t, holes, bools):
    """Replace the i64 holes of t by holes[i] and the bool holes by bools[i]."""
    out, hi, bi, k = [], 0, 0, 0
    while k < len(t):
        if t.startswith("$$", k):
            out.append("$$")
            k += 2
            continue
        if t[k] == "$":
            h = holes[hi % len(holes)]
            # keep precedence the template's: parenthesise anything that is not a leaf
            out.append(h)
            hi += 1
        elif t[k] == "%" and not t.startswith("% (", k) and not t.startswith("% 5", k):
            out.append(bools[bi % len(bools)])
            bi += 1
        else:
            out.append(t[k])
        k += 1
    return "".join(out)


def nholes(t):
    return t.replace("$$", "").count("$")


def paren(e):
    return e if e in LEAVES else "(" + e + ")"


def prog(id, exprs):
    """One program, every expression as an argument of a named and of a tuple variant."""
    n = len(exprs)
    o = [HEADER, "#[derive(Error)] pub enum E {\n"]
    for i, e in enumerate(exprs):
        o.append('#[error("<{}>", %s)] N%d { %s },\n' % (rend(e, "named"), i, ", ".join("%s: %s" % f[:2] for f in FIELDS)))
        o.append('#[error("<{q}>", q = %s)] T%d(%s),\n' % (rend(e, "tuple"), i, ", ".join(f[1] for f in FIELDS)))
    o.append("}\n" + DBG % "E")
    o.append("fn want(i: usize, %s) -> i64 { match i {\n" % ", ".join("f_%s: &%s" % f[:2] for f in FIELDS))
    for i, e in enumerate(exprs):
        o.append("%d => { %s }\n" % (i, rend(e, "oracle")))
    o.append("_ => unreachable!() } }\n")
    o.append("pub fn run(c: &mut ::mc::Ctx) {\n%s\nlet tag: &[&str] = &[%s];\nfor i in 0..%d { let (n, t) = match i {\n" % (
        "".join("let v_%s: %s = %s;" % f for f in FIELDS), ", ".join(rust_str(rend(e, "named")) for e in exprs), n))
    for i in range(n):
        o.append("%d => (E::N%d { %s }, E::T%d(%s)),\n" % (i, i, ", ".join("%s: v_%s.clone()" % (f[0], f[0]) for f in FIELDS), i, ", ".join("v_%s.clone()" % f[0] for f in FIELDS)))
    o.append("_ => unreachable!() };\nlet w = want(i, %s);\nc.eqf(tag[i], format_args!(\"{}\", n), format_args!(\"<{}>\", w)); c.eqf(tag[i], format_args!(\"{}\", t), format_args!(\"<{}>\", w)); } }" % ", ".join("&v_" + f[0] for f in FIELDS))
    return Prog(id, "".join(o), 2 * n)


def expressions(c):
    seen = set()

    def d1(ch):
        t = ch(TEMPL + TURBO)
        k = ch(max(nholes(t), 1))
        leaf = ch(LEAVES)
        hs = ["*@b", "@s.t.1.0", "2", "@t.1.1.0"]
        holes = [hs[(i + k) % 4] for i in range(max(nholes(t), 1))]
        holes[k] = leaf
        b = BOOLS[(LEAVES.index(leaf) + k) % len(BOOLS)]
        return fill(t, holes, [b, BOOLS[(BOOLS.index(b) + 5) % len(BOOLS)]])

    def bools(ch):
        t = ch([t for t in TEMPL if "%" in fill(t, ["1"] * 9, ["%"])])
        b = ch(BOOLS)
        return fill(t, ["*@a", "@s.x"], [b, BOOLS[0]])

    def refs(ch):
        t = ch(REFS)
        marks = [m.start() for m in re.finditer(r"(?<![&])&(?![&a-z\s\[*])(?!raw)", t)] if False else None
        fs = ch([("@a", "@b"), ("@b", "@a"), ("@a", "@a"), ("(&@t.0)", "(&@s.x)"), ("(&@s.t.1.0)", "@b")])
        if "**&raw" in t and fs[0][0] == "(":
            return None
        return refill(t, fs, ch(BOOLS[:4]) if "%" in t and "% &" not in t else BOOLS[0])

    def d2(ch):
        t = ch(TEMPL)
        n = nholes(t)
        k = ch(n) if n else 0
        u = ch(TEMPL)
        leaves = ["*@a", "@t.1.0", "@s.m()"]
        inner = paren(fill(u, leaves, BOOLS[:3]))
        holes = ["@s.x", "*@b", "@v[2]"] * 3
        holes[k] = inner
        return fill(t, holes[:max(n, 1)], BOOLS[1:4])

    out = []
    for f in (d1, bools, refs) + ((d2,) if c.thorough else ()):
        for e in c.explore(f):
            if e not in seen:
                seen.add(e)
                out.append(e)
    if not c.thorough:
        # depth 2 with every pair of templates, the inner one in the first hole
        for e in c.explore(lambda ch: (lambda t, u: fill(t, [paren(fill(u, ["*@a", "@t.1.0", "@s.m()"], BOOLS[:3])), "*@b", "@v[2]"], BOOLS[1:4]))(ch(TEMPL[::4]), ch(TEMPL))):
            if e not in seen:
                seen.add(e)
                out.append(e)
    return out


def refill(t, fs, b):
    """In REFS an & that is an operand (not an operator) stands for a field reference."""
    out, k, i = [], 0, 0
    operand = True
    while k < len(t):
        ch = t[k]
        if ch == "&" and operand:
            rest = t[k + 1:]
            # borrow operators proper: &i64 types, &5, &mut, &raw, &&x, &*x
            if re.match(r"(i64|5|mut |raw )", rest) or (rest.startswith("&") and operand):
                out.append("&")
                k += 1
                if re.match(r"(i64|5|mut |raw )", rest):
                    m = re.match(r"(i64|5|mut |raw const )", rest) or re.match(r"raw ", rest)
                    out.append(m.group(0))
                    k += len(m.group(0))
                    operand = m.group(0) not in ("i64", "5")
                continue
            out.append(fs[i % len(fs)])
            i += 1
            operand = False
        elif ch == "%" and operand:
            out.append(b)
            operand = False
        else:
            out.append(ch)
            if ch.isalnum() or ch in ")]}_":
                operand = False
                m = re.match(r"[A-Za-z0-9_']+", t[k:])
                w = m.group(0) if m else ch
                if ch not in ")]}":
                    out[-1] = w
                    k += len(w) - 1
                if w in ("break", "if", "match", "in", "while", "return", "mut", "else", "move"):
                    operand = True
                if k >= 3 and t[:k + 1].endswith("break 'l"):
                    operand = True
            elif ch == "'":
                m = re.match(r"'[a-z]+", t[k:])
                out[-1] = m.group(0)
                k += len(m.group(0)) - 1
                operand = True
            elif not ch.isspace():
                operand = True
        k += 1
    return "".join(out)


# ---- argument lists ---------------------------------------------------------
def arglists(c):
    """Messages x argument lists; the model resolves every placeholder."""
    progs = []

    def model(kind):
        fields = {"named": ["x", "y"], "tuple": ["0", "1"], "unit": []}[kind]

        def f(ch):
            npos = ch([0, 1, 2])
            named = ch([(), ("k",), ("x",), ("k", "x"), ("__field_x",), ("_0", "k"), ("__display_x", "y")])
            trailing = ch.flag()
            if trailing and not (npos or named) and False:
                return None
            # message tokens
            toks = ["{}", "{:?}", "{k}", "{x}", "{y:?}", "{x:p}", "{0}", "{1:x}", "{__field_x}", "{_0}", "{__display_x}", "{0:k$}"]
            n = ch([1, 2, 3] if c.thorough else [1, 2])
            ts = [ch(toks) for _ in range(n)]
            return resolve(kind, fields, npos, named, trailing, ts)
        return f

    for kind in ("named", "tuple", "unit"):
        cases = [r for r in c.explore(model(kind)) if r]
        for i in range(0, len(cases), 60):
            progs.append(arg_prog("args/%s/%d" % (kind, i), kind, cases[i:i + 60]))
    return progs


def resolve(kind, fields, npos, named, trailing, toks):
    """-> (message, arg source, oracle message, oracle args) or None if std rejects it."""
    nargs = npos + len(named)
    used, implicit, out, orc, fused = set(), 0, [], [], []
    for t in toks:
        body = t[1:-1]
        arg, _, spec = body.partition(":")
        spec = ":" + spec if ":" in body else ""
        if "k$" in spec:
            return None
        if arg == "":
            if implicit >= npos:      # leave named arguments to their names
                return None
            used.add(implicit)
            implicit += 1
            out.append(t)
            orc.append(t)
        elif arg.isdigit():
            if kind == "tuple":
                if npos:
                    return None       # ambiguous: rejected (C09)
                fused.append(int(arg))
                out.append(t)
                orc.append("{zz%s%s}" % (arg, spec))
            else:
                if int(arg) >= npos:
                    return None
                used.add(int(arg))
                out.append(t)
                orc.append(t)
        elif arg in named:
            used.add(npos + named.index(arg))
            out.append(t)
            orc.append(t)
        elif arg in fields:
            i = fields.index(arg)
            fused.append(i)
            out.append(t)
            orc.append("{zz%d%s}" % (i, spec))
        else:
            return None
    if used != set(range(nargs)):
        return None
    args = ["lg(%d)" % i for i in range(npos)] + ["%s = lg(%d)" % (n, npos + i) for i, n in enumerate(named)]
    a = "".join(", " + x for x in args)
    o = a + "".join(", zz%d = %sf%d" % (i, "*", i) for i in sorted(set(fused)))
    return (" ".join(out), a + ("," if trailing else ""), " ".join(orc), o, nargs)


ARGHEAD = """use ::thiserror::Error; use ::mc::P;
thread_local!(static LOG: ::std::cell::RefCell<Vec<u8>> = const { ::std::cell::RefCell::new(Vec::new()) });
pub fn lg(i: u8) -> P { LOG.with(|l| l.borrow_mut().push(i)); P(100 + i) }
fn take() -> Vec<u8> { LOG.with(|l| ::std::mem::take(&mut *l.borrow_mut())) }
"""


def arg_prog(id, kind, cases):
    decl = {"named": "{ x: P, y: P }", "tuple": "(P, P)", "unit": ""}[kind]
    val = {"named": "{ x: P(1), y: P(2) }", "tuple": "(P(1), P(2))", "unit": ""}[kind]
    o = [ARGHEAD, "#[derive(Error)] pub enum E {\n"]
    for i, (m, a, om, oa, n) in enumerate(cases):
        o.append("#[error(%s%s)] V%d%s,\n" % (rust_str(m), a, i, decl))
    o.append("}\n" + DBG % "E")
    for i, (m, a, om, oa, n) in enumerate(cases[:12]):
        o.append("#[derive(Error)] #[error(%s%s)] pub struct S%d%s%s\n" % (rust_str(m), a, i, decl, "" if kind == "named" else ";") + DBG % ("S%d" % i))
    o.append("pub fn run(c: &mut ::mc::Ctx) { let (f0, f1) = (&P(1), &P(2));\n")
    for i, (m, a, om, oa, n) in enumerate(cases):
        for e in ["E::V%d" % i] + (["S%d" % i] if i < 12 else []):
            o.append("{ let w = format!(%s%s); take(); let e = %s%s; let g = e.to_string(); c.eq(%s, &g, &w); c.ok(%s, take() == [%s], \"each argument is evaluated once, in order\"); }\n" % (
                rust_str(om), oa, e, val, rust_str(m + a), rust_str(m + a), ", ".join("%d" % k for k in range(n))))
    o.append("}")
    return Prog(id, "".join(o), len(cases))


def widths():
    """Width and precision taken from arguments."""
    cases = []
    for m, a, om, oa in [
        ("{x:>w$}", ", w = 6", "{f:>w$}", ", f = 5, w = 6"), ("{x:>w$}", ", w = *.y", "{f:>w$}", ", f = 5, w = 7usize"), ("{x:>0$}", ", *.y", "{f:>0$}", ", 7, f = 5"),
        ("{:>1$} {x}", ", .x, 4", "{:>1$} {f}", ", 5, 4, f = 5"), ("{:.*}", ", 2, 1.23456", "{:.*}", ", 2, 1.23456"), ("{:.*} {x:?}", ", *.y, 1.23456", "{:.*} {f:?}", ", 7, 1.23456, f = 5"),
        ("{x:0>w$.p$}", ", w = 8, p = 1", "{f:0>w$.p$}", ", f = 5, w = 8, p = 1"), ("{z:>w$}{x}", ", z = .x, w = *.y", "{z:>w$}{f}", ", z = 5, w = 7, f = 5"), ("{0:1$}", ", .x, .y.clone()", "{0:1$}", ", 5, 7"),
        ("{0} {0:?} {0:>4}", ", .x", "{0} {0:?} {0:>4}", ", 5"), ("{x}{x:?}{x:>3}{x}", "", "{0}{0:?}{0:>3}{0}", ", 5"), ("{x}", ", x = .y", "{f}", ", f = 7"), ("{x} {y}", ", x = .y, y = .x", "{0} {1}", ", 7, 5"),
        ("{y:>x$}", ", x = 9", "{f:>x$}", ", f = 7, x = 9"), ("{}", ", { let y = .y; *y + 1 }", "{}", ", 8"), ("{}", ", [1].iter().map(|y| y + .x).sum::<i64>()", "{}", ", 6"),
    ]:
        cases.append((m, a, om, oa))
    o = [HEADER]
    runs = []
    for i, (m, a, om, oa) in enumerate(cases):
        t = a.replace(".x", ".0").replace(".y", ".1")
        o.append("#[derive(Error)] #[error(%s%s)] pub struct N%d { x: i64, y: usize }\n" % (rust_str(m), a, i) + DBG % ("N%d" % i))
        o.append("#[derive(Error)] pub enum EN%d { #[error(%s%s)] A { y: usize, x: i64 }, #[error(\"\")] B }\n" % (i, rust_str(m), a) + DBG % ("EN%d" % i))
        for e in ("N%d { x: 5, y: 7 }" % i, "EN%d::A { x: 5, y: 7 }" % i):
            runs.append("c.eqf(%s, format_args!(\"{}\", %s), format_args!(%s%s));\n" % (rust_str(m + a), e, rust_str(om), oa))
    o.append("pub fn run(c: &mut ::mc::Ctx) {\n" + "".join(runs) + "}")
    return Prog("widths", "".join(o), len(runs))


def shadow():
    """.x denotes the field even where a local of the same name is in scope."""
    out = []
    for nm, e, want in (("let", "{ let x = 100; x + .x }", 105), ("closure", "[100].iter().map(|x| x + .x).sum::<i64>()", 105), ("match", "match 100 { x => x + .x }", 105)):
        src = HEADER + "#[derive(Error)] #[error(\"{}\", %s)] pub struct N { x: i64 }\n" % e + DBG % "N"
        src += "pub fn run(c: &mut ::mc::Ctx) { c.eqf(%s, format_args!(\"{}\", N { x: 5 }), format_args!(\"{}\", %d)); }" % (rust_str(e), want)
        out.append(Prog("shadow/" + nm, src))
    return out


def run(tier=None):
    c = Check("C02", "model_checking", tier)
    c.base("std")
    progs = arglists(c)
    progs.append(widths())
    progs += shadow()
    c.count(len(progs))
    ex = expressions(c)
    step = 25
    progs += [prog("expr/%d" % i, ex[i:i + step]) for i in range(0, len(ex), step)]
    c.sample(ex[100])
    c.sample(ex[-1])
    c.sample(progs[0].src[1000:1600])
    c.run_progs(progs, tag="args")
    if c.thorough:
        c.run_progs(progs[::3], edition="2018", tag="e18")
        c.run_progs(progs[::3], edition="2024", tag="e24")
    c.assumptions += ["std's format! with every field passed as an explicit named argument is the reference",
                      "expressions: every template x every hole x every leaf; thorough adds every pair of templates"]
    return c.finish(rule="argument lists and messages by exhaustive choice; expressions by template grammar; each compiled with the real derive and evaluated against the same expression over plain references",
                    programs=len(progs), expressions=len(ex), messages=sum(p.cases for p in progs))
