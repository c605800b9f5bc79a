"""C21: every diagnostic points at the part of the user's code that is at fault.

Every program is laid out so that each attribute, field, variant and type stands on a line of
its own. A. all declarations of C09's alphabet that break a rule: the derive's own error must
lie within the lines that take part in one of the broken rules. B. errors that rustc finds in
what was generated (types without the traits they need, messages that do not parse, unknown
names): they must lie on the attribute or field that asked for it. C. errors inside of
argument expressions: they must lie on the very tokens."""
import itertools
from .core import Check, Prog, CRATE_HEAD, NIGHTLY, STABLE, log
from . import c02
from .c09 import A as ALL, CORE, FOUR, E, BT, BA, RA, UNIT, kinds, dup, tup, named, place, dontcare, ambiguous, judge_struct, judge_enum

A = [a for a in ALL if "other::" not in a[1] and "error::" not in a[1]]
TY = """mod ty { #[derive(Debug)] pub struct E; #[derive(Debug)] pub struct B<'a>(pub &'a u8); pub use ::std::backtrace::Backtrace;
macro_rules! err { ($($t:tt)*) => { impl $($t)* } }
err! { ::std::fmt::Display for E { fn fmt(&self, _: &mut ::std::fmt::Formatter) -> ::std::fmt::Result { Ok(()) } } } impl ::std::error::Error for E {}
impl<'a> ::std::fmt::Display for B<'a> { fn fmt(&self, _: &mut ::std::fmt::Formatter) -> ::std::fmt::Result { Ok(()) } } impl<'a> ::std::error::Error for B<'a> {}
pub struct N; #[derive(Debug)] pub struct Dbg; #[derive(Debug)] pub struct Dsp; impl ::std::fmt::Display for Dsp { fn fmt(&self, _: &mut ::std::fmt::Formatter) -> ::std::fmt::Result { Ok(()) } } }
"""


class Layout:
    def __init__(self):
        self.lines, self.tags = [], []

    def add(self, tag, text):
        self.lines.append(text)
        self.tags.append(tag)

    def at(self, tags):
        """Line numbers, the first being 1, of the given tags; a tag matches its extensions."""
        return {i + 1 for i, t in enumerate(self.tags) if any(t[:len(x)] == x for x in tags)}

    def text(self):
        return "\n".join(self.lines)


def lay_attrs(l, path, attrs):
    for i, a in enumerate(attrs):
        l.add(path + ("a", i), a[1] if isinstance(a, tuple) else a)


def lay_body(l, path, head, body, fattrs, end):
    """fields: every one on its line, its attributes before it"""
    o, c = {"s": (" {", "}"), "t": ("(", ")"), "u": ("", "")}[body.style]
    l.add(path + ("head",), head + o)
    for j, ((n, t), a) in enumerate(zip(body.fields, fattrs)):
        lay_attrs(l, path + ("f", j), a)
        l.add(path + ("f", j, "name"), (n + ": " if n else "") + t[0] + ",")
    l.add(path + ("end",), c + end)


def lay_struct(cont, body, fattrs, derive="Debug, ::thiserror::Error", head="pub struct S", extra=()):
    l = Layout()
    l.add(("derive",), "use crate::ty::*; #[derive(%s)]" % derive)
    lay_attrs(l, ("top",), cont)
    lay_body(l, ("v", 0), head, body, fattrs, "" if body.style == "s" else ";")
    for i, x in enumerate(extra):
        l.add(("extra", i), x)
    return l


def lay_enum(cont, vs, derive="Debug, ::thiserror::Error", head="pub enum S", extra=()):
    l = Layout()
    l.add(("derive",), "use crate::ty::*; #[derive(%s)]" % derive)
    lay_attrs(l, ("top",), cont)
    l.add(("head",), head + " {")
    for i, (a, body, f) in enumerate(vs):
        lay_attrs(l, ("v", i, "va"), a)
        lay_body(l, ("v", i), "V%d" % i, body, f, ",")
    l.add(("end",), "}")
    for i, x in enumerate(extra):
        l.add(("extra", i), x)
    return l


# ---- A: the places of the rules --------------------------------------------------------

def kd(a):
    return "msg" if a[0] == "amb" else a[0]


def off_attrs(path, attrs):
    """malformed and duplicate attributes of one item"""
    out = []
    for i, a in enumerate(attrs):
        if a[0] == "bad":
            out.append([path + ("a", i)])
        elif a[0] != "none":
            same = [j for j, b in enumerate(attrs) if kd(b) == kd(a)]
            if len(same) > 1:
                out.append([path + ("a", j) for j in same])
    return out


def where(path, attrs, which):
    return [path + ("a", i) for i, a in enumerate(attrs) if kd(a) in which]


def off_top(path, attrs):
    out = off_attrs(path, attrs)
    out += [[x] for x in where(path, attrs, ("source", "from", "backtrace"))]
    if len(kinds(attrs) & {"msg", "transparent", "fmt"}) > 1:
        out.append(where(path, attrs, ("msg", "transparent", "fmt")))
    return out


def off_fields(path, body, fattrs):
    out = []
    for j, a in enumerate(fattrs):
        out += off_attrs(path + ("f", j), a)
        out += [[x] for x in where(path + ("f", j), a, ("msg", "transparent", "fmt"))]
    ks = [kinds(a) for a in fattrs]
    every = lambda which: [x for j, a in enumerate(fattrs) for x in where(path + ("f", j), a, which)]
    for which in ("source", "from", "backtrace"):
        if sum(which in k for k in ks) > 1:
            out.append(every((which,)))
    fr = [j for j, k in enumerate(ks) if "from" in k]
    so = [j for j, k in enumerate(ks) if "source" in k]
    bt = [j for j, k in enumerate(ks) if "backtrace" in k]
    if fr and so and set(fr) != set(so):
        out.append(every(("from", "source")))
    if fr:
        # #[from] next to fields that cannot be filled: the attribute or one of the fields
        out_of = [path + ("f", j) for j in range(len(ks))]
        for f in fr:
            other = set(bt) or {j for j, x in enumerate(body.fields) if j != f and x[1][1]}
            if len(set(range(len(ks))) - {f}) > min(1, len(other - {f})):
                out.append(out_of)
    for j in (so or fr) + fr:
        if body.fields[j][1][2]:
            out.append([path + ("f", j)])
    return out


def off_struct(cont, body, fattrs):
    out = off_top(("top",), cont)
    tr = where(("top",), cont, ("transparent",))
    if ambiguous(cont, body):
        out.append(where(("top",), cont, ("msg",)))
    if where(("top",), cont, ("fmt",)):
        out.append(where(("top",), cont, ("fmt",)))
    if tr and len(fattrs) != 1:
        out.append(tr + [("v", 0)])
    if tr:
        for j, a in enumerate(fattrs):
            if where(("v", 0, "f", j), a, ("source",)):
                out.append(tr + where(("v", 0, "f", j), a, ("source",)))
    return out + off_fields(("v", 0), body, fattrs)


def off_enum(cont, vs):
    out = off_top(("top",), cont)
    own = [kinds(a) & {"msg", "transparent", "fmt"} for a, _, _ in vs]
    top = kinds(cont)
    for i, ((a, body, f), o) in enumerate(zip(vs, own)):
        va = ("v", i, "va")
        out += off_top(va, a)
        src = (a, va) if o else (cont, ("top",))
        if ambiguous(src[0], body):
            out.append(where(src[1], src[0], ("msg",)))
        tr = where(src[1], src[0], ("transparent",))
        if tr and len(f) != 1:
            out.append(tr + [("v", i)])
        if tr:
            for j, x in enumerate(f):
                if where(("v", i, "f", j), x, ("source",)):
                    out.append(tr + where(("v", i, "f", j), x, ("source",)))
        out += off_fields(("v", i), body, f)
        if not o and not top & {"msg", "transparent", "fmt"} and any(x & {"msg", "fmt"} for x in own):
            out.append([("v", i)])
        if not o and not top & {"msg", "transparent", "fmt"} and any(own):
            out.append([("v", i)])
    return out


def rules(c, add):
    th = c.thorough

    def structs(shapes, n, alpha):
        def fn(ch):
            body = ch(shapes)
            cont, fattrs = [], [[] for _ in body.fields]
            place(ch, [cont] + fattrs, ch(n + 1), alpha)
            if dontcare(body, fattrs) or judge_struct(cont, body, fattrs) is not None:
                return None
            l = lay_struct(cont, body, fattrs, head=life("pub struct S", [body]))
            return l, off_struct(cont, body, fattrs)
        for l, o in c.explore(fn):
            add("struct", l, [x for y in o for x in y])

    def enums(bodies, base, n, alpha, at=None):
        def fn(ch):
            cont = list(base[0])
            vs = [(list(base[1][i]), b, [[] for _ in b.fields]) for i, b in enumerate(bodies)]
            slots = [cont] + [s for i, (a, b, f) in enumerate(vs) for s in [a] + f if at is None or i == at]
            place(ch, slots[1 if at is not None else 0:], ch(n + 1), alpha)
            if any(dontcare(b, f) for a, b, f in vs) or judge_enum(cont, vs) is not None:
                return None
            return lay_enum(cont, vs, head=life("pub enum S", bodies)), off_enum(cont, vs)
        for l, o in c.explore(fn):
            add("enum", l, [x for y in o for x in y])

    def life(head, bodies):
        return head + ("<'a>" if any("'a" in f[1][0] for b in bodies for f in b.fields) else "")

    structs([UNIT, tup(E), named(E), tup(E, E), tup(E, BT), named(BA)], 2, A)
    structs([named(E, E, BT), tup(BT, E), tup(RA), tup(E, BT, BT)], 2, CORE)
    structs([tup(E), tup(E, E)] if not th else [tup(E), named(E, E), tup(E, BT), UNIT, tup(BT, E)], 3, CORE)
    m, tr, fm, amb = [A[0]], [A[3]], [A[4]], [A[2]]
    for bodies in ([tup(E)], [UNIT], [UNIT, tup(E)], [tup(E), named(E, E)], [tup(E), tup(BA)]):
        k = len(bodies)
        bases = [([], [[]] * k), ([], [m] * k), (m, [[]] * k), (tr, [[]] * k), ([], [tr] * k), (fm, [[]] * k), (amb, [[]] * k)]
        if k == 2:
            bases += [([], [m, []]), ([], [[], m]), ([], [tr, m]), ([], [fm, tr]), (tr, [m, []]), (m, [tr, []])]
        for b in bases:
            enums(bodies, b, 1, A)
            if th or k == 1:
                enums(bodies, b, 2, CORE)
            else:
                enums(bodies, b, 2, FOUR)
    # every position among several variants
    for k in (3, 4) if not th else (3, 4, 5):
        for j in range(k):
            for odd in (tup(E), named(E, E), tup(E, BT), UNIT, tup(BA)):
                bodies = [odd if i == j else tup(E) for i in range(k)]
                for b in (([], [m] * k), (m, [[]] * k), (tr, [[]] * k), ([], [m if i != j else [] for i in range(k)]), ([], [[]] * k)):
                    enums(bodies, b, 1 if not th else 2, CORE, at=j)


# ---- B: errors in what is generated -------------------------------------------------------

DBG = "impl ::std::fmt::Debug for S { fn fmt(&self, _: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { Ok(()) } }"
DSP = "impl ::std::fmt::Display for S { fn fmt(&self, _: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { Ok(()) } }"


def T(text):
    return (text, 0, 0)


def containers(ch, msg, fields, style, extra=()):
    """fields: [(name, type text, [attributes])]. -> layout, path of the body, path of its message.
    In a struct, in a variant at every position, and there by a message of the enum."""
    from .c09 import Body
    body = Body(style, [(n if style == "s" else None, T(t)) for n, t, _ in fields])
    fattrs = [a for _, _, a in fields]
    how = ch(["struct", "v0", "v1", "v2", "e0", "e1", "e2"])
    kw = dict(derive="::thiserror::Error", extra=(DBG,) + tuple(extra))
    if how == "struct":
        return lay_struct([msg] if msg else [], body, fattrs, **kw), ("v", 0), ("top",)
    k = int(how[1])
    vs = [(['#[error("other")]'], named(E) if i % 2 else UNIT, [[]] if i % 2 else []) for i in range(3)]
    if how[0] == "v":
        vs[k] = ([msg] if msg else [], body, fattrs)
        return lay_enum([], vs, **kw), ("v", k), ("v", k, "va")
    if not msg:
        return None
    vs[k] = ([], body, fattrs)
    return lay_enum([msg], vs, **kw), ("v", k), ("top",)


def generated(c, add):
    SRCS = ["N", "Option<N>", "Box<N>", "Option<Box<N>>", "::std::vec::Vec<E>", "&'static str", "u8", "Dsp", "(E, E)", "[E; 1]", "::core::option::Option<Option<E>>"]

    def sources(ch):
        t = ch(SRCS)
        style = ch("st")
        attrs, name = ch([(["#[source]"], "x"), (["#[from]"], "x"), (["#[source]", "#[from]"], "x"), (["#[from]", "#[source]"], "source"), ([], "source"), (["#[doc = \"d\"]", "#[source]"], "source"), (["#[from]", "#[doc(hidden)]"], "x")])
        if not attrs and style == "t":
            return None
        n = ch(3) if "#[from]" not in attrs else 0
        fields = [("p%d" % i, "u8", []) for i in range(n)]
        fields.insert(ch(n + 1), (name, t, attrs))
        r = containers(ch, '#[error("m")]', fields, style)
        if not r:
            return None
        l, body, _ = r
        j = [i for i, f in enumerate(fields) if f[1] == t and f[0] == name][0]
        return l, [body + ("f", j)]

    def transparent(ch):
        t = ch(["Dsp", "u8", "&'static str", "::std::string::String", "Box<Dsp>"])
        r = containers(ch, "#[error(transparent)]", [("x", t, ch([[], ["#[from]"], ["#[doc(hidden)]"]]))], ch("st"))
        if not r or r[2] == ("top",) and len(r[0].at([("v", 1)])):
            return None         # the other variants would have to be transparent too
        l, body, msg = r
        return l, [body + ("f", 0), msg]

    SPECS = ["", ":", ":?", ":x", ":X", ":o", ":b", ":e", ":E", ":p", ":>8", ":#?", ":08.3", " ", ":x?", ":e ", ":#010b"]

    def display(ch):
        spec = ch(SPECS)
        style = ch("st")
        n = ch(2)
        fields = [("p%d" % i, "u8", []) for i in range(n)] + [("x", "N", [])]
        ref = "x" if style == "s" else str(n)
        first = "" if not n else "{p0} " if style == "s" else "{0} "
        form = ch(["{%s%s}", "a{{{%s%s}}}b", "{%s%s} {%s%s}"])
        msg = form % ((ref, spec) * (form.count("%s") // 2))
        r = containers(ch, '#[error("%s%s")]' % (first, msg), fields, style)
        if not r:
            return None
        l, body, m = r
        return l, [m]

    def arguments(ch):
        style = ch("st")
        ref = "x" if style == "s" else "0"
        msg = ch(['"{}", .%s', '"{:?}", .%s', '"{} {}", 1, .%s', '"{a}", a = .%s', '"{a:x} {b}", b = 1, a = .%s', '"{:>1$}", .%s, 3'])
        r = containers(ch, "#[error(%s)]" % (msg % ref), [("x", "N", [])], style)
        if not r:
            return None
        return r[0], [r[2]]

    BAD = ['"{x"', '"x}"', '"{x:!}"', '"{nope}"', '"{nope:?}"', '"{}"', '"{9}"', '"m", 1', '"m", a = 1', '"{a}", 1', '"{} {}", 1', '"{a} {a}", a = 1, a = 2', '"{x:y$}"', '"{x:9$}"', '"{:.*}", 1', '"{x} {", 1', '"{x!}"', '"{x:?x:}"',
           '"{r#x}"', '"{x.y}"', '"{x y}"', '"{a}", a = 1, 2', '"{}", .nope', '"{}", .9', '"{}", nope', '"{}", self.nope', '"{}", .x.nope', '"{}", nope!()', '"{}", nope::f()', '"{}", 1 +', '"{}", (', '"{}" 1', '"{}", a = ']
    BAD = [b for b in BAD if b not in ('"{}", (',)]

    def messages(ch):
        b = ch(BAD)
        style = ch("stu")
        r = containers(ch, "#[error(%s)]" % b, [("x", "u8", [])] if style != "u" else [], style)
        if not r:
            return None
        return r[0], [r[2]]

    def functions(ch):
        p = ch(["nope", "nope::f", "crate::ty::nope", "u8", "few", "many"])
        style = ch("stu")
        fs = [("x", "u8", [])] if style != "u" else []
        extra = ["pub fn few(_: &mut ::std::fmt::Formatter<'_>, %s) -> ::std::fmt::Result { Ok(()) }" % ("_: u8, _: u8, _: u8"), "pub fn many() -> ::std::fmt::Result { Ok(()) }"]
        r = containers(ch, "#[error(fmt = %s)]" % p, fs, style, extra)
        if not r or r[0].tags[1][0] == "v" or r[2] == ("top",):
            return None
        return r[0], [r[2]]

    def conflicts(ch):
        style = ch("st")
        k = ch([2, 3, 4])
        i, j = ch(k), ch(k)
        if i >= j:
            return None
        t = ch(["E", "Box<E>", "Option<E>"])
        u = t if ch.flag() else ("E" if t == "Option<E>" else t)
        body = lambda x: (tup if style == "t" else lambda y: named(y, names=("inner",)))(T(x))
        vs = [(['#[error("m")]'], body(t if q == i else u) if q in (i, j) else UNIT, [["#[from]"]] if q in (i, j) else []) for q in range(k)]
        return lay_enum([], vs), [("v", i, "f", 0), ("v", j, "f", 0)]

    def own_from(ch):
        style = ch("st")
        r = containers(ch, '#[error("m")]', [("x", "E", ["#[from]"])], style, ["impl ::core::convert::From<E> for S { fn from(_: E) -> Self { loop {} } }"])
        if not r:
            return None
        return r[0], [r[1] + ("f", 0), ("extra", 1)]

    def recursion(ch):
        style = ch("stu")
        msg = ch(['"{self}"', '"{self:>3}"', '"a {self} b"'])
        r = containers(ch, "#[error(%s)]" % msg, [("x", "u8", [])] if style != "u" else [], style)
        if not r:
            return None
        return r[0], [r[2]], "recurs"

    for f in (sources, transparent, display, arguments, messages, functions, conflicts, own_from, recursion):
        for x in c.explore(f):
            add(f.__name__, *x)


# ---- C: errors inside of arguments ----------------------------------------------------------

# leaf, the part of it where the error is
WRONG = [("@a.nope", "nope"), ("@s.nope()", "nope"), ("@t.1.1.nope", "nope"), (".nope", "nope"), ("unknown_x", "unknown_x"), ("@t.5", "5"), ("@s.x.nope()", "nope"), ("unknown::f()", "unknown"), ("@o.unwrap().nope", "nope"), (".99", "99"),
         ("g(@a.nope, 1)", "nope"), ("(@v.nope)", "nope"), ("[@v[0].nope][0]", "nope"), ("{ @s.nope }", "nope")]


def tokens(c, add):
    from .c09 import Body

    def fn(ch):
        t = ch([x for x in c02.TEMPL if "mm!" not in x])
        n = max(c02.nholes(t), 1)
        k = ch(n)
        leaf, part = ch(WRONG if c.thorough else WRONG[:6])
        style = ch(("named", "tuple"))
        holes = ["*@b", "@s.t.1.0", "2", "@t.1.1.0"]
        holes = [holes[(i + k) % 4] for i in range(n)]
        holes[k] = "\0"
        before, mark, after = c02.fill(t, holes, [c02.BOOLS[k], c02.BOOLS[5]]).partition("\0")
        if not mark:
            return None
        lead = ch(['#[error("{}", ', '#[error("{q} {}", .0, q = ', '#[error("{q}", q = '] if c.thorough else ['#[error("{}", ', '#[error("{q}", q = '])
        if ".0" in lead:
            lead = lead.replace(".0", "1")
        before, leaf2, after = (c02.rend(x, style) for x in (before, leaf, after))
        pos = len(lead) + len(before) + leaf2.index(part, 1 if leaf2.startswith((".", "(", "[", "{")) else 0)
        end = pos + len(part)
        if part.isdigit():
            pos, end = pos - leaf2.index(part, 1), pos - leaf2.index(part, 1) + len(leaf2)       # `.0.1` is one token
        body = Body("s" if style == "named" else "t", [(f[0] if style == "named" else None, T(f[1])) for f in c02.FIELDS])
        l = lay_struct([lead + before + leaf2 + after + ")]"], body, [[] for _ in c02.FIELDS], derive="::thiserror::Error", head="pub struct Er", extra=(DBG.replace("for S", "for Er"),))
        l.lines[0] = "use super::c02::*; " + l.lines[0]
        return l, [("top",)], None, (2, pos + 1, end + 1)
    for x in c.explore(fn):
        add("tokens", *x)


def run(tier=None):
    c = Check("C21", "model_checking", tier)
    c.bases_parallel(("std", STABLE), ("std", NIGHTLY))
    groups = {}

    def add(group, l, tags, warning=None, exact=None):
        tags = list(tags)
        lines = l.at(tags)
        if not lines:
            raise Exception("no place: %s\n%s" % (tags, l.text()))
        groups.setdefault(group, {}).setdefault(l.text(), (lines, warning, exact))
    rules(c, add)
    generated(c, add)
    tokens(c, add)
    head = CRATE_HEAD + TY + "pub mod c02 { %s }\n" % c02.HEADER.replace("use ::thiserror::Error; use ::mc::P;", "")
    total = 0
    for g, ps in groups.items():
        for tc in (STABLE, NIGHTLY):
            if tc == NIGHTLY and not c.thorough and g in ("tokens",):
                continue
            progs = [Prog("%s/%s" % (g, t), t) for t in ps]
            for p, (text, (lines, warning, exact)), ds in zip(progs, ps.items(), c.diagnose(progs, toolchain=tc, head=head.replace("warnings", "unused") if g == "recursion" else head, tag="%s-%s" % (g, tc[:7]), spans=True, canary=g != "recursion", chunk=150 if g != "tokens" else 60)):
                total += 1
                bad = complaint(text, lines, warning, exact, ds)
                if bad:
                    c.direct_violation(p.id, "%s (%s)" % (bad, tc), [str(d) for d in ds[:4]], p.src + "\n")
    return c.finish(placed=total, groups={g: len(v) for g, v in groups.items()})


def complaint(text, lines, warning, exact, ds):
    errs = [d for d in ds if d[0].startswith("error")]
    if warning:
        if errs:
            return "is rejected"
        ds = [d for d in ds if warning in d[1]]
        if len(ds) != 1:
            return "%d warnings" % len(ds)
        errs = ds
    if not errs:
        return "is accepted"
    if exact:
        if not any(a == e == exact[0] and exact[1] <= b and f <= exact[2] for d in errs for a, b, e, f in d[2]):
            return "no error on the tokens at fault, columns %d to %d" % exact[1:]
    for d in errs:
        if not d[2]:
            return "an error without a place: %s" % d[1]
        for a, _, e, _ in d[2]:
            if not set(range(a, e + 1)) <= lines:
                return "error on lines %d to %d, which are not at fault (%s): %s" % (a, e, sorted(lines), d[1])
    return None
