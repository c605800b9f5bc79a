"""C19: attributes of others, the order of attributes and repetition have no effect.

Metamorphic: from every base declaration (slots: container, variants, fields) the check makes
all variants with up to K foreign attributes at every position of every slot, and all
permutations of the attributes of every slot; the real derive has to give the same tokens."""
import itertools
import re
from .core import Check, Host, Prog, log, MachineryError, JOBS

FOREIGN = ["/// doc {x}", "#[doc = \"d\"]", "#[doc(hidden)]", "#[allow(dead_code)]", "#[serde(rename = \"r\", from = \"T\")]", "#[from(forward)]", "#[from = \"x\"]", "#[from()]", "#[from(u8, source)]", "#[my::source]", "#[my::from]",
           "#[my::error(\"x {}\", 1)]", "#[error::from]", "#[::source]", "#[my::backtrace(1)]", "#[display(\"{0}\", transparent)]", "#[Source]", "#[errors(\"x\")]", "#[transparent]", "#[fmt = f]", "#[must_use]", "#[non_exhaustive]",
           "#[deprecated]", "#[deprecated(note = \"n\")]", "#[derive(Clone)]", "#[repr(C)]", "#[cfg_attr(any(), error(\"x\"))]", "#[cfg(all())]", "#[default]", "#[source_code]", "#[from_str]", "#[rustfmt::skip]", "#[unsafe(no_mangle)]", "#[r#fn]", "#[thiserror(source)]", "#[thiserror::error(\"x\")]",
           "#[a = concat!(\"x\")]", "#[automatically_derived]", "#[diagnostic(code(x))]", "#[label]", "#[help(\"{x}\")]"]
FEW = [FOREIGN[0], FOREIGN[5], FOREIGN[9], FOREIGN[11], FOREIGN[22]]

# (container attrs, head, [(member attrs, text)], tail); variants nest the same way
S = lambda attrs, fields, style="s", gen="", where="": ("struct", attrs, gen, where, style, fields)
V = lambda attrs, name, fields, style="s": (attrs, name, style, fields)
En = lambda attrs, variants, gen="", where="": ("enum", attrs, gen, where, variants)
BASES = [
    S(['#[error("m")]'], [], "u"),
    S([], [([], "x: u8")]),
    S(['#[error("{x} {y:?} {x:>5} {}", .x, z = .y)]'], [([], "x: u8"), ([], "y: T")], "s", "<T>"),
    S(['#[error("{0} {1:p} {}", .0.a)]'.replace("{}", "{2}").replace(', .0.a', '')], [([], "T"), ([], "U"), ([], "Option<(T, U)>")], "t", "<T, U: Copy>", "where T: Clone"),
    S(['#[error(transparent)]'], [(["#[from]"], "E")], "t"),
    S(['#[error(transparent)]'], [(["#[backtrace]"], "inner: Box<E>")]),
    S(['#[error("m {source}")]'], [(["#[source]", "#[backtrace]"], "source: E"), ([], "other: Option<Backtrace>")]),
    S(['#[error("m")]'], [(["#[from]", "#[source]", "#[backtrace]"], "E<T>")], "t", "<T: 'static, const N: usize>"),
    S(['#[error("m")]'], [(["#[from]"], "x: Option<E>"), ([], "b: Backtrace")]),
    S(['#[error("{a}{b}{c}{d}{e}{f}{g:?}{h:x}{a:?}{b:o}{c:e}")]'], [([], "%s: P%s" % (c, c.upper())) for c in "abcdefgh"], "s", "<" + ", ".join("P" + c for c in "ABCDEFGH") + ">"),
    S(['#[error("{0}{1}{2}{3}{0:?}{1:x}{2:o}{3:b}{0:e}", 1, 2)]'.replace(", 1, 2", ", q = 1, w = 2")], [([], "A"), ([], "B"), ([], "Vec<A>"), ([], "x::C<B>")], "t", "<A, B>"),
    En([], [V(['#[error("a")]'], "A", [], "u"), V(['#[error("{0}")]'], "B", [([], "u8")], "t"), V(['#[error(transparent)]'], "C", [(["#[from]"], "E")], "t"), V(["#[error(fmt = f)]"], "D", [([], "x: u8"), (["#[source]"], "y: E")])]),
    En(['#[error("{x}")]'], [V([], "A", [([], "x: u8")]), V(['#[error("own")]'], "B", [(["#[from]", "#[backtrace]"], "E")], "t")], "<T>"),
    En(['#[error(transparent)]'], [V([], "A", [(["#[from]"], "E")], "t"), V([], "B", [(["#[backtrace]"], "x: F")])]),
    En(['#[error(fmt = f)]'], [V([], "A", [([], "u8")], "t"), V([], "B", [], "u")]),
    En([], [V([], "A", [(["#[source]"], "x: E")]), V([], "B", [([], "Backtrace")], "t")]),
    En([], []),
    En([], [V(['#[error("{0}{1}")]'], "A", [([], "T"), ([], "U")], "t"), V(['#[error("{u:?}{t:x}{u}")]'], "B", [([], "t: T"), ([], "u: U"), ([], "v: V")]), V(['#[error("{0:p}")]'], "C", [(["#[source]"], "V")], "t"), V(['#[error(transparent)]'], "D", [([], "W")], "t")], "<T, U, V, W>"),
    S(['#[error("r {r#fn}")]'.replace("r#fn", "fn")], [([], "pub r#fn: u8"), (["#[source]"], "pub(crate) r#type: E")]),
    # rejected ones stay rejected
    S(['#[error("a")]', '#[error("b")]'], [([], "x: u8")]),
    S(['#[error("a")]'], [(["#[source]"], "E"), (["#[from]"], "F")], "t"),
    S(['#[error(transparent)]'], [(["#[source]"], "E")], "t"),
    S(['#[error("a")]', "#[source]"], [], "u"),
    En([], [V(['#[error("a")]'], "A", [], "u"), V([], "B", [], "u")]),
    En([], [V(['#[error("a")]'], "A", [(["#[from]"], "E"), ([], "u8")], "t")]),
    En([], [V(['#[error("a")]', "#[error(transparent)]"], "A", [([], "u8")], "t")]),
]


def slots(b):
    if b[0] == "struct":
        return [b[1]] + [f[0] for f in b[5]]
    return [b[1]] + [s for v in b[4] for s in [v[0]] + [f[0] for f in v[3]]]


def fields(style, fs, it):
    t = ", ".join("%s %s" % (" ".join(a.replace("/// doc {x}", "/// doc {x}\u2424") for a in next(it)), f[1]) for f in fs)
    return {"s": " { %s }", "t": "(%s)", "u": "%s"}[style] % t


def render(b, attrs):
    it = iter(attrs)
    top = " ".join(next(it))
    if b[0] == "struct":
        _, _, gen, where, style, fs = b
        body = fields(style, fs, it)
        s = "%s struct S%s %s%s" % (top, gen, where, body) if style == "s" else "%s struct S%s%s %s;" % (top, gen, body, where)
    else:
        _, _, gen, where, vs = b
        s = "%s enum S%s %s { %s }" % (top, gen, where, ", ".join("%s %s%s" % (" ".join(next(it)), v[1], fields(v[2], v[3], it)) for v in vs))
    # the driver reads one line per input
    return s.replace("\u2424", "").replace("/// doc {x}", "#[doc = \" doc {x}\"]")


def run(tier=None):
    c = Check("C19", "model_checking", tier)
    h = Host("full").build()
    mini = Host("min").build()
    th = c.thorough
    inputs = []
    for bi, b in enumerate(BASES):
        base = slots(b)
        places = [(i, j) for i, s in enumerate(base) for j in range(len(s) + 1)]

        def insert(ch):
            k = ch(3 if not th else 4)
            cur = [list(s) for s in base]
            for n in range(k):
                alpha = FOREIGN if n == 0 and k < 3 or (th and k == 2) else FEW
                i = ch(len(cur))
                cur[i].insert(ch(len(cur[i]) + 1), ch(alpha))
            return cur

        seen = set()
        for cur in c.explore(insert):
            t = render(b, cur)
            if t not in seen:
                seen.add(t)
                inputs.append((bi, t))

        def permute(ch):
            cur = []
            for s in base:
                p = list(itertools.permutations(s + ([ch(FEW)] if ch.flag() else []))) if len(s) < 4 else [s]
                cur.append(list(ch(p)))
            return cur
        if len(base) <= 4:
            for cur in c.explore(permute):
                t = render(b, cur)
                if t not in seen:
                    seen.add(t)
                    inputs.append((bi, t))
        else:
            # one slot at a time
            for i, s in enumerate(base):
                for p in itertools.permutations(s + FEW[:1]):
                    cur = [list(x) for x in base]
                    cur[i] = list(p)
                    t = render(b, cur)
                    c.count(1)
                    if t not in seen:
                        seen.add(t)
                        inputs.append((bi, t))
    log("[C19] %d declarations at %.1fs" % (len(inputs), __import__("time").time() - c.t0))
    want = h.judge([render(b, slots(b)) for b in BASES])
    want_min = mini.judge([render(b, slots(b)) for b in BASES])
    got = h.judge([t for _, t in inputs])
    part = [x for i, x in enumerate(inputs) if th or len(x[1]) < 110]
    got_min = mini.judge([t for _, t in part])
    acc = sum(w[0] == "O" for w in want)
    if acc < 17 or len(want) - acc < 6:
        raise MachineryError("bases: %s" % [w[:1] for w in want])

    def compare(who, items, want, got):
        for (bi, t), g in zip(items, got):
            w = want[bi]
            if w[0] == "O" and g[:2] != w[:2]:
                c.direct_violation(t, "expands differently (%s) than without the foreign attributes or in another order" % who, ["base: " + render(BASES[bi], slots(BASES[bi])), "%s -> %s %s" % (w[0], g[0], g[3] if len(g) > 3 else "")], "//@input %s\n" % t)
            elif w[0] == "E" and g[0] != "E":
                c.direct_violation(t, "accepted, although the same without the foreign attributes is rejected", [], "//@input %s\n" % t)
            elif w[0] == "O" and len(g) > 2 and g[2] and not g[2].endswith(",0,0"):
                c.direct_violation(t, "adds items besides the impls: %s" % g[2], [], "//@input %s\n" % t)
    compare("syn/full", inputs, want, got)
    compare("syn", part, want_min, got_min)
    # determinism: the same inputs in other processes, in other orders, next to other inputs
    seqs = [[t for b in BASES for t in [render(b, slots(b))]] * (40 if th else 12)]
    seqs.append(list(reversed(seqs[0])))
    for k, seq in enumerate(seqs):
        for jobs in (1, 2, 5, 8):
            g = h.judge(seq, jobs=jobs)
            c.count(len(seq))
            c.cov["traces_validated_against_impl"] += len(seq)
            for i, x in enumerate(g):
                j = i % len(BASES) if k == 0 else (len(seq) - 1 - i) % len(BASES)
                if x[:2] != want[j][:2]:
                    c.direct_violation(seq[i], "expands differently in another process or order", [], "//@input %s\n" % seq[i])
    c.cov["traces_validated_against_impl"] += len(inputs) + len(part)
    c.cov["distinct_outcomes"] = len({g[1] for g in got if len(g) > 1})
    c.sample(inputs[50][1])
    c.sample(inputs[-1][1])
    with_rustc(c)
    return c.finish(rule="same expansion with foreign attributes at every position and in every order of the own ones", bases=len(BASES), variants=len(inputs))


REAL = ["/// doc {x}\n", "/** block {0} */", "#[allow(dead_code)]", "#[cfg_attr(all(), doc = \"d\")]", "#[cfg_attr(any(), error(\"no\"))]", "#[from(forward)]", "#[from = \"x\"]", "#[cfg(all())]", "#[doc(hidden)]", "#[doc = include_str!(\"/dev/null\")]", "#[deprecated]"]


def with_rustc(c):
    """The same through rustc, with attributes rustc knows and cfg'd fields and variants."""
    decls = [
        ("#[error(\"m {x}\")] struct S { #[source] e: E, x: u8 }", "S { e: E, x: 3 }", "m 3", "Some(E)"),
        ("#[error(\"m {1}\")] struct S(#[source] E, u8);", "S(E, 3)", "m 3", "Some(E)"),
        ("#[error(transparent)] struct S(#[from] Outer);", "S(Outer(E))", "outer", "Some(E)"),
        ("enum S { #[error(\"m {0}\")] A(#[from] E), #[error(\"b\")] B }", "S::A(E)", "m e", "Some(E)"),
        ("#[error(\"m {source}\")] enum S { A { #[source] source: E }, #[error(\"b\")] B }", "S::A { source: E }", "m e", "Some(E)"),
    ]
    progs = []
    pre = "use ::std::error::Error as _; #[derive(Debug, ::thiserror::Error)] #[error(\"e\")] pub struct E; #[derive(Debug, ::thiserror::Error)] #[error(\"outer\")] pub struct Outer(#[source] E);\n"
    for di, (d, make, msg, src) in enumerate(decls):
        # positions: before every attribute, member and the item itself
        pos = [0]
        for m in re.finditer(r"(?<=\{ )|(?<=, )|(?<=\()(?=[A-Zu#])|(?<=\] )", d):
            # not inside of a string
            if d[:m.start()].count('"') % 2 == 0:
                pos.append(m.start())
        for p in sorted(set(pos)):
            for a in REAL:
                for b in [None] + ([x for x in REAL[:6]] if c.thorough else REAL[4:6]):
                    t = d[:p] + a + " " + (b + " " if b else "") + d[p:]
                    progs.append(Prog("rustc/%d/%d/%s/%s" % (di, p, a.strip(), b), pre + "#[derive(Debug, ::thiserror::Error)] %s\npub fn run(c: &mut ::mc::Ctx) { let s = %s; c.eq(\"display\", &s.to_string(), \"%s\"); c.eq(\"source\", &format!(\"{:?}\", s.source()), \"%s\"); }" % (t, make, msg, src)))
    c.count(len(progs))
    c.run_progs(progs, tag="rustc")
