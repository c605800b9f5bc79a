"""C09: the derive rejects exactly the attribute combinations that break a usage rule.

Model: a declaration is a container (struct / enum with variants) with an ordered list of
attributes on every slot (container, variant, field). `rules(decl)` is the rule book,
written down independently of the code. Every declaration with at most N attributes out of
an alphabet, over a set of shapes, is expanded by the real derive (host build) and the
verdict and the set of generated impls are compared; a subset goes through rustc."""
from .core import CRATE_HEAD, Check, Host, Prog, log, MachineryError

# kind -> text.  Kinds: msg, amb (a message that is ambiguous in a tuple), transparent, fmt, source, from, backtrace,
# bad (invalid wherever it stands), none (ignored)
A = [("msg", '#[error("m")]'), ("msg", '#[error("{x}", x = 1)]'), ("amb", '#[error("{0}", 1)]'), ("transparent", "#[error(transparent)]"), ("fmt", "#[error(fmt = f)]"),
     ("source", "#[source]"), ("from", "#[from]"), ("backtrace", "#[backtrace]"),
     ("bad", "#[error]"), ("bad", "#[error()]"), ("bad", '#[error = "m"]'), ("bad", "#[error(m)]"), ("bad", "#[error(transparent, x)]"), ("bad", "#[error(fmt)]"),
     ("bad", "#[error(fmt = f, 1)]"), ("bad", "#[error(transparent = 1)]"), ("bad", "#[error(, \"m\")]"), ("bad", "#[error(1)]"), ("bad", "#[error(fmt(f))]"), ("bad", "#[error(fmt = \"m\")]"),
     ("bad", "#[source(x)]"), ("bad", '#[source = "x"]'), ("bad", "#[backtrace()]"), ("bad", "#[backtrace = 1]"),
     ("none", "#[from(x)]"), ("none", "#[from = 1]"), ("none", "#[from()]"), ("none", "#[other::source]"), ("none", "#[doc(hidden)]"), ("none", "#[error::from]")]
CORE = [A[0], A[2], A[3], A[4], A[5], A[6], A[7], A[20], A[24]]
FOUR = [A[0], A[3], A[4], A[5], A[6], A[7]]

# field types: text, is named Backtrace, has a non-'static lifetime in a place the rule covers
TYPES = [("E", 0, 0), ("Backtrace", 1, 0), ("std::backtrace::Backtrace", 1, 0), ("Backtrace<E>", 0, 0), ("B<'a>", 0, 1), ("B<'static>", 0, 0), ("&'a E", 0, 1), ("&'static E", 0, 0),
         ("Option<B<'a>>", 0, 1), ("Option<&'a E>", 0, 1), ("Option<&'static E>", 0, 0), ("m::B<E, 'a>", 0, 1), ("Box<dyn Error + 'static>", 0, 0), ("Option<Option<B<'static, 'a>>>", 0, 1),
         ("m::Backtrace", 1, 0), ("Option<Backtrace>", 0, 0), ("&'static Backtrace", 0, 0), ("[E; 1]", 0, 0), ("fn(E) -> E", 0, 0), ("B<3>", 0, 0), ("B<{ 1 }, 'a>", 0, 1), ("B<T = E>", 0, 0), ("m::Backtrace<'a>", 0, 1)]
TYPES = [t for t in TYPES if "T =" not in t[0] and "E, 'a" not in t[0] and "}, 'a" not in t[0]]
E, BT, BA, RA = TYPES[0], TYPES[1], TYPES[4], TYPES[6]


class Body:
    """Attributes and fields of a struct or of a variant."""
    def __init__(self, style, fields):
        self.style, self.fields = style, fields      # style: s named, t tuple, u unit; fields: [(name, type)]


def dup(attrs):
    seen = set()
    for k, _ in attrs:
        k = "msg" if k == "amb" else k
        if k == "bad":
            return True
        if k == "none":
            continue
        if k in seen:
            return True
        seen.add(k)
    return False


def kinds(attrs):
    return {"msg" if k == "amb" else k for k, _ in attrs if k != "none"}


def rules_top(k):
    """Attributes on a struct, enum or variant."""
    return bool(k & {"source", "from", "backtrace"}) or len(k & {"msg", "transparent", "fmt"}) > 1


def rules_fields(body, fattrs):
    if any(dup(a) for a in fattrs):
        return True
    ks = [kinds(a) for a in fattrs]
    if any(k & {"msg", "transparent", "fmt"} for k in ks):
        return True
    for which in ("source", "from", "backtrace"):
        if sum(which in k for k in ks) > 1:
            return True
    fr = next((i for i, k in enumerate(ks) if "from" in k), None)
    so = next((i for i, k in enumerate(ks) if "source" in k), None)
    bt = next((i for i, k in enumerate(ks) if "backtrace" in k), None)
    if fr is not None:
        if so is not None and so != fr:
            return True
        if bt is not None:
            allowed = {fr, bt}
        else:
            # one backtrace found by its type may stand next to it
            b = next((i for i, f in enumerate(body.fields) if i != fr and f[1][1]), None)
            allowed = {fr} if b is None else {fr, b}
        if set(range(len(ks))) - allowed:
            return True
    s = so if so is not None else fr
    return s is not None and bool(body.fields[s][1][2])


def ambiguous(attrs, body):
    return any(k == "amb" for k, _ in attrs) and body.style == "t" and body.fields != []


def dontcare(body, fattrs):
    """from on a Backtrace-typed field itself: either answer is fine (nothing can be converted from)"""
    return any("from" in kinds(a) and f[1][1] for a, f in zip(fattrs, body.fields))


def judge_struct(cont, body, fattrs):
    """-> None: rejected, else (displays, froms)"""
    if dup(cont) or rules_top(kinds(cont)) or ambiguous(cont, body):
        return None
    k = kinds(cont)
    if "fmt" in k:
        return None
    if "transparent" in k and (len(fattrs) != 1 or any("source" in kinds(a) for a in fattrs)):
        return None
    if rules_fields(body, fattrs):
        return None
    return (1 if k else 0, sum("from" in kinds(a) for a in fattrs))


def judge_enum(cont, variants):
    """variants: [(attrs, body, fattrs)]; -> None, "any", or (displays, froms)"""
    if dup(cont) or rules_top(kinds(cont)):
        return None
    top = kinds(cont)
    own = [kinds(a) & {"msg", "transparent", "fmt"} for a, _, _ in variants]
    froms = 0
    for (a, body, fattrs), o in zip(variants, own):
        if dup(a) or rules_top(kinds(a)):
            return None
        eff = o or top
        if ambiguous(a if o else cont, body):
            return None
        if "transparent" in eff and (len(fattrs) != 1 or any("source" in kinds(x) for x in fattrs)):
            return None
        if rules_fields(body, fattrs):
            return None
        froms += sum("from" in kinds(x) for x in fattrs)
    if top:
        return (1, froms)
    if any(o & {"msg", "fmt"} for o in own):
        return (1, froms) if all(own) else None
    if all("transparent" in o for o in own):
        return (1, froms)
    if any(own):
        return "any"        # transparent next to nothing: left to rustc
    return (0, froms)


def text(attrs):
    return " ".join(t for _, t in attrs)


def body_text(body, fattrs):
    fs = ", ".join("%s %s%s" % (text(a), n + ": " if n else "", t[0]) for a, (n, t) in zip(fattrs, body.fields))
    return {"s": " { %s }", "t": "(%s)", "u": "%s"}[body.style] % fs


def struct_text(cont, body, fattrs, kw="struct"):
    return "%s %s S<'a>%s%s" % (text(cont), kw, body_text(body, fattrs), "" if body.style == "s" else ";")


def enum_text(cont, vs):
    return "%s enum S<'a> { %s }" % (text(cont), ", ".join("%s V%d%s" % (text(a), i, body_text(b, f)) for i, (a, b, f) in enumerate(vs)))


def named(*ts, names=("source", "x", "backtrace", "y")):
    return Body("s", list(zip(names, ts)))


def tup(*ts):
    return Body("t", [(None, t) for t in ts])


UNIT = Body("u", [])


def place(ch, slots, n, alpha):
    """Puts n attributes of alpha on the slots, in every order; the slot sequence is
    non-decreasing so that every placement appears once."""
    lo = 0
    for _ in range(n):
        s = lo + ch(len(slots) - lo)
        lo = s
        slots[s].append(ch(alpha))


OK_TYPES = {"E": "E", "B<'static>": "B<'static>", "&'static E": "&'static E"}


def with_rustc(c, batch):
    """The same verdicts by rustc with the real proc macro crate."""
    import re
    progs, wants = [], []
    head = "mod ty { #[derive(Debug)] pub struct E; #[derive(Debug)] pub struct B<'a>(pub &'a u8); impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } } impl std::error::Error for E {} impl<'a> std::fmt::Display for B<'a> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } } impl<'a> std::error::Error for B<'a> {} }\n"
    for t, want, why in batch:
        if want == "any" or "other::" in t or "error::from" in t or "#[doc" in t or "union" in t:
            continue
        if "Backtrace" in t or "m::" in t or "dyn" in t:
            continue
        if want is not None and ("dyn" in t or "[E" in t or "fn(" in t or "B<3>" in t or "'a E" in t or "B<'a>" in t or "Option<" in t or "fmt =" in t or '"{0}"' in t):
            continue            # the types are not the derive's business
        src = "use crate::ty::*; #[derive(Debug, ::thiserror::Error)] " + t.replace("S<'a>", "S" if "'a" not in t.replace("S<'a>", "") else "S<'a>")
        if want is not None:
            if want[0] == 0:
                src += "\nimpl ::std::fmt::Display for S { fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result { Ok(()) } }"
            if want[1] > 1:
                continue        # conflicting From impls of one type
            src += "\nfn e(s: S) -> Box<dyn ::std::error::Error> { Box::new(s) }"
            if want[1]:
                src += "\nfn f(x: E) -> S { x.into() }"
                if "#[from] E" not in re.sub(r"#\[(source|backtrace|from\(.*?\)|from = 1)\] ?", "", t):
                    continue
            if "backtrace]" in t:
                continue
        else:
            src += "\nfn e(s: &S) -> &dyn ::std::error::Error { s }"
        progs.append(Prog(t, src))
        wants.append(want)
    n = [0, 0]
    for p, want, d in zip(progs, wants, c.diagnose(progs, head=CRATE_HEAD + head, tag="rules")):
        errs = [m for l, m, _ in d if l.startswith("error")]
        n[want is None] += 1
        if want is None and not errs:
            c.direct_violation(p.id, "rustc accepts it although it breaks a rule", [], p.src + "\n")
        elif want is not None and errs:
            c.direct_violation(p.id, "breaks no rule but rustc reports errors", errs[:3], p.src + "\n")
    c.stats["rustc accepted"], c.stats["rustc rejected"] = n


def run(tier=None):
    c = Check("C09", "model_checking", tier)
    h = Host("full").build()
    th = c.thorough
    batch, seen = [], set()

    def add(txt, verdict, why):
        if txt not in seen:
            seen.add(txt)
            batch.append((txt, verdict, why))

    # --- structs --------------------------------------------------------------------
    shapes = [UNIT, Body("s", []), Body("t", []), tup(E), named(E), tup(BT), named(BA), tup(RA), tup(E, E), named(E, E), tup(E, BT), tup(BT, E), named(E, E, BT), tup(E, BT, BT), named(BT, E, names=("x", "source"))]

    def structs(shapes, n, alpha):
        def fn(ch):
            body = ch(shapes)
            k = ch(n + 1)
            cont, fattrs = [], [[] for _ in body.fields]
            place(ch, [cont] + fattrs, k, alpha)
            if dontcare(body, fattrs):
                return None
            return struct_text(cont, body, fattrs), judge_struct(cont, body, fattrs)
        for t, v in c.explore(fn):
            add(t, v, "struct")
    structs(shapes, 2, A)
    structs([tup(E), named(E, E), tup(E, BT), UNIT], 3, CORE)
    structs([tup(E, E, BT)], 4 if th else 3, FOUR)
    if th:
        structs(shapes, 3, CORE)
        structs([named(E), tup(E)], 4, CORE)
        structs([tup(E), named(E, BT), UNIT], 3, A)
        structs([tup(E, E, E, BT), tup(BT, E, BT, E), named(BA, E, BT)], 4, FOUR)

    # field types: every type in every position of a small struct, with every role
    def types(ch):
        t = ch(TYPES)
        other = ch([None, E, BT])
        order = ch(2) if other else 0
        fs = [t] if other is None else ([t, other] if order == 0 else [other, t])
        body = tup(*fs) if ch.flag() else named(*fs, names=("x", "y"))
        cont, fattrs = [ch([A[0], A[3]])], [[] for _ in fs]
        place(ch, fattrs, ch(3), CORE[4:7])
        if dontcare(body, fattrs):
            return None
        return struct_text(cont, body, fattrs), judge_struct(cont, body, fattrs)
    for t, v in c.explore(types):
        add(t, v, "type")

    # --- enums -----------------------------------------------------------------------
    def enums(bodies, base, n, alpha, at_enum=True):
        """bodies: variant bodies; base: attributes that are there from the start ("m": a message on every variant ..)"""
        def fn(ch):
            cont = list(base[0])
            vs = [(list(base[1][i]), b, [[] for _ in b.fields]) for i, b in enumerate(bodies)]
            slots = ([cont] if at_enum else []) + [s for a, b, f in vs for s in [a] + f]
            k = ch(n + 1)
            if not slots and k:
                return None
            place(ch, slots, k, alpha)
            if any(dontcare(b, f) for a, b, f in vs):
                return None
            return enum_text(cont, vs), judge_enum(cont, vs)
        for t, v in c.explore(fn):
            add(t, v, "enum")

    m, tr, fm, amb = [A[0]], [A[3]], [A[4]], [A[2]]
    sets = [[], [tup(E)], [named(E)], [UNIT], [UNIT, tup(E)], [tup(E), UNIT], [tup(E), tup(E)], [named(E, E), tup(E)], [tup(E), named(E, BT)], [tup(BA), UNIT]]
    for bodies in sets:
        k = len(bodies)
        bases = [([], [[]] * k), ([], [m] * k), (m, [[]] * k), (tr, [[]] * k), ([], [tr] * k), (fm, [[]] * k), (amb, [[]] * k)]
        if k == 2:
            bases += [([], [m, []]), ([], [[], m]), ([], [tr, m]), ([], [fm, tr]), (tr, [m, []]), (tr, [[], m]), (m, [tr, []]), (amb, [m, []]), (amb, [[], fm])]
        for b in bases:
            enums(bodies, b, 1, A)
            enums(bodies, b, 2, CORE)
            if th:
                enums(bodies, b, 2, A)
                if len(bodies) < 2 or b in bases[:3]:
                    enums(bodies, b, 3, CORE if len(bodies) < 2 else FOUR)
    # the same offence at every position among three and four variants
    for k in (3, 4, 12) if not th else (3, 4, 5, 6, 12, 23):
        for j in range(k) if k < 12 else (0, 1, 2, 9, 10, 11, k - 1):
            for odd in (tup(E), named(E, E), tup(E, BT), UNIT, named(BA)):
                for other in (UNIT, tup(E)):
                    bodies = [odd if i == j else other for i in range(k)]
                    for b in (([], [m] * k), (m, [[]] * k), ([], [m if i != j else [] for i in range(k)]), ([], [tr if i % 2 else m for i in range(k)]), ([], [[]] * k)):
                        def fn(ch):
                            vs = [(list(b[1][i]), x, [[] for _ in x.fields]) for i, x in enumerate(bodies)]
                            a, x, f = vs[j]
                            place(ch, [a] + f, ch(3 if th else 2), CORE)
                            if dontcare(x, f):
                                return None
                            return enum_text(b[0], vs), judge_enum(b[0], vs)
                        for t, v in c.explore(fn):
                            add(t, v, "position")
    # several fields: the offending ones at every pair of positions
    for k in (3, 4, 5, 12):
        def fn(ch):
            fs = [[] for _ in range(k)]
            for _ in range(2):
                fs[ch(k)].append(ch(CORE[4:8]))
            body = (tup if ch.flag() else lambda *t: named(*t, names=tuple("abcdefghijkl"[:k])))(*[E] * k)
            if ch.flag():
                return struct_text(m, body, fs), judge_struct(m, body, fs)
            vs = [(m, UNIT, []), (m, body, fs)]
            return enum_text([], vs), judge_enum([], vs)
        for t, v in c.explore(fn):
            add(t, v, "fields")
    # unions
    for cont in ([], m, tr, fm):
        for f in ([], [A[5]], [A[6]]):
            b = named(E, E)
            add(struct_text(cont, b, [f, []], "union"), None, "union")
    # messages that mix numbers and arguments, by container
    placeholders = ["{0}", "{1}", "{x}", "{}", "{0:?}", "{:0}", "{{0}}", "{x:0$}", "{x}{0}", "{ 0}", "{0:>5}", "{{{0}}}", "{x} {1:?}"]
    arglists = ["", ",", ", 1", ", x = 1", ", 1, x = 1", ", x = 1, 2", ", x == 1", ", r#x = 1", ", .x", ", .x,", ", f(x = 1)", ", a::<B, C>(1)", ", |a, b| 1", ", x = 1, y = 2", ", match x { a => 1 }", ", x = S { y: 1 }, z = 2"]
    for p in placeholders:
        num = p.replace("{{", "").replace("}}", "")
        numbered = any(("{" + d) in num for d in "01")
        for al in arglists:
            positional = al not in ("", ",", ", x = 1", ", r#x = 1", ", x = 1, y = 2", ", x = S { y: 1 }, z = 2")
            at = ("amb" if numbered and positional else "msg", "#[error(\"%s\"%s)]" % (p, al))
            for body in (UNIT, tup(E, E), tup(E), tup(), named(E, E), named()):
                add(struct_text([at], body, [[]] * len(body.fields)), judge_struct([at], body, [[]] * len(body.fields)), "ambiguous")
                for cont, va in (([at], []), ([], [at])):
                    vs = [(va, body, [[]] * len(body.fields)), (m, UNIT, [])]
                    add(enum_text(cont, vs), judge_enum(cont, vs), "ambiguous")

    log("[C09] %d declarations at %.1fs" % (len(batch), __import__("time").time() - c.t0))
    res = h.judge([t for t, _, _ in batch])
    outcomes = {}
    for (t, want, why), r in zip(batch, res):
        key = (why, want is None)
        outcomes[key] = outcomes.get(key, 0) + 1
        if r[0] not in ("O", "E"):
            problem = "driver says %r" % (r,)
        elif want == "any":
            continue
        elif want is None:
            problem = None if r[0] == "E" else "breaks a rule but is accepted"
            if not problem and not r[2].startswith("1,1,"):
                problem = "rejected, but generates %s (Error, Display, From, ..)" % r[2]
        elif r[0] == "E":
            problem = "breaks no rule but is rejected: %s" % r[3]
        else:
            w = "1,%d,%d,0,0" % want
            problem = None if r[2] == w else "generates %s, expected %s (impls of Error, Display, From, other items, foreign types)" % (r[2], w)
        if problem:
            c.direct_violation(t, problem, [], "//@input %s\n" % t)
    c.cov["traces_validated_against_impl"] += len(batch)
    c.cov["distinct_outcomes"] = len({r[1] for r in res})
    c.sample(batch[100][0])
    c.sample(batch[-1][0])
    log("[C09] %s" % {"%s %s" % (k[0], "rejected" if k[1] else "accepted"): v for k, v in sorted(outcomes.items())})
    with_rustc(c, [b for b in batch if b[2] in ("struct", "enum", "type") and len(b[0]) < (110 if th else 68)])
    rej = sum(v for k, v in outcomes.items() if k[1])
    if rej < 1000 or len(batch) - rej < 1000:
        raise MachineryError("one side of the rule book was hardly visited")
    return c.finish(rule="the rule book over all attribute placements within the bounds", rejected=rej, accepted=len(batch) - rej, through_rustc=c.stats)
