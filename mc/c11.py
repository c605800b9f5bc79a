"""C11: the expansion is the same whether syn's "full" feature is on or off.

Every argument list of the enumerations goes through the derive built with syn/full and the
derive built without; a full Rust parser says which lists consist of valid expressions."""
import concurrent.futures as cf
import os
import re
import subprocess
from .core import Check, Host, log, MachineryError, clean_env, JOBS

US = "\x1f"
TOK = ["x", "0", "0.0", "'a", "(x)", "[x]", "{ x }", "{}", ",", ".", "..", "..=", "=", "==", "|", "||", "&", "&&", "*", "-", "!", "#[a]", "::", "<", ">", ">>", ">=", "<<", "->", "=>", "+=", "?", ":", ";",
       "as", "async", "await", "break", "const", "continue", "else", "for", "if", "in", "let", "loop", "match", "move", "mut", "raw", "ref", "return", "static", "unsafe", "while", "yield", "_", "self", "Self", "crate",
       "dyn", "impl", "fn", "box", "r#x", "x!", "\"s\"", "b'c'", "1.", "@", "u8", "true", "x = ", "%", "^=", "...", "~", "$", "where", "auto", "union", "gen", "safe"]
T2 = ["x", "0", "'a", "(x)", "[x]", "{ x }", ",", ".", "..", "..=", "=", "==", "|", "||", "&", "*", "-", "!", "::", "<", ">", "->", "as", "async", "await", "break", "const", "continue", "else", "for", "if", "in", "let", "loop", "match", "move", "mut",
      "raw", "return", "static", "unsafe", "while", "_", "?", ":", "#[a]"]
T3 = ["x", "0", "(x)", "{ x }", "'a", ",", ".", "..", "=", "|", "&", "!", "::", "<", ">", "as", "if", "else", "match", "return", "break", "let", "for", "in", "move", "async", "-"]

# expression forms: @ is a hole for an expression, { } blocks are given
LEAVES = ["a", "0", "a::b", "::a::b", "a::<B, C>", "<A as B>::c", "<A<B, C> as D<E>>::f::<G>", "a::B::<C, { 1 }>::d", "()", "(a, b)", "[]", "[a, b]", "{ a }", "a!()", "a::b![c, d]", "a!{ c }", "S {}", "S { x: 1 }", "S { x, y: 2, ..z }", "S::<A, B> { x: 1, }",
          "\"s\"", "b\"s\"", "c\"s\"", "'c'", "b'c'", "1.0", "1e3", "0x1F_u8", "true", "self", "Self", "self::a", "r#fn", "_", "..", "return", "break", "continue", "break 'a", "continue 'a", ".x", ".0", ".0.1", ".r#fn",
          "if a { b }", "if a { b } else { c }", "if a { b } else if c { d } else { e }", "if let A = b { c }", "if let A | B = c && d { e } else { f }", "match a { b => c, d => e }", "match a {}", "match a { B { x } if c => d, _ => {} }", "loop { a }", "'a: loop { a }", "while a { b }",
          "'a: while let A(b, c) = d { e }", "for a in b { c }", "'a: for (a, b) in c { d }", "for [a, ..] in 0..b { c }", "for A { x, .. } in b { c }", "for &mut ref a in b { c }", "for a @ 1..=2 in b { c }", "for A::<B, C>(x) in d {}", "'a: { b }", "unsafe { a }", "async { a }", "async move { a }", "const { a }",
          "|| a", "|a| b", "|a, b| c", "|a: B<C, D>, (e, f)| g", "|a| -> B { c }", "|| -> B<C, D> { c }", "move |a| b", "async |a| b", "async move |a| b", "static |a| b", "static move || a", "const |a| b", "for<'a> |a: &'a B| -> &'a C { d }", "for<'a, 'b> move || -> () { a }",
          "|&a| b", "|A { x, y }| b", "|[a, b]| c", "|A(B | C)| d", "|a: impl Fn(B, C) -> D| e", "(|a| b)(c)", "yield", "yield a", "a = b", "a += b", "a <<= b", "let A = b", "&raw const a", "&raw mut a", "raw", "&raw", "&raw + a"]
FORMS = ["-@", "!@", "*@", "&@", "&mut @", "&&@", "&raw const @", "&raw mut @", "(@)", "(@,)", "[@]", "[@; a]", "{ @ }", "{ @; a }", "@ + a", "a + @", "@ == a", "a < @", "@ < a", "a > @", "a && @", "@ || a", "a | @", "@ | a", "a = @", "@ = a", "a -= @", "@ >>= a", "@ << a", "a >> @",
         "@ as b", "@ as B<C, D>", "@ as *const B", "@ as fn(a) -> B", "@ as B < c", "@ as usize + b", "@?", "@.x", "@.0", "@.0.1", "@.await", "@.m()", "@.m::<A, B>(a, b)", "@.m(c)?.n", "@(a)", "@[a]", "a(@)", "a[@]", "a(@, b)", "a.m(@)", "@..", "..@", "..=@", "a..@", "@..a", "a..=@", "@..=a",
         "return @", "break @", "break 'a @", "yield @", "if @ { b }", "if @ { b } else { c }", "if a { @ } else { c }", "if let A = @ { b }", "if a && let B = @ { c }", "match @ { a => b }", "match a { b => @ }", "match a { b if @ => c, d => e }", "while @ { a }", "'a: while @ {}", "for a in @ { b }",
         "|a| @", "move || @", "async |a| @", "|a: B| -> C { @ }", "for<'a> |a| @", "unsafe { @ }", "async { @ }", "const { @ }", "'a: { @ }", "loop { @ }", "S { x: @ }", "S { x: @, ..y }", "S { ..@ }", "#[a] @", "a!(@)", "let A = @", "@ { a }", "@!", "a @", "@ % b", "@ ^ b", "a * @", "@ - a", "@ & a", "a & @", "a && &@", "@ != a", "@ <= a", "a >= @", "@ + 'a: loop { break 'a }"]
UNSTABLE = re.compile(r"const (async |move |static |\|)")     # closures that no stable compiler accepts
SUFFIX = ["", ", x = 1", ", y == 1, x = 2", ",", ", b"]


def fits(form, e):
    return form.replace("@", e)


def run(tier=None):
    c = Check("C11", "model_checking", tier)
    full, mini = Host("full").build(), Host("min").build()
    th = c.thorough
    lists = []
    l1 = list(dict.fromkeys(LEAVES + [fits(f, "a") for f in FORMS]))
    l2 = list(dict.fromkeys(fits(f, e) for f in FORMS for e in l1))
    for e in l1:
        for s in SUFFIX:
            for p in ("", "y = "):
                lists.append(", %s%s%s" % (p, e, s))
        for e2 in l1:
            lists.append(", %s, %s, x = 1" % (e, e2))
    for e in l2:
        for s in SUFFIX[:3]:
            lists.append(", %s%s" % (e, s))
        lists.append(", x = %s, y = 1, z" % e)
    short = ["a", "S { x: 1 }", "if a { b }", "a < b", "|a, b| c", "a as B", "..", "return", "match a { b => c }", "a..b", "{ a }", "'a: loop { break }", "a::<B, C>", "-a", "{ a } + b", "if a { b } else { c }", ".x", "async { a }", "break 'a", "&a"]
    if th:
        n = 0
        for f1 in FORMS:
            for e in l2:
                lists.append(", %s, x = 1" % fits(f1, e))
    else:
        for f1 in FORMS:
            for f2 in FORMS:
                for e in short:
                    lists.append(", %s, x = 1" % fits(f1, fits(f2, e)))
    # types after `as` and in closures
    types = ["A", "a::B", "::a::B<C>", "A<B, C>", "<A as B>::C", "&A", "&'a mut A", "*const A", "*mut A", "[A]", "[A; 2]", "(A, B)", "()", "!", "_", "fn(A, B) -> C", "unsafe extern \"C\" fn()", "for<'a> fn(&'a A)", "dyn A", "dyn A + B", "dyn for<'a> A<'a>", "impl A", "A(B, C) -> D", "Fn(A) -> B", "A<{ 1 }>", "A<B = C>", "A<-1>", "A<B: C>", "a!()",
             "(A)", "A::<B, C>", "A<'a, B>", "dyn Fn(A, B) -> C", "A<(B, C)>", "A<dyn B>", "A<B<C<D, E>>>", "*const *mut A", "&&A", "&mut &A"]
    after = ["", " + b", " < b", " << b", " > b", " == b", " | b", "..b", " as D", "?", " = b", ", x = 1", " && b", " { y: 1 }", ".x", "[0]", "(a, b)", ": b"]
    for t in types:
        for a in after:
            for pre in ("a as ", "(a) as ", "a + b as ", "a.b as ", "*a as "):
                for s in ("", ", x = 1"):
                    lists.append(", %s%s%s%s" % (pre, t, a, s))
        for s in ("", ", x = 1", " + a", ".x, b", "(a, b), c"):
            if t != "dyn A + B":        # no closure can return that
                lists.append(", || -> %s { a }%s" % (t, s))
            lists.append(", |a: %s, b| c%s" % (t, s))
            lists.append(", |_: %s| c%s" % (t, s))
            lists.append(", a::<%s>%s" % (t, s))
            lists.append(", a::<%s, B>::c%s" % (t, s))
            lists.append(", a.b::<%s, B>()%s" % (t, s))
            lists.append(", <%s>::a%s" % (t, s))
            lists.append(", <%s as A<B, C>>::a%s" % (t, s))
            lists.append(", for<'a> |a: %s| -> %s { b }%s" % (t, t if t != "dyn A + B" else "A", s))
    pats = ["a", "_", "ref a", "mut a", "ref mut a", "a @ b", "a @ 0..=1", "&a", "&mut a", "(a, b)", "[a, .., b]", "A", "A(b, c)", "A { x, y: z, .. }", "a::B", "<A as B>::C", "0", "-1", "0..=1", "0..", "..=1", "..1", "a..=b", "\"s\"", "A | B", "| A | B", "(A | B)", "&&a", "a!()", "!", "box a", "A::<B, C>(d)", "A::<B> { x }", "..", "true", "'a'", "-1..=-1", "a::B..=c::D", "&A::B(ref c)", "&[a, b]", "[]", "()", "A {}", "0..=1 | 3", "(a @ (1 | 2))"]
    for p in pats:
        for s in ("", ", x = 1", " + a, b"):
            for f in ("for %s in a { b }", "if let %s = a { b }", "if let %s = a { b } else { c }", "while let %s = a { b }", "|%s| a", "|%s, b| a", "match a { %s => b, c => d }", "if let %s = a && let B = c { d }", "'a: for %s in S { x: 1 } { b }", "move |%s: A| { b }", "let %s = a", "if a && let %s = b {} else if let %s = c { d }", "for %s in if a { b } else { c } { d }"):
                lists.append(", " + f.replace("%s", p) + s)
    lists = [l for l in dict.fromkeys(lists) if not UNSTABLE.search(l)]
    # token sequences, a following argument makes visible where the expression ended
    specs = ["%d\t, @@\t%s" % (3, US.join(TOK)), "%d\t, @@ , x = 1\t%s" % (3, US.join(TOK)), "%d\t, @@ , x = 1\t%s" % (4, US.join(T2 if th else T3)), "3\t, x = @@\t%s" % US.join(T2), "%d\t, a as @@ , x = 1\t%s" % (3, US.join(T2)), "%d\t, for @@ { b }, x = 1\t%s" % (3, US.join(T2)),
             "3\t, if @@ { b }, x = 1\t%s" % US.join(T2), "3\t, match @@ { b => c } , x\t%s" % US.join(T2), "3\t, || @@, x = 1\t%s" % US.join(T2), "3\t, | @@ | b, x = 1\t%s" % US.join(T2), "3\t, a . @@, x = 1\t%s" % US.join(T2), "3\t, a @@ b, x = 1\t%s" % US.join(T2), "3\t, if @@ { a } else { b } , x = 1\t%s" % US.join(T3)]
    if th:
        specs += ["5\t, @@ , x = 1\t%s" % US.join(T3), "4\t, @@\t%s" % US.join(T2), "4\t, a as @@ , x = 1\t%s" % US.join(T3), "4\t, a @@ b, x = 1\t%s" % US.join(T3), "4\t, if @@ { b } , x = 1\t%s" % US.join(T3), "4\t, for @@ { b } , x = 1\t%s" % US.join(T3), "4\t, | @@ b, x = 1\t%s" % US.join(T3)]
    tot = val = 0
    out = lambda k, i: os.path.join(c.work, "args-%s-%d.txt" % (k, i))
    for l in full.enumerate("args", specs + lists, c.work, extra=lambda i: [out("full", i)]):
        tot += int(l.split("\t")[1])
    log("[C11] %d lists, syn/full done at %.1fs" % (tot, __import__("time").time() - c.t0))

    def other(i):
        p = subprocess.run([mini.exe, "lists", out("full", i), out("min", i)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=clean_env(), timeout=850)
        if not p.stdout.startswith("DONE"):
            raise MachineryError("driver: %s" % p.stderr[-500:])
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(other, range(JOBS)))
    distinct = set()
    for i in range(JOBS):
        with open(out("full", i)) as fa, open(out("min", i)) as fb:
            for x, y in zip(fa, fb):
                if UNSTABLE.search(x):
                    continue
                val += 1
                if len(distinct) < 500000:
                    distinct.add(x[:16])
                if x != y:
                    lst = x.rstrip("\n").split("\t", 1)[1]
                    det = []
                    if len(c.violations) < 30:
                        f = os.path.join(c.work, "one.txt")
                        open(f, "w").write(x)
                        show = [subprocess.run([h.exe, "lists", f, f + ".out"], env=clean_env(MC_SHOW="1"), stdout=subprocess.PIPE, text=True).stdout.split("\n") for h in (full, mini)]
                        det = ["full: %s   min: %s" % (p.strip()[:700], q.strip()[:700]) for p, q in zip(*show) if p != q][:1]
                    c.direct_violation(lst, "expands differently with and without syn/full", det, "//@list %s\n" % lst)
        os.remove(out("full", i))
        os.remove(out("min", i))
    c.count(tot)
    c.cov["traces_validated_against_impl"] += 2 * val
    c.cov["distinct_outcomes"] = len(distinct)
    for l in lists[::max(1, len(lists) // 6)]:
        c.sample(l)
    if val < 20000:
        raise MachineryError("hardly any list was valid: %d of %d" % (val, tot))
    log("[C11] %d lists, %d valid" % (tot, val))
    return c.finish(rule="argument lists a full parser accepts expand to the same tokens in both builds", lists=tot, valid=val)
