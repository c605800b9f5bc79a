"""C01: Display message equals the documented write! of the fields."""
import itertools
from .core import Check, Prog, rust_str

SPECS = ["", ":", ":?", ":#?", ":x", ":X", ":#x", ":o", ":#o", ":b", ":e", ":E", ":p", ":#p",
         ":>5", ":<5", ":^7", ":*^9", ":05", ":+", ":-", ":#", ":.2", ":8.3", ":#010b", ":x?", ":X?", ":#x?", ":+09.4?",
         ":?>4", ":x>4", ":p<6", ":e^3x", ":0>4e", " ", ": ", ":? ", ":p ", ":x  ", ":>5 ", ":08.3E ", ": >7", ": ^3?", ":}<4"]
LITS = ["a", " ", "é", "\n", ":", "0", "?", "x", "'\"\\"]


def t_lit(s):
    return ("lit", s)


def t_ph(i, spec):
    return ("ph", i, spec)


OPEN, CLOSE = ("lit", "{"), ("lit", "}")


class Shape:
    """names: list of field names, or None for a tuple of n fields."""

    def __init__(self, key, n, names=None, ty="P", vals=None):
        self.key, self.n, self.names, self.ty = key, n, names, ty
        self.vals = vals or ["P(%d)" % (i + 1) for i in range(n)]

    def decl(self):
        if self.n == 0 and self.names is None:
            return ""
        if self.names is None:
            return "(" + ", ".join([self.ty] * self.n) + ")"
        return "{ " + ", ".join("%s: %s" % (n, self.ty) for n in self.names) + " }"

    def val(self):
        if self.n == 0 and self.names is None:
            return ""
        if self.names is None:
            return "(" + ", ".join(self.vals) + ")"
        return "{ " + ", ".join("%s: %s" % (n, v) for n, v in zip(self.names, self.vals)) + " }"

    def ref(self, i):
        return str(i) if self.names is None else self.names[i]


def render_msg(shape, toks):
    out = []
    for t in toks:
        if t[0] == "lit":
            out.append(t[1].replace("{", "{{").replace("}", "}}"))
        elif t[0] == "name":
            out.append("{%s%s}" % (t[1], t[2]))
        else:
            out.append("{%s%s}" % (shape.ref(t[1]), t[2]))
    return "".join(out)


def render_oracle(shape, toks, field=lambda i: "*f%d" % i):
    """Explicit positional arguments only: independent of the derive's translation."""
    out, args = [], []
    for t in toks:
        if t[0] == "lit":
            out.append(t[1].replace("{", "{{").replace("}", "}}"))
            continue
        a = field(t[1]) if t[0] == "ph" else t[3]
        out.append("{%d%s}" % (len(args), t[2]))
        args.append(a)
    return ", ".join([rust_str("".join(out))] + args)


HEADER = "use ::thiserror::Error; use ::mc::P;\n"
DBG = "impl ::core::fmt::Debug for %s { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str(\"DBG\") } }\n"


def enum_prog(id, shape, seqs, lit=rust_str, extra=""):
    o = [HEADER, extra, "#[derive(Error)]\npub enum E {\n"]
    for i, s in enumerate(seqs):
        o.append("#[error(%s)] V%d%s,\n" % (lit(render_msg(shape, s)), i, shape.decl()))
    o.append("}\n" + DBG % "E")
    o.append("pub fn run(c: &mut ::mc::Ctx) {\n")
    for i in range(shape.n):
        o.append("let f%d = &%s;" % (i, shape.vals[i]))
    for i, s in enumerate(seqs):
        o.append("{ let e = E::V%d%s; c.msg(%s, &e, format_args!(%s)); }\n" % (
            i, shape.val(), rust_str(render_msg(shape, s)), render_oracle(shape, s)))
    o.append("}")
    return Prog(id, "".join(o), len(seqs))


def struct_prog(id, shape, seqs, lit=rust_str, extra="", self_name=False):
    o = [HEADER, extra]
    for i, s in enumerate(seqs):
        semi = "" if shape.names is not None else ";"
        o.append("#[derive(Error)] #[error(%s)] pub struct S%d%s%s\n" % (lit(render_msg(shape, s)), i, shape.decl(), semi))
        o.append(DBG % ("S%d" % i))
    o.append("pub fn run(c: &mut ::mc::Ctx) {\n")
    for i in range(shape.n):
        o.append("let f%d = &%s;" % (i, shape.vals[i]))
    for i, s in enumerate(seqs):
        o.append("{ let e = S%d%s; c.msg(%s, &e, format_args!(%s)); }\n" % (
            i, shape.val(), rust_str(render_msg(shape, s)), render_oracle(shape, s)))
    o.append("}")
    return Prog(id, "".join(o), len(seqs))


def group(make, id, shape, seqs, size, **kw):
    seqs = list(seqs)
    return [make("%s/%s/%d" % (id, shape.key, k), shape, seqs[k:k + size], **kw) for k in range(0, len(seqs), size)]


def run(tier=None):
    c = Check("C01", "model_checking", tier)
    named = Shape("named", 2, ["x", "xy"])
    tup = Shape("tuple", 2)
    unit = Shape("unit", 0)
    bnamed = Shape("braced0", 0, [])
    progs = []

    def explore(key, shape, alphabet, depth, make, size, min_depth=0, **kw):
        """BFS over messages: a state is a token sequence, a transition appends a token."""
        states = c.bfs((), lambda s: [s + (t,) for t in alphabet] if len(s) < depth else [])
        sel = [s for s in states if len(s) >= min_depth]
        progs.extend(group(make, key, shape, sel, size, **kw))
        return len(sel)

    def full(n):
        return [t_lit(l) for l in LITS] + [OPEN, CLOSE] + [t_ph(i, s) for i in range(n) for s in SPECS]

    def reduced(n):
        specs = ["", ":?", ":x", ":>5", ":p", "  ", ":? "]
        return [t_lit("a"), t_lit(" "), t_lit("é"), OPEN, CLOSE, t_lit(":")] + [t_ph(i, s) for i in range(n) for s in specs[:7 if i == 0 else 4]]

    small = lambda n: [t_lit("a"), OPEN, CLOSE] + [t_ph(i, s) for i in range(n) for s in ["", ":?", ":p"]]
    tiny = lambda n: [t_lit("0"), OPEN, CLOSE, t_ph(0, ""), t_ph(n - 1, ":?")]

    # F1 every spec, pairs
    for sh in (named, tup):
        explore("full2", sh, full(2), 2, enum_prog, 80)
        explore("full1s", sh, full(2), 1, struct_prog, 20)
    # F2/F3 deeper over smaller alphabets
    if c.thorough:
        explore("red3", named, reduced(2), 3, enum_prog, 100, 3)
        explore("red3", tup, reduced(2), 3, enum_prog, 100, 3)
        explore("red2s", named, reduced(2), 2, struct_prog, 20, 2)
        explore("red2s", tup, reduced(2), 2, struct_prog, 20, 2)
        explore("small4", named, small(2), 4, enum_prog, 100, 4)
        explore("small4", tup, small(2), 4, enum_prog, 100, 4)
        explore("tiny6", named, tiny(2), 6, enum_prog, 100, 5)
        explore("tiny6", tup, tiny(2), 6, enum_prog, 100, 5)
        explore("small3s", named, small(2), 3, struct_prog, 25, 3)
        explore("small3s", tup, small(2), 3, struct_prog, 25, 3)
    else:
        explore("red3", named, reduced(2)[:11], 3, enum_prog, 100, 3)
        explore("small3", tup, small(2), 3, enum_prog, 100, 3)
        explore("red2s", tup, reduced(2), 2, struct_prog, 20, 2)
        explore("small2s", named, small(2), 2, struct_prog, 20, 2)
        explore("tiny4", named, tiny(2), 4, enum_prog, 100, 4)
        explore("tiny4", tup, tiny(2), 4, enum_prog, 100, 4)
    lits = [t_lit(l) for l in LITS] + [OPEN, CLOSE]
    for sh in (unit, bnamed):
        explore("lits", sh, lits, 3 if c.thorough else 2, enum_prog, 100)
        explore("litss", sh, lits, 2 if c.thorough else 1, struct_prog, 25)
    explore("lits", named, lits, 2, enum_prog, 100)
    explore("litss", tup, lits, 1, struct_prog, 25)

    # F5 every ASCII character (and some beyond) as literal text next to placeholders
    chars = [chr(i) for i in range(1, 128)] + list("é߀中😀ªﬁ\u0301\u200b\u00a0ſ")
    def char_toks(sh):
        for ch in chars:
            yield (t_lit(ch), t_ph(0, ""), t_lit(ch), t_ph(1, ":?"), t_lit(ch))
            yield (t_lit("a" + ch + "b"),)
            yield (t_ph(0, ":x"), t_lit(ch), t_lit(ch))
    for sh in (named, tup):
        seqs = list(char_toks(sh))
        c.count(len(seqs))
        progs += group(enum_prog, "chars", sh, seqs, 100)
    # every fill character, followed by every trait letter
    fills = [chr(i) for i in range(32, 127) if chr(i) not in "{}"] + list("é中")
    seqs = []
    for ch in fills:
        for a in "<^>" if c.thorough else ">":
            for tr in ["", "?", "x", "X", "o", "b", "e", "E", "p"] if c.thorough else ["", "?", "p"]:
                seqs.append((t_ph(0, ":%s%s4%s" % (ch, a, tr)), t_ph(1, ":%s%s%s" % (ch, a, tr))))
    c.count(len(seqs))
    progs += group(enum_prog, "fill", named, seqs, 100)
    progs += group(enum_prog, "fill", tup, seqs, 100)

    # F6 arity and names
    for n in list(range(1, 17)) + ([33, 101] if c.thorough else [33]):
        sh = Shape("t%d" % n, n)
        seqs = [tuple(t_ph(i, s) for i in range(n)) for s in ("", ":?", ":x", ":p", ":>9")]
        seqs += [tuple(t_ph(i, "") for i in reversed(range(n)))]
        seqs += [(t_ph(i, s), t_lit(str(i)), t_ph(n - 1 - i, ":?"), t_lit("1")) for i in range(n) for s in ("", ":X")]
        c.count(len(seqs))
        progs += group(enum_prog, "arity", sh, seqs, 40)
        progs += group(struct_prog, "aritys", sh, seqs[-2 * min(n, 6):] + seqs[:6], 12)
        nm = Shape("n%d" % n, n, ["f%d" % i for i in range(n)])
        progs += group(enum_prog, "arity", nm, seqs, 40)
        c.count(len(seqs))
    namesets = [["a", "ab", "abc", "a_b", "a1", "a12"], ["_a", "_1", "_0", "a_", "_a_", "a__"], ["A", "aA", "Aa", "AA", "A1", "a9Z"],
                ["source", "backtrace", "request", "transparent", "formatter", "fmt"], ["write", "core", "std", "field", "display", "pointer"],
                ["e", "x", "o", "b", "p", "E"], ["field_a", "display_a", "pointer_a", "a", "field0", "display0"],
                ["error", "from", "value", "this", "args", "f"], ["i32", "str", "u8", "bool", "usize", "char"], ["r", "br", "rb", "b2", "c", "cr"]]
    for k, ns in enumerate(namesets):
        sh = Shape("names%d" % k, len(ns), ns)
        seqs = [(t_ph(i, s), t_lit(" "), t_ph(j, "")) for i in range(len(ns)) for s in ("", ":?", ":x", ":p", ":>6") for j in range(len(ns))]
        seqs += [tuple(t_ph(i, s) for i in p) for p in itertools.islice(itertools.permutations(range(len(ns))), 0, 720, 24) for s in ("", ":?")]
        c.count(len(seqs))
        progs += group(enum_prog, "names", sh, seqs, 60)
        progs += group(struct_prog, "namess", sh, seqs[::7], 20)
    # F7 repetition of one token
    for n in ([1, 2, 3, 5, 8, 13, 21, 34, 64] if not c.thorough else range(1, 80)):
        seqs = [(t,) * n for t in small(2)] + [(t, u) * n for t in small(2) for u in small(2)[:4]]
        seqs += [(t_lit("z" * n), t_ph(0, "")), (t_ph(0, ""), t_lit("z" * n)), (t_lit("é" * n), t_ph(1, ":?"))]
        c.count(len(seqs))
        progs += group(enum_prog, "repeat", named if n % 2 else tup, seqs, 80)
    # F8 names that are not fields: items in scope and self
    scope = "pub const K: P = P(90); pub static ST: P = P(91); #[allow(non_upper_case_globals)] pub const k: P = P(92); pub const xyz: P = P(93);\n"
    seqs = []
    for nm, v in (("K", "K"), ("ST", "ST"), ("k", "k"), ("xyz", "xyz")):
        for s in SPECS:
            seqs.append((("name", nm, s, v),))
            if s in ("", ":?", ":p", ":x"):
                for i in range(2):
                    for s2 in ("", ":?"):
                        seqs.append((("name", nm, s, v), t_ph(i, s2), ("name", nm, s, v)))
    c.count(len(seqs))
    progs += group(enum_prog, "scope", named, seqs, 60, extra=scope)
    progs += group(enum_prog, "scope", tup, seqs, 60, extra=scope)
    progs += group(struct_prog, "scopes", named, seqs[::5], 20, extra=scope)
    selfs = []
    for s in (":?", ":#?", ":?  "):
        selfs.append((("name", "self", s, '::core::format_args!("DBG")'),))
        selfs.append((("name", "self", s, '::core::format_args!("DBG")'), t_ph(0, ""), ("name", "self", s, '::core::format_args!("DBG")'), t_ph(1, ":?")))
    c.count(len(selfs))
    progs += group(enum_prog, "self", named, selfs, 10)
    progs += group(struct_prog, "selfs", tup, selfs, 10)
    # F9 the same text written as other literal forms
    def esc(ch):
        def f(s):
            return '"' + "".join("\\x%02x" % ord(x) if ord(x) < 128 else "\\u{%x}" % ord(x) for x in s) + '"'
        return f
    def raw(s):
        return 'r##"' + s + '"##'
    def cont(s):
        return '"' + "\\\n      ".join(rust_str(x)[1:-1] for x in s) + '"' if s and not any(x.isspace() for x in s) else rust_str(s)
    seqs = list(itertools.product([t_lit("a"), OPEN, CLOSE, t_ph(0, ""), t_ph(1, ":?"), t_lit("\\x7B")], repeat=2))
    for nm, f in (("esc", esc("x")), ("raw", raw), ("cont", cont)):
        for sh in (named, tup):
            c.count(len(seqs))
            progs += group(enum_prog, "lit-" + nm, sh, seqs, 60, lit=f)
            progs += group(struct_prog, "lit-s" + nm, sh, seqs[::3], 20, lit=f)
    # F11 concrete std types
    progs += std_types(c)
    c.sample(progs[3].src[:1500])
    c.sample(render_msg(named, (OPEN, t_ph(0, ":? "), CLOSE)))
    c.run_progs(progs, tag="disp")
    # the nightly build of the library takes other cfg branches
    sub = progs[::9] if not c.thorough else progs
    from .core import NIGHTLY
    c.run_progs(sub, toolchain=NIGHTLY, tag="night")
    c.assumptions += ["format!/write! of std with explicit positional arguments is the reference",
                      "bounds: message token sequences up to the stated depth per alphabet; names starting with two underscores are excluded (reserved)"]
    return c.finish(rule="messages = token sequences by breadth-first search; each is compiled with the real derive and compared with format! under three outer formatter settings",
                    programs=len(progs), messages=sum(p.cases for p in progs))


def std_types(c):
    out = []
    ints = ["", ":?", ":#?", ":x", ":#X", ":o", ":#b", ":e", ":E", ":5", ":<5", ":^+7", ":05", ":#06x", ":+"]
    flts = ["", ":?", ":.2", ":8.3", ":+.1", ":e", ":E", ":08.2", ":.0?"]
    strs = ["", ":?", ":>7", ":.2", ":*^9.3", ":#?"]
    dbg = [":?", ":#?", ":02?", ":x?", ":#X?"]
    table = [("i32", "-37", ints), ("u8", "200", ints), ("i128", "i128::MIN", ints[:8]), ("f64", "2.71828", flts), ("f32", "f32::NAN", flts[:3]),
             ("&'static str", '"q\\"é{}"', strs), ("String", 'String::from("{x}")', strs), ("char", "'{'", strs[:4]), ("bool", "true", strs),
             ("Box<i32>", "Box::new(5)", ints[:2] + ["", ":5"]), ("Option<i32>", "Some(17)", dbg), ("Vec<u8>", "vec![1, 255]", dbg),
             ("(i32, &'static str)", '(1, "a")', dbg), ("[u8; 3]", "[1, 2, 3]", dbg), ("()", "()", dbg), ("Box<dyn ::std::fmt::Display + Send + Sync>", "Box::new(P(7))", ["", ":>5", ":#"]),
             ("::std::sync::Arc<str>", '::std::sync::Arc::from("arc")', strs), ("::std::rc::Rc<P>", "::std::rc::Rc::new(P(4))", ["", ":?", ":>5"]),
             ("::std::borrow::Cow<'static, str>", '::std::borrow::Cow::Borrowed("cow")', strs), ("::core::num::NonZeroU16", "::core::num::NonZeroU16::new(9).unwrap()", ints[:8]),
             ("::core::time::Duration", "::core::time::Duration::from_millis(1500)", dbg[:2] + [":.1?"]),
             ("::std::net::Ipv4Addr", "::std::net::Ipv4Addr::new(1, 2, 3, 4)", strs[:3]), ("&'static P", "{ static Q: P = P(3); &Q }", ["", ":?", ":x", ":p", ":e"]),
             ("&'static &'static P", "{ static Q: &P = &P(3); &Q }", ["", ":?", ":x", ":p"]),
             ("::std::fmt::Error", "::std::fmt::Error", ["", ":?"]), ("::std::num::Wrapping<i8>", "::std::num::Wrapping(-1)", ints[:7])]
    k = 0
    for ty, val, specs in table:
        decls, runs = [], []
        for si, s in enumerate(specs):
            for form in ("n", "t", "e"):
                nm = "T%d%s" % (si, form)
                if form == "n":
                    decls.append('#[derive(Error)] #[error("v={v%s}|{v%s}")] pub struct %s { v: %s }\n' % (s, s, nm, ty) + DBG % nm)
                    mk, get = "%s { v: %s }" % (nm, val), "&e.v"
                elif form == "t":
                    decls.append('#[derive(Error)] #[error("v={0%s}|{0%s}")] pub struct %s(%s);\n' % (s, s, nm, ty) + DBG % nm)
                    mk, get = "%s(%s)" % (nm, val), "&e.0"
                else:
                    decls.append('#[derive(Error)] pub enum %s { #[error("v={v%s}|{v%s}")] A { w: u8, v: %s } }\n' % (nm, s, s, ty) + DBG % nm)
                    mk, get = "%s::A { w: 0, v: %s }" % (nm, val), "{ let %s::A { v, .. } = &e; v }" % nm
                # write! receives self.v itself: formatting through references is transparent, except for p
                if "p" in s:
                    get = get[1:] if get.startswith("&") else "{ let %s::A { v, .. } = &e; *v }" % nm
                runs.append("{ let e = %s; c.msg(%s, &e, format_args!(\"v={0%s}|{0%s}\", %s)); }\n" % (mk, rust_str("%s {v%s} %s" % (ty, s, form)), s, s, get))
        c.count(len(runs))
        out.append(Prog("types/%s" % ty, HEADER + "".join(decls) + "pub fn run(c: &mut ::mc::Ctx) {\n" + "".join(runs) + "}", len(runs)))
    # pointers: the address of the pointee, in every form
    ptr = HEADER
    tys = [("Box<i32>", "Box::new(1)"), ("&'static i32", "&7"), ("::std::sync::Arc<P>", "::std::sync::Arc::new(P(1))"), ("::std::rc::Rc<str>", "::std::rc::Rc::from(\"a\")"),
           ("*const u8", "&1u8 as *const u8"), ("*mut u8", "&1u8 as *const u8 as *mut u8"), ("fn()", "{ fn q() {} q }"), ("::core::ptr::NonNull<u8>", "::core::ptr::NonNull::dangling()")]
    runs, decls = [], []
    n = 0
    for ty, val in tys:
        for s in (":p", ":#p", ":>20p", ":#020p", ":p ", ":*^25p  "):
            nm = "N%d" % n
            n += 1
            decls.append('#[derive(Error)] #[error("{v%s}/{v%s}")] pub struct %s { v: %s }\n' % (s, s, nm, ty) + DBG % nm)
            decls.append('#[derive(Error)] #[error("{1%s}/{1%s}")] pub struct T%s(u8, %s);\n' % (s, s, nm, ty) + DBG % ("T" + nm))
            decls.append('#[derive(Error)] pub enum E%s { #[error("{0%s}/{0%s}")] A(%s), #[error("{v%s}/{v%s}")] B { v: %s } }\n' % (nm, s, s, ty, s, s, ty) + DBG % ("E" + nm))
            for mk, get in (("%s { v: %s }" % (nm, val), "e.v"), ("T%s(0, %s)" % (nm, val), "e.1"),
                            ("E%s::A(%s)" % (nm, val), "{ let E%s::A(v) = &e else { unreachable!() }; ::core::clone::Clone::clone(&*v) }" % nm if "Box" not in ty else "{ let E%s::A(v) = &e else { unreachable!() }; &**v as *const _ }" % nm),
                            ("E%s::B { v: %s }" % (nm, val), "{ let E%s::B { v } = &e else { unreachable!() }; ::core::clone::Clone::clone(&*v) }" % nm if "Box" not in ty else "{ let E%s::B { v } = &e else { unreachable!() }; &**v as *const _ }" % nm)):
                runs.append("{ let e = %s; c.msg(%s, &e, format_args!(\"{0%s}/{0%s}\", %s)); }\n" % (mk, rust_str("%s {%s}" % (ty, s)), s, s, get))
    c.count(len(runs))
    out.append(Prog("types/pointers", ptr + "".join(decls) + "pub fn run(c: &mut ::mc::Ctx) {\n" + "".join(runs) + "}", len(runs)))
    return out
