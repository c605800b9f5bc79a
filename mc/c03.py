"""C03: failing writers, every fault point of every message shape."""
from .core import Check, Prog, rust_str, NIGHTLY
from .c01 import DBG

HEADER = """use ::thiserror::Error; use ::mc::{P, Multi};
pub fn fmt2(a: &Multi, b: &Multi, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str("fn:")?; ::core::fmt::Display::fmt(a, f)?; write!(f, "{b}/{a:?}") }
pub fn fmt0(f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str("zero")?; f.write_str("0") }
pub fn fmte(a: &Multi, b: &Multi, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { write!(f, "e{a}{b}")?; Err(::core::fmt::Error) }
"""
WIDE = ["\n", "l\r\nm\n", "0123456789é" * 30, "\0\t\\\"'"]
TOKS = ["a", "bé", "{{", "}}", "{x}", "{y:?}", "{x:p}", "{}"]


def run(tier=None):
    c = Check("C03", "fault_enumeration", tier)
    c.base("std")
    depth = 4 if c.thorough else 3
    msgs = [m for m in c.bfs((), lambda s: [s + (t,) for t in TOKS] if len(s) < depth else [])]
    if not c.thorough:
        deep = [m for m in c.bfs((), lambda s: [s + (t,) for t in ("a", "}}", "{x}", "{y:?}")] if len(s) < 4 else []) if len(m) == 4]
        msgs += deep
    # line breaks, control characters and texts longer than any buffer one might think of
    seen = set(msgs)
    msgs += [m for m in c.bfs((), lambda s: [s + (t,) for t in TOKS + WIDE] if len(s) < (3 if c.thorough else 2) else []) if m not in seen]
    # field values: number of writes and whether the field itself fails
    vals = [((2, False), (1, False)), ((0, False), (3, False)), ((1, True), (2, False)), ((2, False), (0, True)), ((0, False), (0, False))]
    progs = []
    step = 60
    for base in range(0, len(msgs), step):
        part = msgs[base:base + step]
        o = [HEADER]
        arms, want = [], []
        for i, m in enumerate(part):
            nargs = sum(t == "{}" for t in m)
            text = "".join(m)
            args = "".join(", .%s" % ("x" if k % 2 == 0 else "y") for k in range(nargs))
            targs = args.replace(".x", ".0").replace(".y", ".1")
            # positional arguments and {0} together are rejected on tuples
            ttext = text.replace("{x", "{0").replace("{y", "{1") if not nargs else None
            arms.append("#[error(%s%s)] N%d { x: Multi, y: Multi },\n" % (rust_str(text.replace("{x:p}", "{x:>3}")), args, i))
            if ttext is not None:
                arms.append("#[error(%s%s)] T%d(Multi, Multi),\n" % (rust_str(ttext.replace("{0:p}", "{0:>3}")), targs, i))
            if i % 6 == 0:
                o.append("#[derive(Error)] #[error(%s%s)] pub struct S%d { x: Multi, y: Multi }\n" % (rust_str(text.replace("{x:p}", "{x:>3}")), args, i) + DBG % ("S%d" % i))
            # oracle: list of pieces
            k = 0
            ps = []
            for t in m:
                if t in ("{{", "}}"):
                    ps.append(("lit", t[0]))
                elif t == "{x}" or t == "{x:p}":
                    ps.append(("x", ""))
                elif t == "{y:?}":
                    ps.append(("y", "D"))
                elif t == "{}":
                    ps.append(("x" if k % 2 == 0 else "y", ""))
                    k += 1
                else:
                    ps.append(("lit", t))
            want.append(ps)
        o.append("#[derive(Error)] pub enum E {\n" + "".join(arms) + "}\n" + DBG % "E")
        o.append("pub fn run(c: &mut ::mc::Ctx) {\n")
        for i, m in enumerate(part):
            nargs = sum(t == "{}" for t in m)
            for vx, vy in vals if len(m) < 4 else vals[:4:2]:
                full, own = "", False
                for kind, arg in want[i]:
                    if kind == "lit":
                        full += arg
                    else:
                        n, err = vx if kind == "x" else vy
                        full += arg + "".join("<mé>"[j % 4] for j in range(n))
                        if err:
                            own = True
                            break
                v = "Multi(%d, %s), Multi(%d, %s)" % (vx[0], str(vx[1]).lower(), vy[0], str(vy[1]).lower())
                nv = "x: Multi(%d, %s), y: Multi(%d, %s)" % (vx[0], str(vx[1]).lower(), vy[0], str(vy[1]).lower())
                es = ["E::N%d { %s }" % (i, nv)]
                if not nargs:
                    es.append("E::T%d(%s)" % (i, v))
                if i % 6 == 0:
                    es.append("S%d { %s }" % (i, nv))
                for e in es:
                    o.append("c.faults(%s, &%s, %s, %s);\n" % (rust_str("".join(m)), e, rust_str(full), str(own).lower()))
        o.append("}")
        progs.append(Prog("msg/%d" % base, "".join(o), len(part)))
    # transparent, inherited, fmt = path, nesting
    kinds = """
#[derive(Error)] #[error("in[{0}|{0:?}]")] pub struct Inner(Multi);
DBGInner
#[derive(Error)] #[error(transparent)] pub struct TrS(Inner);
DBGTrS
#[derive(Error)] #[error(transparent)] pub struct TrN { e: Box<dyn ::std::error::Error> }
DBGTrN
#[derive(Error)] #[error(transparent)] pub enum TrE { A(TrS), #[error("own {0}.")] B(Multi), #[error(transparent)] C { e: TrN }, #[error(fmt = fmt2)] D(Multi, Multi) }
DBGTrE
#[derive(Error)] #[error("inh:{0}!{0}")] pub enum Inh { A(Multi), B(TrE), #[error("lit")] C, #[error("")] Z, #[error("}}")] Y }
DBGInh
#[derive(Error)] #[error(fmt = fmt2)] pub enum Fm { A(Multi, Multi), B { p: Multi, q: Multi }, #[error(fmt = fmt0)] C, #[error(fmt = fmte)] D(Multi, Multi), #[error("lit{0}")] L(Multi) }
DBGFm
#[derive(Error)] #[error("src: {source}; {n:>4} {}", .n.pow(2))] pub struct Deep { source: Inh, n: u32 }
DBGDeep
"""
    import re
    kinds = re.sub(r"^DBG(\w+)$", lambda m: (DBG % m.group(1)).strip(), kinds, flags=re.M)
    runs = []
    mul = lambda n, e=False: "Multi(%d, %s)" % (n, str(e).lower())
    txt = lambda n: "".join("<mé>"[j % 4] for j in range(n))
    for n in range(0, 7 if c.thorough else 5):
        for e in (False, True):
            m = mul(n, e)
            inner = "in[" + txt(n) if e else "in[%s|D%s]" % (txt(n), txt(n))
            iv = "Inner(%s)" % m
            runs += [(iv, inner, e), ("TrS(%s)" % iv, inner, e), ("TrN { e: Box::new(TrS(%s)) }" % iv, inner, e), ("TrE::A(TrS(%s))" % iv, inner, e),
                     ("TrE::B(%s)" % m, "own " + txt(n) + ("" if e else "."), e), ("TrE::C { e: TrN { e: Box::new(TrE::A(TrS(%s))) } }" % iv, inner, e),
                     ("TrE::C { e: TrN { e: Box::new(%s) } }" % m, txt(n), e),
                     ("Inh::A(%s)" % m, "inh:" + txt(n) + ("" if e else "!" + txt(n)), e), ("Inh::B(TrE::A(TrS(%s)))" % iv, "inh:" + inner + ("" if e else "!" + inner), e)]
            for n2 in range(0, 3):
                for e2 in (False, True):
                    m2 = mul(n2, e2)
                    full = "fn:" + txt(n) + ("" if e else txt(n2) + ("" if e2 else "/D" + txt(n)))
                    own = e or e2
                    runs += [("Fm::A(%s, %s)" % (m, m2), full, own), ("Fm::B { p: %s, q: %s }" % (m, m2), full, own), ("TrE::D(%s, %s)" % (m, m2), full, own),
                             ("Fm::D(%s, %s)" % (m, m2), "e" + txt(n) + ("" if e else txt(n2)), True)]
            runs += [("Deep { source: Inh::A(%s), n: 12 }" % m, "src: inh:" + txt(n) + ("" if e else "!" + txt(n) + ";   12 144"), e)]
    runs += [("Inh::C", "lit", False), ("Inh::Z", "", False), ("Inh::Y", "}", False), ("Fm::C", "zero0", False), ("Deep { source: Inh::C, n: 3 }", "src: lit;    3 9", False)]
    body = "".join("c.faults(%s, &%s, %s, %s);\n" % (rust_str(v), v, rust_str(full), str(own).lower()) for v, full, own in runs)
    progs.append(Prog("kinds", HEADER + kinds + "pub fn run(c: &mut ::mc::Ctx) {\n" + body + "}", len(runs)))
    c.count(len(runs))
    c.sample(progs[-1].src[-900:])
    c.sample("".join(msgs[-1]))
    c.run_progs(progs, tag="flt")
    ev, fired = c.cov["traces_validated_against_impl"], c.stats.get("fired", 0)
    c.assumptions += ["writers fail after k characters (truncating), at the n-th call for ever, or once; all k and n", "fields and fmt functions are well behaved: they stop at the first failure"]
    return c.finish(evaluations=ev, distinct_nontrivial=fired, messages=len(msgs),
                    rule="every message up to the token depth x field behaviours x every fault point of three fault models x three ways to format; non-trivial = the fault fired")
