"""C18: error chains nested at run time in any order.

A library of layer kinds is generated (every combination of shape, holder of the wrapped
error, role, message and backtrace field). The program then builds every word over these
kinds up to a depth, on every innermost error, with the layers that the model predicts
next to it, and walks it: source() until the end, Display of every layer, the answer to a
backtrace request of every layer, and the identity (address) of every error and backtrace."""
import itertools
from .core import Check, Prog, STABLE, NIGHTLY, rust_str

SUPPORT = r"""
use ::std::{error::Error as StdError, sync::Arc, fmt};
use ::mc::{addr, Leaf, Node, Handle};
pub type B = Box<dyn StdError + Send + Sync>;
pub type D = Box<dyn StdError>;
/// One layer that the walk has to meet: Display, address (0: not known), answer to a backtrace request (0: none).
#[derive(Clone)]
pub struct L { d: String, a: usize, b: usize }
pub struct M { e: B, l: Vec<L>, bad: Option<String> }
/// Forwards everything; written by hand.
pub struct F(pub B);
impl fmt::Debug for F { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("F") } }
impl fmt::Display for F { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(&*self.0, f) } }
impl StdError for F {
    fn source(&self) -> Option<&(dyn StdError + 'static)> { self.0.source() }
    PROVIDE
}
pub fn erase<E: StdError + 'static>(b: Box<E>) -> B {
    let d: Box<dyn StdError> = b;
    // only one thread ever sees the error
    unsafe { ::std::mem::transmute::<Box<dyn StdError>, B>(d) }
}
pub enum Own { No, Found(usize), Marked(usize), Forward }
/// The model: what wrapping `l` in a layer gives.
pub fn model(d: Option<String>, e: B, a: usize, role: u8, extra: bool, own: Own, l: Vec<L>) -> M {
    let inner = if role == 0 { 0 } else { l[0].b };
    let mut bad = None;
    let b = match own {
        Own::No => 0,
        Own::Forward => inner,
        Own::Found(x) => if inner != 0 { inner } else { x },
        Own::Marked(x) if x == 0 || inner == 0 => if inner != 0 && x == 0 { let got = ask(&*e); if got != 0 && got != inner { bad = Some("a marked backtrace that is None".to_owned()); } got } else { x },
        // which of the two answers is not said
        Own::Marked(x) => { let got = ask(&*e); if got != x && got != inner { bad = Some("neither the marked backtrace nor the source answers".to_owned()); } got }
    };
    let mut out = vec![L { d: d.unwrap_or_else(|| l[0].d.clone()), a, b }];
    match role {
        0 => {}
        1 => {
            out.push(L { d: l[0].d.clone(), a: if extra { 0 } else { l[0].a }, b: l[0].b });
            out.extend_from_slice(&l[1..]);
        }
        _ => out.extend_from_slice(&l[1..]),
    }
    M { e, l: out, bad }
}
pub fn check(m: &M) -> Result<u64, String> {
    if let Some(b) = &m.bad { return Err(b.clone()); }
    let mut n = 0;
    let mut at: Option<&(dyn StdError + 'static)> = Some(&*m.e);
    let mut n_checks = 0;
    while let Some(e) = at {
        let Some(w) = m.l.get(n) else { return Err(format!("the chain has more than the {} expected layers: {:?}", m.l.len(), e.to_string())) };
        let s = e.to_string();
        if s != w.d { return Err(format!("layer {} displays {:?}, want {:?}", n, s, w.d)); }
        if w.a != 0 && addr(e) != w.a { return Err(format!("layer {} ({:?}) is another error than the one that was wrapped", n, s)); }
        if ASKS {
            let got = ask(e);
            if got != w.b { return Err(format!("layer {} ({:?}): the backtrace request is answered: {}, by the right one: {}; want an answer: {}", n, s, got != 0, got == w.b, w.b != 0)); }
            if ask_again(e) != w.b { return Err(format!("layer {} ({:?}): the second answer differs", n, s)); }
        }
        n += 1;
        n_checks += 3;
        at = e.source();
    }
    if n != m.l.len() { return Err(format!("the chain ends after {} layers, want {}; next would be {:?}", n, m.l.len(), m.l[n].d)); }
    Ok(n_checks)
}
pub fn word(leaf: usize, w: &[usize]) -> M {
    let mut m = LEAVES[leaf].1();
    for (i, k) in w.iter().enumerate() { m = KINDS[*k].1(m, i as u32); }
    m
}
pub fn walk(c: &mut ::mc::Ctx, leaves: &[usize], set: &[usize], depth: usize) {
    // the words of this depth over `set`, split over the threads by their number
    let total = (0..depth).fold(1usize, |a, _| a * set.len());
    let (tx, rx) = ::std::sync::mpsc::channel();
    ::std::thread::scope(|s| {
        for t in 0..8usize {
            let tx = tx.clone();
            s.spawn(move || {
                let (mut n, mut words) = (0u64, 0u64);
                let mut bad = Vec::new();
                let mut w = vec![0; depth];
                let mut i = t;
                while i < total {
                    let mut x = i;
                    for p in w.iter_mut() { *p = set[x % set.len()]; x /= set.len(); }
                    for &l in leaves {
                        words += 1;
                        match ::std::panic::catch_unwind(|| check(&word(l, &w))).unwrap_or_else(|_| Err("panics".to_owned())) {
                            Ok(k) => n += k,
                            Err(e) => if bad.len() < 20 {
                                let names: Vec<&str> = ::std::iter::once(LEAVES[l].0).chain(w.iter().map(|k| KINDS[*k].0)).collect();
                                bad.push((names.join(" in "), e));
                            }
                        }
                    }
                    i += 8;
                }
                tx.send((n, words, bad)).unwrap();
            });
        }
    });
    drop(tx);
    for (n, words, bad) in rx {
        c.count(n);
        c.stat("words", words);
        for (w, e) in bad { c.fail(&w, &e); }
    }
    c.note(&depth.to_string());
}
"""
STABLE_ASK = "pub const ASKS: bool = false; pub fn ask(_: &(dyn StdError + 'static)) -> usize { 0 } pub fn ask_again(_: &(dyn StdError + 'static)) -> usize { 0 }\n"
NIGHTLY_ASK = """pub const ASKS: bool = true;
pub fn ask(e: &(dyn StdError + 'static)) -> usize { ::std::error::request_ref::<Backtrace>(e).map_or(0, addr) }
pub fn ask_again(e: &(dyn StdError + 'static)) -> usize { let _ = ::std::error::request_ref::<u64>(e); ask(e) }
use ::std::backtrace::Backtrace;
pub fn bt() -> Backtrace { Backtrace::disabled() }
"""

# holder: type, value from `inner: B`, an extra layer between
HOLDERS = {
    "boxss": ("B", "inner", False),
    "box": ("D", "{ let d: D = inner; d }", False),
    "opt": ("Option<B>", "Some(inner)", False),
    "optd": ("::core::option::Option<D>", "Some({ let d: D = inner; d })", False),
    "none": ("Option<B>", "{ drop(inner); None }", False),
    "handle": ("Handle", "Handle(inner)", False),
    "f": ("F", "F(inner)", True),
    "boxf": ("Box<F>", "Box::new(F(inner))", True),
    "arcf": ("Arc<F>", "Arc::new(F(inner))", True),
    "arcdyn": ("Arc<dyn StdError + Send + Sync>", "Arc::new(F(inner))", True),
    "optf": ("Option<F>", "Some(F(inner))", True),
    "ref": ("&'static (dyn StdError + 'static)", "Box::leak(Box::new(F(inner)))", True),
    "anyhow": ("::anyhow::Error", "::anyhow::Error::new(F(inner))", True),
}
ROLES = ["none", "attr", "name", "from", "transparent", "transparent-from"]
OWN = {
    # attribute, type, value, address given `b: &field`
    "type": ("", "Backtrace", "bt()", "Own::Found(addr(b))"),
    "mark": ("#[backtrace] ", "Backtrace", "bt()", "Own::Marked(addr(b))"),
    "markarc": ("#[backtrace] ", "Arc<Backtrace>", "Arc::new(bt())", "Own::Marked(addr(&**b))"),
    "optsome": ("#[backtrace] ", "Option<Backtrace>", "Some(bt())", "Own::Marked(addr(b.as_ref().unwrap()))"),
    "optnone": ("#[backtrace] ", "Option<Backtrace>", "None", "Own::Marked({ let _ = b; 0 })"),
}


def kind(i, shape, holder, role, msg, back, order):
    """-> (items, fn body) or None when there is no such layer."""
    ty, val, extra = HOLDERS[holder]
    named = shape in ("s", "es", "gs")
    enum = shape in ("es", "et")
    generic = shape in ("gs", "gt")
    if role == "name" and not named:
        return None
    trans = role.startswith("transparent")
    frm = role.endswith("from")
    if trans and (msg != "own" or back in OWN or holder in ("opt", "optd", "none", "optf")):
        return None
    if role == "transparent" and back == "fwd":
        return None                                  # then the field itself is the Backtrace
    if back == "fwd" and (role == "none" or holder in ("anyhow",)):
        return None
    if back in OWN and frm and back == "optnone":
        return None
    if back != "-" and holder == "anyhow":
        return None
    if msg == "inline" and (holder in ("opt", "optd", "none", "optf")):
        return None
    if frm and holder == "none":
        return None
    if generic and (enum or holder not in ("f",) or trans and False):
        return None
    if holder == "f" and role == "none" and generic and msg == "inline":
        pass
    if order and (back not in OWN):
        return None
    n = "K%d" % i
    fname = {"name": "source"}.get(role, "inner") if named else ("1" if order else "0")
    attr = {"none": "", "attr": "#[source] ", "name": "", "from": "#[from] ", "transparent": "", "transparent-from": "#[from] "}[role]
    if back == "fwd":
        attr = "#[backtrace] " + attr if order == 0 else attr + "#[backtrace] "
    fields = [(attr, "inner" if role != "name" else "source", "E" if generic else ty, val)]
    if back in OWN:
        a, t, v, _ = OWN[back]
        own = (a, "trace", t, v)
        fields = [own] + fields if order else fields + [own]
    decl = ", ".join("%s%s%s" % (a, nm + ": " if named else "", t) for a, nm, t, _ in fields)
    decl = "{ %s }" % decl if named else "(%s)" % decl
    build = ", ".join("%s%s" % (nm + ": " if named else "", v) for _, nm, _, v in fields)
    build = "{ %s }" % build if named else "(%s)" % build
    text = "transparent" if trans else rust_str("k%d" % i if msg == "own" else "k%d[{%s}]" % (i, fname))
    gen = "<E>" if generic else ""
    if enum:
        item = "#[derive(::thiserror::Error)] pub enum %s { #[error(\"other\")] Other(#[from] ::std::num::ParseIntError), #[error(%s)] V %s, #[error(\"unit\")] Unit }" % (n, text, decl)
        path = n + "::V"
    else:
        item = "#[derive(::thiserror::Error)] #[error(%s)] pub struct %s%s %s%s" % (text, n, gen, decl, "" if named else ";")
        path = n
    item += "\nimpl%s fmt::Debug for %s%s { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(\"D\") } }" % (gen, n, gen)
    if frm:
        # Option fields convert from what they hold
        v = val[5:-1] if val.startswith("Some(") else val
        make = ("{ let v: %s = %s; %s::from(v) }" % (ty[ty.index("<") + 1:-1] if v is not val and v != val else ty, v, n)) if not generic else "%s::<F>::from(%s)" % (n, val)
    else:
        make = path + " " + build
    own = "Own::No"
    if back == "fwd":
        own = "Own::Forward"
    elif back in OWN:
        acc = OWN[back][3]
        fld = "trace" if named else ("0" if order else "1")
        if frm and back == "optsome":
            pass
        if enum:
            own = "{ let %s { %s: b, .. } = &*e else { unreachable!() }; %s }" % (path, fld, acc)
        else:
            own = "{ let b = &e.%s; %s }" % (fld, acc)
    srole = 0 if role == "none" else 2 if trans else 1
    if holder == "none":
        srole = 0
    if own.startswith("Own::Forward") and srole == 0:
        own = "Own::No"
    d = "None" if trans else "Some(%s)" % ("\"k%d\".to_owned()" % i if msg == "own" else "format!(\"k%d[{}]\", l[0].d)" % i)
    fn = "|m: M, _| { let M { e: inner, l, .. } = m; let e = Box::new(%s); let a = addr(&*e); let own = %s; model(%s, erase(e), a, %d, %s, own, l) }" % (
        make, own, d, srole, "true" if extra else "false")
    key = "%s-%s-%s%s%s%s" % (shape, holder, role, "-inline" if msg == "inline" else "", "-" + back if back != "-" else "", "-first" if order else "")
    return key, item, fn


def leaves(night):
    out = [
        ("leaf", "let e = Box::new(Leaf(1)); let a = addr(&*e); M { e, l: vec![L { d: \"leaf1\".to_owned(), a, b: 0 }], bad: None }"),
        ("node", "let e = Box::new(Plain(Leaf(2))); let (a, s) = (addr(&*e), addr(&e.0)); M { e, l: vec![L { d: \"plain\".to_owned(), a, b: 0 }, L { d: \"leaf2\".to_owned(), a: s, b: 0 }], bad: None }"),
        ("derived", "let e = Box::new(Unit); M { l: vec![L { d: \"unit\".to_owned(), a: 0, b: 0 }], e, bad: None }"),
        ("enum", "let e = Box::new(Enum::B { x: 3 }); let a = addr(&*e); M { e, l: vec![L { d: \"b3\".to_owned(), a, b: 0 }], bad: None }"),
        ("text", "let e: B = \"text\".into(); let a = addr(&*e); M { e, l: vec![L { d: \"text\".to_owned(), a, b: 0 }], bad: None }"),
        ("io", "let e = Box::new(::std::io::Error::from(::std::io::ErrorKind::NotFound)); let d = e.to_string(); M { e, l: vec![L { d, a: 0, b: 0 }], bad: None }"),
    ]
    if night:
        out += [
            ("ans", "let e = Box::new(::mc::Ans::new(true)); let (a, b) = (addr(&*e), addr(&e.bt)); M { e, l: vec![L { d: \"ans\".to_owned(), a, b }], bad: None }"),
            ("owner", "let e = Box::new(Owner { at: 4, backtrace: bt() }); let (a, b) = (addr(&*e), addr(&e.backtrace)); M { e, l: vec![L { d: \"owner4\".to_owned(), a, b }], bad: None }"),
        ]
    items = """
#[derive(Debug)] pub struct Plain(Leaf);
impl fmt::Display for Plain { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("plain") } }
impl StdError for Plain { fn source(&self) -> Option<&(dyn StdError + 'static)> { Some(&self.0) } }
#[derive(::thiserror::Error, Debug)] #[error("unit")] pub struct Unit;
#[derive(::thiserror::Error, Debug)] pub enum Enum { #[error("a")] A, #[error("b{x}")] B { x: u8 }, #[error(transparent)] C(#[from] Leaf) }
"""
    if night:
        items += "#[derive(::thiserror::Error, Debug)] #[error(\"owner{at}\")] pub struct Owner { at: u8, backtrace: Backtrace }\n"
    return out, items


def world(c, night):
    """Every layer kind -> (crate head, keys, number of leaves)"""
    keys, items, fns = [], [], []
    backs = ["-"] + (list(OWN) + ["fwd"] if night else [])

    def one(ch):
        shape = ch(["s", "t", "es", "et", "gs", "gt"])
        holder = ch(list(HOLDERS))
        role = ch(ROLES)
        msg = ch(["own", "inline"])
        back = ch(backs)
        order = ch([0, 1]) if back != "-" else 0
        if night and back == "-" and msg == "inline":
            return None                              # seen on stable
        if night and not c.thorough and back in OWN and (msg == "inline" or holder in ("optd", "boxf", "arcf", "ref", "box")):
            return None
        return kind(len(keys), shape, holder, role, msg, back, order) or None
    for r in c.explore(one):
        keys.append(r[0])
        items.append(r[1])
        fns.append(r[2])
    lv, li = leaves(night)
    head = ("#![feature(error_generic_member_access)]\n" if night else "") + "#![allow(warnings)]\n"
    provide = "fn provide<'a>(&'a self, r: &mut ::std::error::Request<'a>) { self.0.provide(r) }" if night else ""
    head += "pub mod w {\n" + SUPPORT.replace("PROVIDE", provide) + (NIGHTLY_ASK if night else STABLE_ASK) + li + "\n".join(items) + "\n"
    head += "pub const LEAVES: &[(&'static str, fn() -> M)] = &[%s];\n" % ", ".join("(%s, || { %s })" % (rust_str(k), b) for k, b in lv)
    head += "pub const KINDS: &[(&'static str, fn(M, u32) -> M)] = &[%s];\n}\n" % ",\n".join("(%s, %s)" % (rust_str(k), f) for k, f in zip(keys, fns))
    return head, keys, lv


# one representative for every way in which layers interact
REPS = ["s-boxss-attr", "s-box-name", "s-opt-attr", "s-none-attr", "s-boxss-none", "s-boxss-from", "t-handle-attr", "t-boxss-transparent", "et-boxss-transparent-from", "et-boxss-attr", "es-optd-name",
        "et-arcdyn-from", "t-anyhow-attr", "gt-f-transparent", "gs-f-name", "t-ref-attr", "et-anyhow-transparent", "t-handle-transparent", "s-boxss-attr-inline"]
REPS_N = ["s-boxss-attr", "t-boxss-transparent", "s-none-attr", "s-boxss-none", "s-boxss-attr-type", "s-boxss-none-type", "s-boxss-from-type", "et-boxss-from-type", "et-boxss-attr-mark", "s-opt-attr-fwd", "s-none-attr-fwd",
          "et-boxss-from-fwd", "et-boxss-transparent-from-fwd", "t-boxss-transparent-from-fwd", "es-opt-name-optsome", "es-boxss-name-optnone", "t-boxss-attr-type-first", "et-handle-attr-fwd", "s-arcdyn-name-fwd", "gs-f-from-type", "et-none-attr-type"]


def run(tier):
    c = Check("C18", "model_checking", tier)
    c.bases_parallel(("std", STABLE), ("std", NIGHTLY))
    sizes = {}
    for night in (False, True):
        head, keys, lv = world(c, night)
        idx = {k: i for i, k in enumerate(keys)}
        reps = [idx[k] for k in (REPS_N if night else REPS) if k in idx]
        every = list(range(len(keys)))
        nl = list(range(len(lv)))
        deep = [idx[k] for k in (REPS_N[4:16:2] if night else REPS[0:12:2]) if k in idx]
        plan = [("depth0", nl, every[:1], 0), ("depth1", nl, every, 1), ("depth2", nl if c.thorough else nl[:1] + nl[-2:-1], every, 2),
                ("reps3", nl, reps, 3), ("deep5", nl[:2] + nl[-2:], deep, 5)]
        if c.thorough:
            plan += [("reps4", nl, reps, 4), ("reps5", nl[-2:], reps[:14] if night else reps, 5), ("deep7", nl[:2] + nl[-2:], deep, 7)]
            if not night:
                plan += [("depth3", nl[:2], every, 3)]
        progs = []
        for name, ls, set_, depth in plan:
            body = "pub fn run(c: &mut ::mc::Ctx) { crate::w::walk(c, &%s, &%s, %d) }" % (ls, set_, depth)
            progs.append(Prog("%s/%s" % ("nightly" if night else "stable", name), body))
            words = len(ls) * len(set_) ** depth
            c.count(words, words * depth)
        sizes["nightly" if night else "stable"] = len(keys)
        c.sample("layer kinds (%s): %s" % ("nightly" if night else "stable", ", ".join(keys[:: max(1, len(keys) // 12)])))
        c.run_progs(progs, "std", NIGHTLY if night else STABLE, head=head, externs=("thiserror", "mc", "anyhow"), tag="n" if night else "s", chunks=1, timeout=800,
                    args=["-Copt-level=1"] if c.thorough else [])
        c.log_missing = [k for k in (REPS_N if night else REPS) if k not in idx]
        if c.log_missing:
            from .core import MachineryError
            raise MachineryError("no such layer: %s" % c.log_missing)
    return c.finish(layer_kinds=sizes, words=c.stats.get("words", 0))
