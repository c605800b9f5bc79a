"""C20: types whose parts arrive through macro_rules fragments.

A template is a type definition with holes. For every set of holes that comes from outside
of the macro (the others are written in it) and every kind of fragment that can carry each
of them, directly or through a second macro, the type is compared with the one written out
by hand: Display under formatter options, the source chain, From, backtraces, traits."""
import re
from .core import Check, Prog, STABLE, NIGHTLY, rust_str

HEAD = """#![allow(warnings)]
pub mod shared {
    pub use ::mc::{Leaf, Node, Handle};
    #[derive(Debug)] pub struct Sh(pub u8);
    impl ::core::fmt::Display for Sh { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { write!(f, "sh{}", self.0) } }
    impl ::std::error::Error for Sh {}
    pub fn show<T: ?Sized + ::core::fmt::Debug>(x: &T, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { write!(f, "show {:?}", x) }
    pub fn two<T: ::core::fmt::Debug, U: ::core::fmt::Debug>(x: &T, y: &U, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { write!(f, "two {:?} {:?}", x, y) }
    pub const K: u8 = 77;
    pub fn see(e: &(dyn ::std::error::Error + 'static)) -> String {
        let mut s = format!("{}|{:>40}|{:?}", e, e, ::std::format!("{:.3}", e));
        let mut at = e.source();
        while let Some(x) = at { s += " <- "; s += &x.to_string(); at = x.source(); }
        s + BT(e)
    }
    ASK
}
"""
PRE = "use ::thiserror::Error; use ::mc::{Leaf, Node, Handle, Is, IsNot as _}; use ::std::{boxed::Box, sync::Arc, path::PathBuf, error::Error as StdError}; use crate::shared::{self, see, Sh};\n"
FRAG = {
    "id": ["ident", "tt"],
    "ty": ["ty", "tt*"],
    "tyid": ["ty", "ident", "path", "tt"],
    "typath": ["ty", "path", "tt*"],
    "lit": ["literal", "expr", "tt"],
    "ex": ["expr", "tt*"],
    "exid": ["expr", "ident", "tt"],
    "exlit": ["expr", "literal", "tt"],
    "dex": ["tt*"],
    "exg": ["expr"],
    "pa": ["path", "tt*"],
    "paid": ["path", "ident", "tt"],
    "lt": ["lifetime", "tt"],
    "vis": ["vis"],
    "meta": ["meta", "tt*"],
    "ts": ["tt*"],
    "item": ["item", "tt*"],
    "blk": ["block", "expr", "tt"],
}
# what may be handed on as what
NEXT = {"ident": ["ident", "tt", "expr?", "ty?"], "ty": ["ty", "tt"], "literal": ["literal", "tt", "expr"], "expr": ["expr", "tt"], "path": ["path", "tt"], "lifetime": ["lifetime", "tt"], "vis": ["vis"],
        "meta": ["meta"], "tt": ["tt"], "tt*": ["tt*"], "item": ["item"], "block": ["block", "tt", "expr"]}

# name, definition, observations (expressions of type String)
T = [
    ("named", "#[derive(Error, Debug)] #[error(«lit:\"a {alpha} b {beta:?} {alpha:>4}\"»)] «vis:pub» struct «id:E» { «vis:pub(crate)» «id:alpha»: «tyid:u8», «id:beta»: «ty:&'static str» }",
     ["see(&E { alpha: 1, beta: \"x\" })"]),
    ("tuple", "#[derive(Error, Debug)] #[error(«lit:\"a {0} b {1:?} {0:03}\"»)] «vis:pub» struct «id:E»(«vis:pub» «tyid:u8», «ty:Option<u8>»);", ["see(&E(1, Some(2)))"]),
    ("path", "#[derive(Error, Debug)] #[error(«lit:\"p {where} {where}\"»)] pub struct E { «id:r#where»: «tyid:PathBuf» }", ["see(&E { r#where: PathBuf::from(\"/x\") })"]),
    ("args", "#[derive(Error, Debug)] #[error(«lit:\"{} {n} {alpha} {}\"», «ex:1 + 1», «dex:.alpha.len() + 2», «id:n» = «dex:.beta * 2»)] pub struct E { «id:alpha»: «ty:&'static str», «id:beta»: «tyid:u8» }",
     ["see(&E { alpha: \"xyz\", beta: 21 })"]),
    ("dot", "#[derive(Error, Debug)] #[error(«lit:\"{} {m} {}\"», .«id:alpha», .«id:beta».len(), «id:m» = .«id:alpha» + 1)] pub struct E { «id:alpha»: «tyid:u8», «id:beta»: «ty:&'static str» }",
     ["see(&E { alpha: 3, beta: \"xyz\" })"]),
    ("dotnum", "#[derive(Error, Debug)] #[error(«lit:\"{n} {m} {}\"», «dex:.0.len()», «id:n» = «dex:.1», «id:m» = .«lit:1»)] pub struct E(«ty:&'static str», «tyid:u8»);", ["see(&E(\"xyz\", 3))"]),
    ("exprs", "#[derive(Error, Debug)] #[error(«lit:\"{} {} {} {}\"», «blk:{ 1 + 2 }», «dex:if .alpha.eq(&3) { \"y\" } else { \"n\" }», «ex:shared::K», «exlit:5»)] pub struct E { «id:alpha»: «tyid:u8» }",
     ["see(&E { alpha: 3 })", "see(&E { alpha: 4 })"]),
    ("operand", "#[derive(Error, Debug)] #[error(«lit:\"{} {} {}\"», «ex:u8::from(2)» * 3, 2 * «ex:(3 + 1)», «exlit:7» - «dex:.0»)] pub struct E(«tyid:u8»);", ["see(&E(5))"]),
    ("width", "#[derive(Error, Debug)] #[error(«lit:\"[{:>w$}] [{alpha:w$.p$}]\"», «dex:.beta», «id:w» = «ex:8», «id:p» = «exlit:2»)] pub struct E { «id:alpha»: «ty:&'static str», «id:beta»: «tyid:u8» }",
     ["see(&E { alpha: \"xyz\", beta: 1 })"]),
    ("source", "#[derive(Error, Debug)] #[error(«lit:\"s\"»)] pub struct E { «meta-attr:source» «id:cause»: «ty:Option<Leaf>» }", ["see(&E { cause: Some(Leaf(1)) })", "see(&E { cause: None })"]),
    ("sourcename", "#[derive(Error, Debug)] #[error(«lit:\"s {source}\"»)] pub struct E { «id:source»: «typath:shared::Sh» }", ["see(&E { source: Sh(1) })"]),
    ("boxed", "#[derive(Error, Debug)] #[error(«lit:\"s\"»)] pub struct E(«meta-attr:source» «ty:Box<dyn StdError + Send + Sync + 'static>»);", ["see(&E(Box::new(Leaf(1))))"]),
    ("from", "#[derive(Error, Debug)] #[error(«lit:\"f {0}\"»)] pub struct «id:E»(«meta-attr:from» «tyid:Leaf»);", ["see(&E::from(Leaf(1)))", "see(&{ let e: E = Leaf(2).into(); e })"]),
    ("fromopt", "#[derive(Error, Debug)] #[error(«lit:\"f\"»)] pub struct E { «meta-attr:from» «id:cause»: «ty:Option<Leaf>» }", ["see(&E::from(Leaf(1)))", "mc::impls!(E: From<Option<Leaf>>).to_string()"]),
    ("optinner", "#[derive(Error, Debug)] #[error(«lit:\"f\"»)] pub struct E { «meta-attr:from» «id:cause»: Option<«ty:Box<Leaf>»> }", ["see(&E::from(Box::new(Leaf(1))))"]),
    ("crate", "#[derive(Error, Debug)] #[error(«lit:\"f {0}\"»)] pub struct E(#[from] «typath:crate::shared::Sh»);", ["see(&E::from(Sh(1)))"]),
    ("transparent", "#[derive(Error, Debug)] #[error(«id:transparent»)] pub struct «id:E»(«tyid:Node»);", ["see(&E(Node(1, Some(Leaf(2)))))", "see(&E(Node(1, None)))"]),
    ("transbox", "#[derive(Error, Debug)] «meta-attr:error(transparent)» pub struct E { «meta-attr:from» «id:inner»: «ty:Box<dyn StdError + Send + Sync>» }",
     ["see(&E { inner: Box::new(Node(1, Some(Leaf(2)))) })", "see(&E::from(<Box<dyn StdError + Send + Sync>>::from(\"t\")))"]),
    ("enum", "#[derive(Error, Debug)] pub enum «id:E» { «meta-attr:error(\"a {x}\")» «id:A» { «id:x»: «tyid:u8» }, #[error(«lit:\"b {0} {}\"», «id:n» = 1, «ex:shared::K»)] «id:Bv»(«ty:&'static str»), #[error(«id:transparent»)] «id:C»(#[from] «tyid:Leaf»), #[error(«lit:\"d\"»)] «id:D» }".replace("\"b {0} {}\"", "\"b {n}\"").replace(", «ex:shared::K»", ""),
     ["see(&E::A { x: 1 })", "see(&E::Bv(\"s\"))", "see(&E::from(Leaf(3)))", "see(&E::D)"]),
    ("enumargs", "#[derive(Error, Debug)] #[error(«lit:\"outer {}\"», «ex:shared::K»)] pub enum E { A, #[error(«lit:\"{}\"», .«id:x» + «ex:2»)] Bv { «id:x»: «tyid:u8» } }", ["see(&E::A)", "see(&E::Bv { x: 1 })"]),
    ("variants", "#[derive(Error, Debug)] pub enum E { «ts:#[error(\"a {0}\")] A(u8),» «ts:#[error(\"b {x} {}\", .x.len())] B { x: &'static str },» «ts:#[error(transparent)] C(#[from] Node)» }",
     ["see(&E::A(1))", "see(&E::B { x: \"q\" })", "see(&E::from(Node(1, Some(Leaf(2)))))"]),
    ("fields", "#[derive(Error, Debug)] #[error(«lit:\"{a} {b} {}\"», «ts:.a»)] pub struct E { «ts:a: u8,» «ts:b: u8,» «ts:#[source] c: Leaf» }", ["see(&E { a: 1, b: 2, c: Leaf(3) })"]),
    ("item", "«item:#[derive(Error, Debug)] #[error(\"a {x} {0}\", .x, y = 1)] pub struct E { x: u8, source: Leaf }»".replace(" {0}", " {y} {}"), ["see(&E { x: 1, source: Leaf(2) })"]),
    ("itemouter", "#[derive(Error, Debug)] #[error(«lit:\"a\"»)] «item:pub struct E(#[from] Leaf);»", ["see(&E::from(Leaf(1)))"]),
    ("fmt", "#[derive(Error, Debug)] pub enum E { #[error(fmt = «pa:shared::show»)] «id:A»(«tyid:u8»), #[error(fmt = «paid:local»)] «id:Bv» { «id:x»: «ty:&'static str», «id:y»: «tyid:i8» } }\npub fn local(a: &&'static str, b: &i8, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { write!(f, \"l {} {}\", a, b) }",
     ["see(&E::A(1))", "see(&E::Bv { x: \"x\", y: -1 })"]),
    ("fmtgen", "#[derive(Error, Debug)] #[error(fmt = «pa:shared::two::<u8, u8>»)] pub enum E { A(«tyid:u8», «tyid:u8»), Bv { «id:x»: «tyid:u8», «id:y»: «tyid:u8» } }", ["see(&E::A(1, 2))", "see(&E::Bv { x: 3, y: 4 })"]),
    ("generic", "#[derive(Error, Debug)] #[error(«lit:\"{alpha} {beta:?}\"»)] pub struct E<«id:T», «id:U»> { «id:alpha»: «tyid:T», «id:beta»: «ty:Option<U>» }",
     ["see(&E { alpha: 1u8, beta: Some(2u8) })", "format!(\"{} {} {}\", <Is<E<u8, u8>>>::DISPLAY, <Is<E<mc::mk::OnlyDebug, u8>>>::DISPLAY, <Is<E<u8, mc::mk::OnlyDisplay>>>::DISPLAY)", "format!(\"{} {}\", <Is<E<u8, u8>>>::ERROR, <Is<E<mc::mk::Zero, u8>>>::ERROR)"]),
    ("gensource", "#[derive(Error, Debug)] #[error(«lit:\"g\"»)] pub struct E<«id:T»> { #[source] «id:alpha»: «ty:Option<T>» }", ["see(&E { alpha: Some(Leaf(1)) })", "format!(\"{} {}\", <Is<E<Leaf>>>::ERROR, <Is<E<u8>>>::ERROR)"]),
    ("genassoc", "#[derive(Error)] #[error(«lit:\"g {alpha}\"»)] pub struct E<T: ::mc::mk::Tr> { «id:alpha»: «ty:<T as ::mc::mk::Tr>::Ty», «id:beta»: «typath:::std::vec::Vec<T>» } impl<T: ::mc::mk::Tr> ::core::fmt::Debug for E<T> { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str(\"D\") } }",
     ["see(&E::<u8> { alpha: 1, beta: vec![] })", "format!(\"{} {}\", <Is<E<u8>>>::DISPLAY, <Is<E<mc::mk::Zero>>>::DISPLAY)"]),
    ("bounds", "#[derive(Error, Debug)] #[error(«lit:\"g {0}\"»)] pub struct E<«lt:'a», T: «pa:::core::fmt::Display» + ::core::fmt::Debug, const «id:N»: «tyid:usize»>(&«lt:'a» T, [«tyid:u8»; «exid:N»]) where «ty:T»: Clone;",
     ["E(&1u8, [0u8; 2]).to_string()", "see(&E(&2u8, [1u8; 1]))"]),
    ("lifetime", "#[derive(Error, Debug)] #[error(«lit:\"{a} {b}\"»)] pub enum E<«lt:'a»> { #[error(«lit:\"x {a}\"»)] A { «id:a»: &«lt:'a» «tyid:str» }, Bv { «id:a»: «tyid:u8», «id:b»: «tyid:u8» } }",
     ["E::A { a: \"s\" }.to_string()", "E::Bv { a: 1, b: 2 }.to_string()"]),
    ("static", "#[derive(Error, Debug)] #[error(«lit:\"{0}\"»)] pub struct E(#[source] &«lt:'static» «tyid:Leaf»);", ["see(&E(&Leaf(1)))"]),
    ("unused", "#[derive(Error, Debug)] #[error(«lit:\"{{}} lit\"»)] pub struct E<T>(«tyid:T», «ty:Vec<T>») where T: «pa:::core::fmt::Debug»;", ["see(&E(1u8, vec![2u8]))", "format!(\"{}\", <Is<E<mc::mk::OnlyDebug>>>::ERROR)"]),
    ("const", "#[derive(Error, Debug)] #[error(«lit:\"{KK} {alpha}\"»)] pub struct E { «id:alpha»: «tyid:u8» }\npub const KK: u8 = 9;", ["see(&E { alpha: 1 })"]),
    # `self` has the hygiene of the expansion in which it is written, so it is not put into a hole
    ("selfref", "#[derive(Error)] #[error(\"{self:?} {} {}\", self.alpha, «ex:1 + 1»)] pub struct «id:E» { «vis:pub» «id:alpha»: «tyid:u8» } impl ::core::fmt::Debug for «id:E» { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str(\"D\") } }", ["see(&E { alpha: 1 })"]),
    ("docs", "#[derive(Error, Debug)] «meta-attr:doc = \"x\"» «meta-attr:error(\"m {0}\")» «meta-attr:allow(dead_code)» pub struct E(«meta-attr:doc = \"y\"» «tyid:u8»);", ["see(&E(1))"]),
    ("concat", "#[derive(Error, Debug)] #[error(«lit:\"a\\n{0}\"», )] pub struct E(«tyid:u8»);", ["see(&E(1))"]),
    ("raw", "#[derive(Error, Debug)] #[error(«lit:r#\"a \"q\" {type} {}\"#», .«id:r#type»)] pub struct «id:r#E» { «id:r#type»: «tyid:u8», «id:r#fn»: «ty:r#str::Chars<'static>» }".replace(", «id:r#fn»: «ty:r#str::Chars<'static>»", ""), ["see(&E { r#type: 1 })"]),
    ("closure", "#[derive(Error, Debug)] #[error(«lit:\"{}\"», «ex:(|v: &u8| v + 1)»(«dex:.0»))] pub struct E(«tyid:u8»);", ["see(&E(1))"]),
    ("macroarg", "#[derive(Error, Debug)] #[error(«lit:\"{}\"», «ex:format_args!(\"{}-{}\", 1, 2)»)] pub struct E(«tyid:u8»);", ["see(&E(1))"]),
    ("matcharg", "#[derive(Error, Debug)] #[error(«lit:\"{}\"», match .0 { «ts:1 => \"one\",» _ => «ex:\"other\"» })] pub struct E(«tyid:u8»);", ["see(&E(1))", "see(&E(2))"]),
]
# rustc drops the invisible delimiters of a fragment that a procedural macro passes on: listed
# findings, each a program of its own.
RUSTC = [
    ("fragment/left", "{}", "$e * 3", "1 + 2", "u8", "1", "9"),
    ("fragment/right", "{}", "2 * $e", "3 + 1", "u8", "1", "8"),
    ("fragment/method", "{}", "$e.pow(2)", "1 + 2i32", "u8", "1", "9"),
    ("fragment/block", "{}", "{ $e * 3 }", "1 + 2", "u8", "1", "9"),
    ("fragment/type", "{}", "$e", "9", "&'static $t", "&1u8", "9"),
]
TN = [
    ("bt", "#[derive(Error, Debug)] #[error(«lit:\"b\"»)] pub struct E { «id:alpha»: «tyid:Backtrace» }", ["see(&E { alpha: Backtrace::disabled() })"]),
    ("btpath", "#[derive(Error, Debug)] #[error(«lit:\"b\"»)] pub struct E { «id:alpha»: «typath:::std::backtrace::Backtrace», «id:beta»: «tyid:u8» }", ["see(&E { alpha: Backtrace::disabled(), beta: 1 })"]),
    ("btopt", "#[derive(Error, Debug)] #[error(«lit:\"b\"»)] pub struct E { «meta-attr:backtrace» «id:alpha»: «ty:Option<Backtrace>» }", ["see(&E { alpha: Some(Backtrace::disabled()) })", "see(&E { alpha: None })"]),
    ("btfrom", "#[derive(Error, Debug)] #[error(«lit:\"b {0}\"»)] pub struct E(«meta-attr:from» «tyid:Leaf», «tyid:Backtrace»);", ["see(&E::from(Leaf(1)))"]),
    ("btfromopt", "#[derive(Error, Debug)] pub enum E { #[error(«lit:\"b\"»)] A { #[from] «id:cause»: «ty:Option<Leaf>», #[backtrace] «id:bt»: «ty:Option<Backtrace>» } }", ["see(&E::from(Leaf(1)))"]),
    ("btarc", "#[derive(Error, Debug)] pub enum E { #[error(«lit:\"b\"»)] A { #[from] «id:cause»: «tyid:Leaf», #[backtrace] «id:bt»: «ty:Arc<Backtrace>» } }", ["see(&E::from(Leaf(1)))"]),
    ("btfwd", "#[derive(Error, Debug)] #[error(«lit:\"b\"»)] pub struct E { «meta-attr:source» «meta-attr:backtrace» «id:cause»: «ty:::mc::Ans» }", ["see(&E { cause: ::mc::Ans::new(true) })", "see(&E { cause: ::mc::Ans::new(false) })"]),
    ("btenum", "#[derive(Error, Debug)] pub enum E { #[error(«lit:\"b\"»)] A { «id:source»: «ty:Box<dyn StdError>», «id:backtrace»: «tyid:Backtrace» }, #[error(transparent)] Bv(#[backtrace] #[from] «ty:::mc::Ans») }",
     ["see(&E::A { source: Box::new(Leaf(1)), backtrace: Backtrace::disabled() })", "see(&E::A { source: Box::new(::mc::Ans::new(true)), backtrace: Backtrace::disabled() })", "see(&E::Bv(::mc::Ans::new(true)))"]),
]
HOLE = re.compile("«([a-z-]+):(.*?)»", re.S)


def parts(text):
    """-> [(None, literal) | (category, content)]"""
    out, at = [], 0
    for m in HOLE.finditer(text):
        out.append((None, text[at:m.start()]))
        out.append((m.group(1), m.group(2)))
        at = m.end()
    out.append((None, text[at:]))
    return out


def frags(cat, text):
    cat = cat.replace("-attr", "")
    return [f for f in FRAG[cat] if not (f == "tt" and False)]


def hand(text):
    return "".join(("#[%s]" % t if k and k.endswith("-attr") else "(%s)" % t if k == "exg" else t) for k, t in parts(text))


def matcher(i, frag, d="$"):
    return "[ %s ]" % ("%s(%sh%d:tt)*" % (d, d, i) if frag == "tt*" else "%sh%d:%s" % (d, i, frag))


def use(i, frag, d="$"):
    return "%s(%sh%d)*" % (d, d, i) if frag == "tt*" else "%sh%d" % (d, i)


def build(text, choice, via):
    """choice: hole number -> fragment kind; via: None or hole -> second kind"""
    body, call, pat, fwd, pat2, i = [], [], [], [], [], 0
    for k, t in parts(text):
        if k is None:
            body.append(t)
            continue
        attr = k.endswith("-attr")
        if i in choice:
            f = choice[i]
            last = via[i] if via else f
            u = use(i, last)
            body.append("#[%s]" % u if attr else u)
            pat.append(matcher(i, f))
            call.append("[ %s ]" % t)
            if via:
                fwd.append("[ %s ]" % use(i, f))
                pat2.append(matcher(i, last))
        else:
            body.append("#[%s]" % t if attr else "(%s)" % t if k == "exg" else t)
        i += 1
    if not via:
        return "macro_rules! m { (%s) => { %s } }\nm! { %s }" % (" ".join(pat), "".join(body), " ".join(call))
    return "macro_rules! inner { (%s) => { %s } }\nmacro_rules! m { (%s) => { inner! { %s } } }\nm! { %s }" % (" ".join(pat2), "".join(body), " ".join(pat), " ".join(fwd), " ".join(call))


def nexts(frag, cat):
    """Kinds as which a fragment can be matched again."""
    cat = cat.replace("-attr", "")
    out = []
    for n in NEXT[frag]:
        if n.endswith("?"):
            n = n[:-1]
            if n not in FRAG[cat]:
                continue
        out.append(n)
    return out


def programs(c, templates, night):
    groups = {}
    pre = PRE + ("use ::std::backtrace::Backtrace;\n" if night else "")
    tmpl = {t[0]: t for t in templates}
    holes = {n: [(k, t) for k, t in parts(t[1]) if k] for n, t in tmpl.items()}

    def add(name, choice, via, tag):
        t = tmpl[name]
        key = "%s/%s/%s" % (name, tag, "-".join("%d%s%s" % (i, f, "." + via[i] if via else "") for i, f in sorted(choice.items())))
        return name, key, build(t[1], choice, via)

    def one(ch):
        name = ch(list(tmpl))
        hs = holes[name]
        mode = ch(["single", "pair", "all", "allbut", "subset"] if c.thorough else ["single", "pair", "all", "allbut"])
        if mode == "single":
            i = ch(len(hs))
            f = ch(frags(*hs[i]))
            n = ch([None] + nexts(f, hs[i][0]))
            return add(name, {i: f}, {i: n} if n else None, "single")
        if mode == "pair":
            if len(hs) < 3:
                return None
            i = ch(len(hs) - 1)
            j = i + 1 + ch(len(hs) - 1 - i)
            f, g = ch(frags(*hs[i])), ch(frags(*hs[j]))
            return add(name, {i: f, j: g}, None, "pair")
        if mode == "all":
            # the k-th kind of each hole, in step
            k = ch(3)
            n = ch([None, 0, 1])
            chs = {i: frags(*h)[k % len(frags(*h))] for i, h in enumerate(hs)}
            via = {i: nexts(f, hs[i][0])[n % len(nexts(f, hs[i][0]))] for i, f in chs.items()} if n is not None else None
            return add(name, chs, via, "all%d" % k)
        if mode == "allbut":
            if len(hs) < 3:
                return None
            i = ch(len(hs))
            k = ch(2)
            return add(name, {j: frags(*h)[k % len(frags(*h))] for j, h in enumerate(hs) if j != i}, None, "allbut%d" % i)
        # every set of holes, with every kind for each
        if len(hs) > 6:
            ids = [i for i in range(len(hs))]
            pick = {}
            for i in ids:
                if ch.flag():
                    pick[i] = frags(*hs[i])[0]
            return add(name, pick, None, "subset") if pick else None
        pick = {}
        for i in range(len(hs)):
            f = ch([None] + frags(*hs[i]))
            if f:
                pick[i] = f
        return add(name, pick, None, "subset") if pick else None
    seen = set()
    for name, key, text in c.explore(one):
        if text in seen:
            continue
        seen.add(text)
        groups.setdefault(name, []).append((key, text))
    progs = []
    for name, cases in groups.items():
        t = tmpl[name]
        obs = "pub fn obs() -> Vec<String> { vec![%s] }\n" % ", ".join(t[2])
        h = "pub mod hand { %s%s\n%s }\n" % (pre, hand(t[1]), obs)
        for k in range(0, len(cases), 12):
            part = cases[k:k + 12]
            mods = "".join("pub mod m%d { %s%s\n%s }\n" % (i, pre, text, obs) for i, (key, text) in enumerate(part))
            run = "pub fn run(c: &mut ::mc::Ctx) { let want = hand::obs(); c.note(&format!(\"{:?}\", want)); %s }" % " ".join(
                "c.eqf(%s, format_args!(\"{:?}\", m%d::obs()), format_args!(\"{:?}\", want));" % (rust_str(key), i) for i, (key, _) in enumerate(part))
            progs.append(Prog("%s/%d" % (name, k // 12), h + mods + run))
    return progs, sum(len(g) for g in groups.values())


# ---- arguments with fragments anywhere in them ---------------------------------
# fragment, kind, content; #p in an expression stands for it. What is handed on is atomic: rustc
# drops the delimiters around anything longer (known findings above).
PIECES = [("p", "expr", "s0()"), ("q", "expr", "7"), ("w", "expr", "(41, (42, 43))"), ("v", "expr", "[21i64, 22, 23]"), ("k", "ident", "KZ"), ("l", "literal", "9"), ("b", "block", "{ 4i64 }"),
          ("h", "path", "g"), ("y", "ty", "i64"), ("e", "expr", "\"abc\""), ("fx", "ident", "x"), ("fm", "ident", "m"), ("ft", "ident", "t"), ("one", "literal", "1"), ("u", "tt", "(6i64)"), ("c", "expr", "|z: i64| z + 2")]
PLEAVES = ["#p.x", "#p.m()", "#p.t.1.0", "#p.#fx", "#p.#fm()", "#p.#ft.1.#one", "#p.#ft.#one.1", "#p.id().t.0", "#p.add(#q)", "#p.a()", "#w.0", "#w.1.1", "#w.#one.0", "#v[1]", "#v[#q - 6]", "(#v.len() as i64)", "(#e.len() as i64)", "#q", "#q.tr()",
           "#k", "#k.pow(2)", "#l", "(#b)", "#u", "#u.pow(2)", "#h(#q, *@a)", "#h(*@a, #k)", "<#y>::max(3, #q)", "#y::from(#k)", "<#y as Tr>::C", "@s.#fx.max(*@a)",
           "@s.#fm()", "@t.#one.0", "@v[#one]", "r(@a)", "(*@f)(#q)", "(#p.n.is_some() as i64)"]
EXTRA = [("x", "u8"), ("m", "u8"), ("id", "u8"), ("add", "u8"), ("len", "u8"), ("pow", "u8"), ("tr", "u8"), ("max", "u8")]


def fragment_exprs(c):
    from . import c02

    def one(ch):
        t = ch([t for t in c02.TEMPL + c02.TURBO if "macro_rules" not in t])
        n = max(c02.nholes(t), 1)
        k = ch(n)
        leaf = ch(PLEAVES)
        others = ch([["*@b", "@s.t.1.0", "2", "@t.1.1.0"]] + ([["#q", "@s.x", "#p.x", "*@a"]] if c.thorough else []))
        holes = [others[(i + k) % 4] for i in range(n)]
        holes[k] = leaf
        b = c02.BOOLS[(PLEAVES.index(leaf) + k) % len(c02.BOOLS)]
        return c02.fill(t, holes, [b, "#q == *@a", "!@o.is_none()"])
    seen = list(dict.fromkeys(c.explore(one)))
    return [frag_prog("arg/%d" % i, seen[i:i + 40], i // 40) for i in range(0, len(seen), 40)], len(seen)


def frag_prog(id, exprs, turn):
    from . import c02
    names = c02.NAMES

    def rend(e, style, k):
        def f(m):
            n = m.group(1)
            if style == "oracle":
                return "f_" + n
            i = names.index(n)
            if k % 2:
                return ".$%s%s" % ("fld" if style == "named" else "idx", n)
            return "." + (n if style == "named" else str(i))
        e = re.sub(r"@([a-z])\b", f, e)
        sub = {p: t for p, _, t in PIECES}
        if style == "oracle":
            return re.sub("#([a-z]+)", lambda m: "(%s)" % sub[m.group(1)] if sub[m.group(1)][0] in "{|" else sub[m.group(1)], e)
        return re.sub("#([a-z]+)", lambda m: "$" + m.group(1), e)
    pat = ["$%s:%s" % p[:2] for p in PIECES] + ["$fld%s:ident" % n for n in names] + ["$idx%s:literal" % n for n in names]
    call = [p[2] for p in PIECES] + names + [str(i) for i in range(len(names))]
    o = [c02.HEADER, "pub const KZ: i64 = 12;\nmacro_rules! mk { (%s) => {\n#[derive(Error)] pub enum E {\n" % " ; ".join("[ %s ]" % p for p in pat)]
    more = "".join(", %s: %s" % x for x in EXTRA)
    for i, e in enumerate(exprs):
        k = i + turn
        o.append('#[error("<{}>", %s)] N%d { %s%s },\n' % (rend(e, "named", k), i, ", ".join("%s: %s" % f[:2] for f in c02.FIELDS), more))
        o.append('#[error("<{q}>", q = %s)] T%d(%s),\n' % (rend(e, "tuple", k), i, ", ".join(f[1] for f in c02.FIELDS)))
    o.append("} } }\nmk!(%s);\n" % " ; ".join("[ %s ]" % p for p in call) + c02.DBG % "E")
    o.append("fn want(i: usize, %s) -> i64 { match i {\n" % ", ".join("f_%s: &%s" % f[:2] for f in c02.FIELDS))
    o += ["%d => { %s }\n" % (i, rend(e, "oracle", 0)) for i, e in enumerate(exprs)]
    o.append("_ => unreachable!() } }\npub fn run(c: &mut ::mc::Ctx) {\n%s\nlet tag: &[&str] = &[%s];\nfor i in 0..%d { let (n, t) = match i {\n" % (
        "".join("let v_%s: %s = %s;" % f for f in c02.FIELDS), ", ".join(rust_str(rend(e, "named", i + turn)) for i, e in enumerate(exprs)), len(exprs)))
    for i in range(len(exprs)):
        o.append("%d => (E::N%d { %s%s }, E::T%d(%s)),\n" % (i, i, ", ".join("%s: v_%s.clone()" % (f[0], f[0]) for f in c02.FIELDS), "".join(", %s: 200" % x[0] for x in EXTRA), i, ", ".join("v_%s.clone()" % f[0] for f in c02.FIELDS)))
    o.append("_ => unreachable!() };\nlet w = want(i, %s);\nc.eqf(tag[i], format_args!(\"{}\", n), format_args!(\"<{}>\", w)); c.eqf(tag[i], format_args!(\"{}\", t), format_args!(\"<{}>\", w)); } }" % ", ".join("&v_" + f[0] for f in c02.FIELDS))
    return Prog(id, "".join(o), 2 * len(exprs))


def run(tier):
    c = Check("C20", "model_checking", tier)
    c.bases_parallel(("std", STABLE), ("std", NIGHTLY))
    n = 0
    p, k = programs(c, T, False)
    ask = HEAD.replace("BT(e)", "\"\"").replace("ASK", "")
    n += k
    for edition in ("2018", "2021", "2024"):
        c.run_progs(p, "std", STABLE, edition=edition, head=ask, tag="s" + edition)
    p, k = programs(c, TN, True)
    n += k
    ask = "#![feature(error_generic_member_access)]\n" + HEAD.replace("BT(e)", "bt(e)").replace("ASK", "pub fn bt(e: &(dyn ::std::error::Error + 'static)) -> &'static str { if ::std::error::request_ref::<::std::backtrace::Backtrace>(e).is_some() { \" bt\" } else { \" -\" } }")
    c.run_progs(p, "std", NIGHTLY, edition="2021", head=ask, tag="n2021")
    fp, m = fragment_exprs(c)
    n += m
    c.count(len(fp))
    c.run_progs(fp, "std", STABLE, edition="2021", head="#![allow(warnings)]\n", tag="args")
    rp = []
    for pid, lit, arg, e, ty, v, want in RUSTC:
        dyn = "dyn ::core::fmt::Debug + Sync" if "$t" in ty else "u8"
        rp.append(Prog(pid, PRE + "macro_rules! m { ($e:expr, $t:ty) => { #[derive(Error, Debug)] #[error(\"%s\", %s)] pub struct E<T>(%s, #[source] T) where %s: ::core::fmt::Debug; } }\nm!(%s, %s);\n"
                       "pub fn run(c: &mut ::mc::Ctx) { c.eqf(\"message\", format_args!(\"{}\", E(%s, Leaf(1))), format_args!(\"%s\")); }" % (lit, arg, ty, ty, e, dyn, v, want)))
        c.count(1)
    c.run_progs(rp, "std", STABLE, edition="2021", head=HEAD.replace("BT(e)", "\"\"").replace("ASK", ""), tag="rustc")
    for t in T[:2] + TN[-1:]:
        c.sample(hand(t[1])[:300])
    return c.finish(templates=len(T) + len(TN), macro_types=n)
