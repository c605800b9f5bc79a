//! Prelude of the generated programs: probe types, reference helpers, reporting.
#![allow(dead_code)]
#![cfg_attr(nightly, feature(error_generic_member_access))]
#[doc(hidden)]
pub extern crate std as realstd;
use std::any::Any;
use std::collections::HashSet;
use std::collections::hash_map::DefaultHasher;
use std::error::Error as StdError;
use std::fmt::{self, Debug, Display, Write as _};
use std::hash::{Hash, Hasher};
use std::io::Write as _;

pub struct Ctx {
    prog: &'static str,
    checks: u64,
    outcomes: HashSet<u64>,
    mism: u64,
    stats: std::collections::BTreeMap<&'static str, u64>,
}

impl Ctx {
    fn outcome(&mut self, s: &str) {
        let mut h = DefaultHasher::new();
        s.hash(&mut h);
        self.outcomes.insert(h.finish());
    }
    pub fn fail(&mut self, tag: &str, detail: &str) {
        self.mism += 1;
        if self.mism < 200 {
            println!("MISMATCH\t{}\t{}\t{}", self.prog, tag, detail.escape_debug());
        }
    }
    /// to_string() must equal the oracle, whatever formatter options the caller uses.
    pub fn msg(&mut self, tag: &str, got: &dyn Display, want: fmt::Arguments) {
        let w = want.to_string();
        self.outcome(&w);
        self.checks += 1;
        let g = got.to_string();
        if g != w {
            return self.fail(tag, &format!("displays {:?}, want {:?}", g, w));
        }
        let g = format!("{:*^+#031.2}", got);
        if g != w {
            return self.fail(tag, &format!("under outer formatter options displays {:?}, want {:?}", g, w));
        }
        let g = format!("{:01}", got);
        if g != w {
            return self.fail(tag, &format!("under outer formatter options displays {:?}, want {:?}", g, w));
        }
    }
    pub fn eq(&mut self, tag: &str, got: &str, want: &str) {
        self.outcome(want);
        self.checks += 1;
        if got != want {
            self.fail(tag, &format!("got {:?}, want {:?}", got, want));
        }
    }
    pub fn eqf(&mut self, tag: &str, got: fmt::Arguments, want: fmt::Arguments) {
        self.eq(tag, &got.to_string(), &want.to_string());
    }
    pub fn ok(&mut self, tag: &str, cond: bool, what: &str) {
        self.checks += 1;
        self.outcome(what);
        if !cond {
            self.fail(tag, what);
        }
    }
}

pub fn main(table: &[(&'static str, fn(&mut Ctx))]) {
    let trace = std::env::var_os("MC_TRACE").is_some();
    let mut c = Ctx { prog: "", checks: 0, outcomes: HashSet::new(), mism: 0, stats: Default::default() };
    for (id, f) in table {
        c.prog = id;
        if trace {
            println!("RUN\t{}", id);
            std::io::stdout().flush().unwrap();
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut c)));
        if let Err(e) = r {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            c.fail("panic", &m);
        }
    }
    for (k, v) in &c.stats {
        println!("STAT\t{}\t{}", k, v);
    }
    println!("DONE\t{}\t{}", c.checks, c.outcomes.len());
}

/// Prints which trait formatted which object, and every formatter option.
#[derive(Clone, PartialEq, Eq)]
pub struct P(pub u8);

pub fn opts(f: &fmt::Formatter) -> String {
    let mut s = String::new();
    write!(
        s,
        "[{}{}{}{}{}{:?}{:?}]",
        f.fill().escape_default(),
        match f.align() {
            None => "",
            Some(fmt::Alignment::Left) => "<",
            Some(fmt::Alignment::Right) => ">",
            Some(fmt::Alignment::Center) => "^",
        },
        if f.sign_plus() { "+" } else if f.sign_minus() { "-" } else { "" },
        if f.alternate() { "#" } else { "" },
        if f.sign_aware_zero_pad() { "0" } else { "" },
        f.width(),
        f.precision(),
    )
    .unwrap();
    s
}

macro_rules! probe {
    ($t:ty, $($tr:ident $tag:literal),*) => {$(
        impl fmt::$tr for $t {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                let o = opts(f);
                // {:x?} and {:X?} are only visible through a nested number.
                if $tag == "?" {
                    f.write_str(&format!("<{}{}{}>", $tag, self.0, o))?;
                    return Debug::fmt(&170u8, f);
                }
                f.write_str(&format!("<{}{}{}>", $tag, self.0, o))
            }
        }
    )*};
}

probe!(P, Display "d", Debug "?", Octal "o", LowerHex "x", UpperHex "X", Binary "b", LowerExp "e", UpperExp "E", Pointer "p");
impl StdError for P {}

/// A leaf error with an identity.
#[derive(Debug, PartialEq, Eq, Clone)]
pub struct Leaf(pub u32);
impl Display for Leaf {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "leaf{}", self.0)
    }
}
impl StdError for Leaf {}

/// An error whose source is a Leaf and whose Display shows the formatter options.
#[derive(Debug)]
pub struct Node(pub u32, pub Option<Leaf>);
impl Display for Node {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let o = opts(f);
        write!(f, "node{}{}", self.0, o)
    }
}
impl StdError for Node {
    fn source(&self) -> Option<&(dyn StdError + 'static)> {
        self.1.as_ref().map(|l| l as _)
    }
}

/// Dereferences to dyn Error without being an Error itself.
pub struct Handle(pub Box<dyn StdError + Send + Sync>);
impl std::ops::Deref for Handle {
    type Target = dyn StdError + Send + Sync;
    fn deref(&self) -> &Self::Target {
        &*self.0
    }
}
impl Debug for Handle {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        Debug::fmt(&*self.0, f)
    }
}
impl Display for Handle {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        Display::fmt(&*self.0, f)
    }
}

/// Human-readable identity of an optional error reference.
pub fn src(e: Option<&(dyn StdError + 'static)>) -> String {
    match e {
        None => "none".to_owned(),
        Some(e) => format!("some({})", e),
    }
}

/// Accepts `left` characters, truncating the write that crosses the limit, then fails.
pub struct Short {
    pub left: usize,
    pub got: String,
    pub after: usize,
    pub failed: bool,
}
impl fmt::Write for Short {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            self.after += 1;
            return Err(fmt::Error);
        }
        for ch in s.chars() {
            if self.left == 0 {
                self.failed = true;
                return Err(fmt::Error);
            }
            self.left -= 1;
            self.got.push(ch);
        }
        Ok(())
    }
}

/// Display in n writes; if `err`, reports failure of its own after them.
#[derive(Clone)]
pub struct Multi(pub usize, pub bool);
impl Display for Multi {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for i in 0..self.0 {
            f.write_str(["<", "m", "\u{e9}", ">"][i % 4])?;
        }
        if self.1 { Err(fmt::Error) } else { Ok(()) }
    }
}
impl Debug for Multi {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("D")?;
        Display::fmt(self, f)
    }
}
impl StdError for Multi {}

impl Ctx {
    pub fn stat(&mut self, k: &'static str, n: u64) {
        *self.stats.entry(k).or_insert(0) += n;
    }
    /// Every fault of the writer, at every point. `full` is what is to be written;
    /// `own` says that the error itself (a field or fmt function) reports failure
    /// after `full`.
    pub fn faults(&mut self, tag: &str, e: &dyn Display, full: &str, own: bool) {
        self.outcome(full);
        let len = full.chars().count();
        // one past the end: a fault that never fires
        for opt in 0..3 {
            let go = |w: &mut dyn fmt::Write| match opt {
                0 => write!(w, "{}", e),
                1 => write!(w, "{:_>80.3}", e),
                _ => w.write_fmt(format_args!("{:#?}", DisplayAsDebug(e))),
            };
            for k in 0..=len + 1 {
                let mut w = Short { left: k, got: String::new(), after: 0, failed: false };
                let r = go(&mut w);
                self.checks += 1;
                let fired = k < len;
                if fired {
                    self.stat("fired", 1);
                }
                let want: String = full.chars().take(k).collect();
                if w.failed != fired || w.got != want || w.after != 0 || r.is_err() != (fired || own) {
                    return self.fail(tag, &format!("writer failing after {} characters (way {}): wrote {:?}, want {:?}; {} writes after the failure; result {:?}", k, opt, w.got, want, w.after, r));
                }
            }
            // fault at every write call
            for n in 0.. {
                let mut w = Faulty::new(n);
                let r = go(&mut w);
                self.checks += 1;
                if w.failed {
                    self.stat("fired", 1);
                }
                if w.after != 0 || r.is_err() != (w.failed || own) || !full.starts_with(&w.got) || (!w.failed && w.got != full) {
                    return self.fail(tag, &format!("writer failing at write {} (way {}): wrote {:?} of {:?}; {} writes after the failure; result {:?}", n, opt, w.got, full, w.after, r));
                }
                if !w.failed {
                    break;
                }
            }
            // a fault that heals: only one write fails
            for n in 0.. {
                let mut w = Once { at: n, seen: 0, got: String::new(), failed: false };
                let r = go(&mut w);
                self.checks += 1;
                if r.is_err() != (w.failed || own) || !full.starts_with(&w.got) || (!w.failed && w.got != full) {
                    return self.fail(tag, &format!("writer failing once at write {} (way {}): wrote {:?} of {:?}; result {:?}", n, opt, w.got, full, r));
                }
                if !w.failed {
                    break;
                }
                self.stat("fired", 1);
            }
        }
    }
}

struct DisplayAsDebug<'a>(&'a dyn Display);
impl<'a> Debug for DisplayAsDebug<'a> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        Display::fmt(self.0, f)
    }
}

/// Fails exactly once, at the given write.
pub struct Once {
    pub at: usize,
    pub seen: usize,
    pub got: String,
    pub failed: bool,
}
impl fmt::Write for Once {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let n = self.seen;
        self.seen += 1;
        if n == self.at {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

/// Fails at the n-th write (0-based); records what was accepted before.
pub struct Faulty {
    pub left: usize,
    pub got: String,
    pub after: usize,
    pub failed: bool,
}
impl Faulty {
    pub fn new(n: usize) -> Self {
        Faulty { left: n, got: String::new(), after: 0, failed: false }
    }
}
impl fmt::Write for Faulty {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            self.after += 1;
            return Err(fmt::Error);
        }
        if self.left == 0 {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.left -= 1;
        self.got.push_str(s);
        Ok(())
    }
}

impl Ctx {
    pub fn count(&mut self, n: u64) {
        self.checks += n;
    }
    pub fn note(&mut self, s: &str) {
        self.outcome(s);
    }
}

pub fn addr<T: ?Sized>(x: &T) -> usize {
    x as *const T as *const () as usize
}

pub fn as_any<T: Any>(x: &T) -> &dyn Any {
    x
}

impl Ctx {
    /// source() must be None, or an error with this Display at one of these addresses.
    pub fn source_is(&mut self, tag: &str, e: &dyn StdError, want: Option<(&str, &[usize])>) {
        self.checks += 1;
        for _ in 0..2 {
            let got = e.source();
            match (&got, &want) {
                (None, None) => self.outcome("none"),
                (Some(g), Some((d, at))) => {
                    self.outcome(d);
                    let s = g.to_string();
                    if s != *d || (!at.is_empty() && !at.contains(&addr(*g))) {
                        return self.fail(tag, &format!("source() is {:?} (address {}), want {:?}", s, if at.contains(&addr(*g)) { "right" } else { "wrong" }, d));
                    }
                }
                (Some(g), None) => {
                    let s = g.to_string();
                    return self.fail(tag, &format!("source() is {:?}, want none", s));
                }
                (None, Some((d, _))) => return self.fail(tag, &format!("source() is none, want {:?}", d)),
            }
        }
    }
}

include!("opts.rs");

impl Ctx {
    /// `e` must format like `disp` under every option and have the source of `inner`.
    pub fn transparent(&mut self, tag: &str, e: &dyn StdError, disp: &dyn Display, inner: &dyn StdError) {
        let (mut g, mut w) = (Vec::new(), Vec::new());
        all_options(&DynDisplay(e), &mut g);
        all_options(disp, &mut w);
        for (g, w) in g.iter().zip(&w) {
            self.checks += 1;
            if g != w {
                return self.fail(tag, &format!("{{:{}}} displays {:?}, the field {:?}", g.0, g.1, w.1));
            }
        }
        self.outcome(&w[0].1);
        self.checks += 1;
        let show = |s: Option<&(dyn StdError + 'static)>| s.map(|s| (s.to_string(), addr(s)));
        let (gs, ws) = (show(e.source()), show(inner.source()));
        if gs.as_ref().map(|x| (&x.0, x.1)) != ws.as_ref().map(|x| (&x.0, x.1)) {
            self.fail(tag, &format!("source() is {:?}, the field's is {:?}", gs.map(|x| x.0), ws.map(|x| x.0)));
        }
    }
}
struct DynDisplay<'a>(&'a dyn StdError);
impl<'a> Display for DynDisplay<'a> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        Display::fmt(self.0, f)
    }
}

/// Does a concrete type implement a trait? (false when it does not, never an error)
#[macro_export]
macro_rules! impls {
    ($t:ty : $($tr:tt)+) => {{
        trait No { const V: bool = false; }
        impl<T: ?Sized> No for T {}
        struct W<T: ?Sized>(::core::marker::PhantomData<T>);
        #[allow(dead_code)]
        impl<T: ?Sized + $($tr)+> W<T> { const V: bool = true; }
        <W<$t>>::V
    }};
}

/// An error with an identity that survives moves and nothing else.
pub struct Tok(pub Box<u32>);
impl Tok {
    pub fn new(n: u32) -> (Self, usize) {
        let b = Box::new(n);
        let a = addr(&*b);
        (Tok(b), a)
    }
    pub fn at(&self) -> usize {
        addr(&*self.0)
    }
}
impl Debug for Tok {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Tok{}", self.0)
    }
}
impl Display for Tok {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "tok{}", self.0)
    }
}
impl StdError for Tok {}
impl Drop for Tok {
    fn drop(&mut self) {
        DROPS.with(|d| d.set(d.get() + 1));
    }
}
thread_local!(static DROPS: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });
pub fn drops() -> u32 {
    DROPS.with(|d| d.replace(0))
}

/// An error that answers a request for a backtrace if `on`, and always one for a u64.
#[cfg(nightly)]
#[derive(Debug)]
pub struct Ans {
    pub bt: std::backtrace::Backtrace,
    pub on: bool,
    pub tag: u64,
}
#[cfg(nightly)]
impl Ans {
    pub fn new(on: bool) -> Self {
        Ans { bt: std::backtrace::Backtrace::disabled(), on, tag: 7 }
    }
}
#[cfg(nightly)]
impl Display for Ans {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("ans")
    }
}
#[cfg(nightly)]
impl StdError for Ans {
    fn provide<'a>(&'a self, request: &mut std::error::Request<'a>) {
        if self.on {
            request.provide_ref::<std::backtrace::Backtrace>(&self.bt);
        }
        request.provide_ref::<u64>(&self.tag);
    }
}
#[cfg(nightly)]
impl Ctx {
    /// The request for a backtrace must be answered with one of these addresses (0: not answered);
    /// the request for a u64 reaches the source as stated.
    pub fn bt_is(&mut self, tag: &str, e: &dyn StdError, want: &[usize], forwards: Option<bool>) {
        for _ in 0..2 {
            self.checks += 1;
            let got = std::error::request_ref::<std::backtrace::Backtrace>(e).map_or(0, addr);
            self.outcome(if got == 0 { "none" } else { "some" });
            if !want.contains(&got) {
                return self.fail(tag, &format!("request for a backtrace: answered {}, expected {}", got != 0, if want == [0] { "no answer" } else { "the designated one" }));
            }
            if let Some(f) = forwards {
                if std::error::request_ref::<u64>(e).is_some() != f {
                    return self.fail(tag, &format!("another request reaches the source: {}", !f));
                }
            }
        }
    }
}

/// Which traits a concrete type implements: `<Is<T>>::DISPLAY` and so on.
pub struct Is<T: ?Sized>(std::marker::PhantomData<T>);
macro_rules! is {
    ($($c:ident $($tr:path)|+;)*) => {
        pub trait IsNot { $(const $c: bool = false;)* }
        impl<T: ?Sized> IsNot for Is<T> {}
        $(is!(@ $c $($tr)|+);)*
    };
    (@ $c:ident $tr:path) => { impl<T: ?Sized + $tr> Is<T> { pub const $c: bool = true; } };
}
is! { DISPLAY fmt::Display; DEBUG fmt::Debug; OCTAL fmt::Octal; LOWERHEX fmt::LowerHex; UPPERHEX fmt::UpperHex; BINARY fmt::Binary; LOWEREXP fmt::LowerExp; UPPEREXP fmt::UpperExp; POINTER fmt::Pointer; ERROR StdError; SEND Send; SYNC Sync; }

impl Ctx {
    /// Pairs of (got, want).
    pub fn pairs(&mut self, tag: &str, p: &[(&str, bool, bool)]) {
        for (what, got, want) in p {
            self.checks += 1;
            self.outcome(&format!("{}{}", what, want));
            if got != want {
                return self.fail(tag, &format!("{}: {}, but should be {}", what, got, want));
            }
        }
    }
}

/// Marker types that implement exactly the listed traits.
macro_rules! marker {
    ($($n:ident: $($tr:ident)*;)*) => {$(
        #[derive(Clone)]
        pub struct $n;
        $(impl fmt::$tr for $n { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(stringify!($tr)) } })*
    )*};
}
pub mod mk {
    use super::*;
    marker! {
        Zero: ;
        OnlyDisplay: Display; OnlyDebug: Debug; OnlyOctal: Octal; OnlyLowerHex: LowerHex; OnlyUpperHex: UpperHex; OnlyBinary: Binary; OnlyLowerExp: LowerExp; OnlyUpperExp: UpperExp; OnlyPointer: Pointer;
        DispDbg: Display Debug; DbgHex: Debug LowerHex; DispHex: Display LowerHex;
        NoDisplay: Debug Octal LowerHex UpperHex Binary LowerExp UpperExp Pointer;
        NoDebug: Display Octal LowerHex UpperHex Binary LowerExp UpperExp Pointer;
        NoOctal: Display Debug LowerHex UpperHex Binary LowerExp UpperExp Pointer;
        NoLowerHex: Display Debug Octal UpperHex Binary LowerExp UpperExp Pointer;
        NoUpperHex: Display Debug Octal LowerHex Binary LowerExp UpperExp Pointer;
        NoBinary: Display Debug Octal LowerHex UpperHex LowerExp UpperExp Pointer;
        NoLowerExp: Display Debug Octal LowerHex UpperHex Binary UpperExp Pointer;
        NoUpperExp: Display Debug Octal LowerHex UpperHex Binary LowerExp Pointer;
        NoPointer: Display Debug Octal LowerHex UpperHex Binary LowerExp UpperExp;
        Err: Display Debug;
        All: Display Debug Octal LowerHex UpperHex Binary LowerExp UpperExp Pointer;
    }
    /// Like All, but borrows.
    pub struct Lent<'a>(pub &'a u8);
    macro_rules! lent { ($($tr:ident)*) => {$( impl<'a> fmt::$tr for Lent<'a> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("lent") } } )*}; }
    lent!(Display Debug Octal LowerHex UpperHex Binary LowerExp UpperExp Pointer);
    impl<'a> StdError for Lent<'a> {}
    impl StdError for Err {}
    impl StdError for All {}
    /// Display and Debug whatever T is / when T is.
    pub struct Any<T: ?Sized>(pub std::marker::PhantomData<T>);
    impl<T: ?Sized> Display for Any<T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("any") } }
    impl<T: ?Sized> Debug for Any<T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("any") } }
    impl<T: ?Sized> StdError for Any<T> {}
    pub struct Same<T>(pub T);
    macro_rules! same { ($($tr:ident)*) => {$( impl<T: fmt::$tr> fmt::$tr for Same<T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.0.fmt(f) } } )*}; }
    same!(Display Debug Octal LowerHex UpperHex Binary LowerExp UpperExp Pointer);
    impl<T: StdError> StdError for Same<T> {}
    /// Display when T is Debug: a bound on the parameter would be wrong.
    pub struct Swap<T>(pub T);
    impl<T: Debug> Display for Swap<T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.0.fmt(f) } }
    impl<T: Display> Debug for Swap<T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.0.fmt(f) } }
    pub struct Two<T, U>(pub T, pub U);
    impl<T: Debug, U: Display> Display for Two<T, U> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.0.fmt(f) } }
    impl<T, U: Debug> Debug for Two<T, U> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.1.fmt(f) } }
    impl<T: StdError, U> StdError for Two<T, U> where Two<T, U>: Debug + Display {}
    /// A trait every type has, with an associated type.
    pub trait Tr { type Ty; type Gen<X>; }
    impl<T> Tr for T { type Ty = T; type Gen<X> = Same<X>; }
    /// A trait every type has, whose associated type depends on its argument only.
    pub trait Via<T> { type Out; }
    impl<S, T> Via<T> for S { type Out = Swap<T>; }
    /// A trait the markers have, but not every type.
    pub trait Mk {}
    macro_rules! mks { ($($n:ident)*) => {$( impl Mk for $n {} )*}; }
    mks!(Zero OnlyDisplay OnlyDebug OnlyOctal OnlyLowerHex OnlyUpperHex OnlyBinary OnlyLowerExp OnlyUpperExp OnlyPointer DispDbg DbgHex DispHex
        NoDisplay NoDebug NoOctal NoLowerHex NoUpperHex NoBinary NoLowerExp NoUpperExp NoPointer Err All u8);
    impl<'a> Mk for Lent<'a> {}
    impl<'a, T: ?Sized + Mk> Mk for &'a T {}
    impl<T: Mk> Mk for Vec<T> {}
    impl<T: Mk> Mk for Same<T> {}
}

/// Displays by calling a function.
pub struct As<'a>(pub &'a dyn Fn(&mut fmt::Formatter) -> fmt::Result);
impl<'a> Display for As<'a> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        (self.0)(f)
    }
}
impl Ctx {
    /// `e` must format like `want` under every option.
    pub fn like(&mut self, tag: &str, e: &dyn Display, want: &dyn Display) {
        let (mut g, mut w) = (Vec::new(), Vec::new());
        all_options(&As(&|f| e.fmt(f)), &mut g);
        all_options(&As(&|f| want.fmt(f)), &mut w);
        for (g, w) in g.iter().zip(&w) {
            self.checks += 1;
            if g != w {
                return self.fail(tag, &format!("{{:{}}} displays {:?}, want {:?}", g.0, g.1, w.1));
            }
        }
        self.outcome(&w[0].1);
    }
}
