#![no_std]
#![no_main]
#![allow(warnings)]
use core::{fmt::{self, Write, Debug, Display}, error::Error as StdError};
mod user {
    use super::*;
    use ::thiserror::Error;
    #[derive(Error, Debug)] #[error("leaf {0}")] pub struct Leaf(pub u8);
    #[derive(Error, Debug)] #[error("unit")] pub struct Unit;
    #[derive(Error, Debug)] #[error("{a:>4} {b:?} {}", .a + 1)] pub struct Named { pub a: u8, pub b: &'static str, #[source] pub c: Leaf }
    #[derive(Error, Debug)] pub enum E<T: Debug + Display> {
        #[error("a {0:03}")] A(T),
        #[error("b {x} {y:?}")] B { x: T, y: Option<u8> },
        #[error(transparent)] C(#[from] Leaf),
        #[error(transparent)] D { #[from] source: Named },
        #[error("e")] F { #[from] cause: Unit },
        #[error("o")] O { source: Option<Leaf> },
        #[error(fmt = show)] S(u8, T),
        #[error("s")] R(#[source] &'static (dyn StdError + Send + Sync + 'static)),
    }
    pub fn show<T: Display>(a: &u8, t: &T, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}/{}", a, t) }
    #[derive(Error, Debug)] #[error("g {source}")] pub struct G<T: StdError + 'static> { pub source: T }
    #[derive(Error, Debug)] pub enum Never {}
}
use user::*;
struct Buf { b: [u8; 64], n: usize }
impl Write for Buf { fn write_str(&mut self, s: &str) -> fmt::Result { for c in s.bytes() { if self.n == 64 { return Err(fmt::Error); } self.b[self.n] = c; self.n += 1; } Ok(()) } }
fn is(e: &dyn StdError, want: &str, source: Option<&str>) -> bool {
    let mut b = Buf { b: [0; 64], n: 0 };
    if write!(b, "{}", e).is_err() || &b.b[..b.n] != want.as_bytes() { return false; }
    match (e.source(), source) {
        (None, None) => true,
        (Some(s), Some(w)) => { let mut b = Buf { b: [0; 64], n: 0 }; write!(b, "{}", s).is_ok() && &b.b[..b.n] == w.as_bytes() }
        _ => false,
    }
}
static LEAF: Leaf = Leaf(9);
#[no_mangle]
pub extern "C" fn main(_: i32, _: *const *const u8) -> i32 {
    let n = || Named { a: 7, b: "q", c: Leaf(1) };
    let cases = [
        is(&Unit, "unit", None), is(&Leaf(3), "leaf 3", None), is(&n(), "   7 \"q\" 8", Some("leaf 1")),
        is(&E::A(5u8), "a 005", None), is(&E::B { x: 1u8, y: Some(2) }, "b 1 Some(2)", None), is(&E::<u8>::from(Leaf(2)), "leaf 2", None),
        is(&E::<u8>::from(n()), "   7 \"q\" 8", Some("leaf 1")), is(&E::<u8>::from(Unit), "e", Some("unit")),
        is(&E::<u8>::O { source: None }, "o", None), is(&E::<u8>::O { source: Some(Leaf(4)) }, "o", Some("leaf 4")), is(&E::S(1, 2u8), "1/2", None),
        is(&E::<u8>::R(&LEAF), "s", Some("leaf 9")), is(&G { source: Leaf(6) }, "g leaf 6", Some("leaf 6")),
    ];
    let mut k = 0;
    while k < cases.len() { if !cases[k] { return k as i32 + 1; } k += 1; }
    0
}
#[panic_handler] fn panic(_: &core::panic::PanicInfo) -> ! { loop {} }
