use crate::sup::*;
use std::cell::Cell;
pub fn en(a: u64) -> Endianness { match a % 3 { 0 => Endianness::Big, 1 => Endianness::Little, _ => Endianness::Native } }
pub fn oe(s: Endianness) -> E { match s { Endianness::Big => B, Endianness::Little => L, Endianness::Native => if cfg!(target_endian = "big") { B } else { L } } }
#[derive(Nom, PartialEq, Debug, Clone, Copy, Default)] pub struct In { pub a: u16, pub b: u32 }
r!(In, |r, e| In { a: r.g(e)?, b: r.g(e)? });
#[derive(Nom, PartialEq, Debug, Clone, Copy, Default)] #[nom(LittleEndian)] pub struct InL { pub a: u16 }
r!(InL, |r, e| InL { a: r.g(L)? });
#[derive(Nom, PartialEq, Debug, Clone, Copy)] #[repr(u16)] pub enum Kd { A = 0x0102, B = 3, C = 0x0201 }
r!(Kd, |r, e| { let p = r.pos; match r.g::<u16>(e)? { 0x0102 => Kd::A, 3 => Kd::B, 0x0201 => Kd::C, _ => return Err(F::Err(ErrorKind::Switch, p)) } });
pub type PU = (u16, u32);
pub fn small(i: &[u8]) -> IResult<&[u8], u8> { let (i, n) = <u8>::parse(i)?; Ok((i, n & 3)) }
// from an earlier field, as in a file header
#[derive(Nom, PartialEq)]
pub struct Hdr { pub order: u16, #[nom(SetEndian = "if order == 0x4949 { Endianness::Little } else { Endianness::Big }")] pub a: u16, pub b: u32, #[nom(BigEndian)] pub c: u16, #[nom(LittleEndian)] pub d: u16, pub e: Option<u32> }
t!(hdr, Hdr, |r, e| { let order: u16 = r.g(e)?; let x = if order == 0x4949 { L } else { B }; Hdr { order, a: r.g(x)?, b: r.g(x)?, c: r.g(B)?, d: r.g(L)?, e: r.g(x)? } });
#[derive(NomLE, PartialEq)]
pub struct HdrL(pub u16, #[nom(SetEndian(if _0 & 1 == 0 { Endianness::Little } else { Endianness::Big }))] pub u16, pub u32, #[nom(BigEndian)] pub u16);
t!(hdrl, HdrL, |r, _e| { let o: u16 = r.g(L)?; let x = if o & 1 == 0 { L } else { B }; HdrL(o, r.g(x)?, r.g(x)?, r.g(B)?) });
// twice
#[derive(Nom, PartialEq)]
pub struct Two { pub o: u8, #[nom(SetEndian(if o & 1 == 0 { Endianness::Little } else { Endianness::Big }))] pub a: u16, pub b: u16, #[nom(SetEndian(if o & 2 == 0 { Endianness::Little } else { Endianness::Big }))] pub c: u16, pub d: u16 }
t!(two, Two, |r, _e| { let o: u8 = r.g(B)?; let x = if o & 1 == 0 { L } else { B }; let y = if o & 2 == 0 { L } else { B }; Two { o, a: r.g(x)?, b: r.g(x)?, c: r.g(y)?, d: r.g(y)? } });
// type level, then again on a field
#[derive(Nom, PartialEq)] #[nom(SetEndian = "Endianness::Little")]
pub struct Three { pub o: u16, #[nom(SetEndian(if o & 1 == 0 { Endianness::Little } else { Endianness::Big }))] pub a: u16, pub b: u16 }
t!(three, Three, |r, _e| { let o: u16 = r.g(L)?; let x = if o & 1 == 0 { L } else { B }; Three { o, a: r.g(x)?, b: r.g(x)? } });
// the value is computed by a PreExec
#[derive(Nom, PartialEq)] #[nom(PreExec = "let z = if orig_i.len() > 5 { Endianness::Big } else { Endianness::Little };", SetEndian = "z")]
pub struct Pre { pub a: u16, pub b: u16 }
t!(pre, Pre, |r, _e| { let x = if r.all.len() > 5 { B } else { L }; Pre { a: r.g(x)?, b: r.g(x)? } });
// evaluated exactly once per parse, at its place
#[derive(Nom, PartialEq)] #[nom(ExtraArgs(s: Endianness, c: &Cell<u32>), SetEndian = "{ c.set(c.get() * 2 + 1); s }")]
pub struct Once { pub a: u16, #[nom(PreExec = "c.set(c.get() * 4);")] pub b: u16, #[nom(Count = "2")] pub v: Vec<u16> }
#[derive(Nom, PartialEq)] #[nom(ExtraArgs(s: Endianness, c: &Cell<u32>))]
pub struct OnceF { pub a: u16, #[nom(PreExec = "c.set(c.get() * 4);", SetEndian = "{ c.set(c.get() * 2 + 1); s }")] pub b: u16, #[nom(PreExec = "c.set(c.get() * 8);")] pub d: u16, pub e: u32 }
// helper-macro: once
macro_rules! once { ($n:ident, $t:ident, |$r:ident, $e:ident, $x:ident, $k:ident| $b:expr) => {
  pub mod $n { use super::*;
    #[inline(never)] pub fn real<'a>(i: &'a [u8], m: u64, s: Endianness, c: &Cell<u32>) -> IResult<&'a [u8], $t> { match m % 3 { 0 => $t::parse_be(i, s, c), 1 => $t::parse_le(i, s, c), _ => $t::parse(i, s, c) } }
    #[inline(never)] pub fn oracle<'a>(i: &'a [u8], $e: E, $x: E, $k: &mut u32) -> R<($t, usize)> { let mut rd = Rd::new(i); let $r = &mut rd; let v = (|| -> R<$t> { Ok($b) })()?; Ok((v, rd.pos)) }
    pub fn both(i: &[u8], a: u64, b: u64) -> u64 { let c = Cell::new(1); let mut k = 1; let s = en(a); let x = real(i, b, s, &c); let y = oracle(i, if b % 3 == 1 { L } else { B }, oe(s), &mut k); if c.get() != k { vfail(20) } same(conv(i, x), y) }
  } } }
once!(m_once, Once, |r, e, x, k| { *k = *k * 2 + 1; let a = r.g(x)?; *k *= 4; Once { a, b: r.g(x)?, v: r.count(2, |r| r.g(x))? } });
once!(m_oncef, OnceF, |r, e, x, k| { let a = r.g(e)?; *k *= 4; *k = *k * 2 + 1; let b = r.g(x)?; *k *= 8; OnceF { a, b, d: r.g(x)?, e: r.g(x)? } });
hc!(once, |i, a, b| m_once::both(i, a, b));
hc!(oncef, |i, a, b| m_oncef::both(i, a, b));
// selector enums: on the type, or on a field of one variant only
#[derive(Nom, PartialEq)] #[nom(Selector = "u8", ExtraArgs(s: Endianness), SetEndian(s))]
pub enum En1 { #[nom(Selector = "0")] A { a: u16, #[nom(BigEndian)] b: u16, c: Option<u32> }, #[nom(Selector = "1")] B(#[nom(LittleEndian)] u16, u32, In), #[nom(Selector = "2")] U, #[nom(Selector = "_")] D(PU) }
hx!(en1, En1, |a, b| (sel: u8 = b as u8, s: Endianness = en(a)), |r, e| { let x = oe(s); match sel { 0 => En1::A { a: r.g(x)?, b: r.g(B)?, c: r.g(x)? }, 1 => En1::B(r.g(L)?, r.g(x)?, r.g(x)?), 2 => En1::U, _ => En1::D(r.g(x)?) } });
#[derive(Nom, PartialEq)] #[nom(Selector = "u8", ExtraArgs(s: Endianness))]
pub enum En2 { #[nom(Selector = "0")] A { a: u16, #[nom(SetEndian = "s")] b: u16, c: Option<u32> }, #[nom(Selector = "1")] B(u16, #[nom(LittleEndian)] u32, In), #[nom(Selector = "2")] C(#[nom(SetEndian(s))] In, u16), #[nom(Selector = "3")] D { x: u16 }, #[nom(Selector = "_")] D2(u16) }
hx!(en2, En2, |a, b| (sel: u8 = b as u8, s: Endianness = en(a)), |r, e| { let x = oe(s); match sel { 0 => En2::A { a: r.g(e)?, b: r.g(x)?, c: r.g(x)? }, 1 => En2::B(r.g(e)?, r.g(L)?, r.g(e)?), 2 => En2::C(r.g(x)?, r.g(x)?), 3 => En2::D { x: r.g(e)? }, _ => En2::D2(r.g(e)?) } });
#[derive(NomLE, PartialEq)] #[nom(Selector = "u8", ExtraArgs(s: Endianness))]
pub enum En3 { #[nom(Selector = "0")] A { #[nom(SetEndian = "s")] b: u16, #[nom(BigEndian)] d: u16, c: u32 }, #[nom(Selector = "_")] B(u16, #[nom(BigEndian)] u32) }
hx!(en3, En3, |a, b| (sel: u8 = b as u8, s: Endianness = en(a)), |r, e| { let x = oe(s); match sel { 0 => En3::A { b: r.g(x)?, d: r.g(B)?, c: r.g(x)? }, _ => En3::B(r.g(L)?, r.g(B)?) } });
// the byte order of the parent does not decide for a child with its own run-time order
#[derive(Nom, PartialEq)] pub struct Child { pub o: u8, #[nom(SetEndian(if o == 0 { Endianness::Big } else { Endianness::Little }))] pub v: u16 }
r!(Child, |r, _e| { let o: u8 = r.g(B)?; Child { o, v: r.g(if o == 0 { B } else { L })? } });
#[derive(NomLE, PartialEq)] pub struct Par { pub h: u16, #[nom(BigEndian)] pub c: Child, pub d: Option<Child>, pub t: u16 }
t!(par, Par, |r, e| Par { h: r.g(L)?, c: r.g(B)?, d: r.g(L)?, t: r.g(L)? });
