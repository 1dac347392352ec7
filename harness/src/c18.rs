use crate::sup::*;
#[derive(PartialEq, Debug, Clone, Copy, Default)] pub struct Wrap(pub u32);
impl From<u16> for Wrap { fn from(x: u16) -> Self { Wrap(x as u32 + 1) } }
#[derive(Nom, PartialEq, Debug, Clone, Copy, Default)] pub struct In { pub a: u8, pub b: u16 }
#[derive(Nom, PartialEq, Debug, Clone, Copy)] #[repr(u16)] pub enum K { A = 0x0102, B = 0x0201, C = 7 }
#[derive(Nom, PartialEq, Debug, Clone)] #[nom(Selector = "u8")] pub enum En { #[nom(Selector = "0")] A(u16, u8), #[nom(Selector = "1")] Bb { a: In, #[nom(ErrorIf = "a.a == 9")] b: u32 }, #[nom(Selector = "2", SkipAfter(3))] U, #[nom(Selector = "x if x > 200")] D(#[nom(Count = "selector & 1")] Vec<u16>) }
eqv!(Wrap In K En);
pub fn digit(i: &[u8]) -> IResult<&[u8], u8> { let (j, d) = <u8>::parse(i)?; if d > 9 { Err(NErr::Error(Error::new(i, ErrorKind::Digit))) } else { Ok((j, d)) } }
pub fn fatal(i: &[u8]) -> IResult<&[u8], u8> { let (j, d) = <u8>::parse(i)?; if d > 9 { Err(NErr::Failure(Error::new(j, ErrorKind::Alt))) } else { Ok((j, d)) } }
pub fn lead(i: &[u8]) -> IResult<&[u8], u8> { let (i, x) = <u8>::parse(i)?; Ok((i, x & 3)) }
pub fn inv(x: u16) -> u16 { !x }
/// two spellings of one definition, through the three methods
// harness-macro: tw be le pa
macro_rules! tw { ($n:ident, $p:ty, $g:ty) => { tw!($n, $p, $g, |a, b| ()); };
  ($n:ident, $p:ty, $g:ty, |$a:ident, $b:ident| ($($x:ident : $xt:ty = $xv:expr),*)) => { pub mod $n { use super::*;
    #[inline(never)] pub fn pb<'a>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $p> { <$p>::parse_be(i, $($x),*) }
    #[inline(never)] pub fn pl<'a>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $p> { <$p>::parse_le(i, $($x),*) }
    #[inline(never)] pub fn pp<'a>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $p> { <$p>::parse(i, $($x),*) }
    #[inline(never)] pub fn gb<'a>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $g> { <$g>::parse_be(i, $($x),*) }
    #[inline(never)] pub fn gl<'a>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $g> { <$g>::parse_le(i, $($x),*) }
    #[inline(never)] pub fn gp<'a>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $g> { <$g>::parse(i, $($x),*) }
    #[inline(never)] pub fn be(i: &[u8], $a: u64, $b: u64) -> u64 { $(let $x: $xt = $xv;)* same2(conv(i, gb(i, $($x),*)), conv(i, pb(i, $($x),*))) }
    #[inline(never)] pub fn le(i: &[u8], $a: u64, $b: u64) -> u64 { $(let $x: $xt = $xv;)* same2(conv(i, gl(i, $($x),*)), conv(i, pl(i, $($x),*))) }
    #[inline(never)] pub fn pa(i: &[u8], $a: u64, $b: u64) -> u64 { $(let $x: $xt = $xv;)* same2(conv(i, gp(i, $($x),*)), conv(i, pp(i, $($x),*))) }
} } }
/// the same, the method chosen by the generator
// harness-macro: t1 go
macro_rules! t1 { ($n:ident, $m:ident, $p:ty, $g:ty) => { t1!($n, $m, $p, $g, |a, b| ()); };
  ($n:ident, $m:ident, $p:ty, $g:ty, |$a:ident, $b:ident| ($($x:ident : $xt:ty = $xv:expr),*)) => { pub mod $n { use super::*;
    #[inline(never)] pub fn p0<'a>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $p> { <$p>::$m(i, $($x),*) }
    #[inline(never)] pub fn g0<'a>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $g> { <$g>::$m(i, $($x),*) }
    #[inline(never)] pub fn go(i: &[u8], $a: u64, $b: u64) -> u64 { $(let $x: $xt = $xv;)* same2(conv(i, g0(i, $($x),*)), conv(i, p0(i, $($x),*))) }
} } }
