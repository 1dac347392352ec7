use crate::sup::*;
/// two runs: on the first `a` bytes, and on all of them
#[inline(always)]
pub fn stable<'a, T: PartialEq>(i: &'a [u8], cut: usize, early: bool, x: IResult<&'a [u8], T>, y: IResult<&'a [u8], T>) -> u64 {
    let x = conv(&i[..cut], x);
    let y = conv(i, y);
    match x {
        Ok((v, p)) => { if p > cut { vfail(30) } same(Ok((v, p)), y) }
        Err(F::Inc(n)) => {
            // at least n bytes are missing: fewer cannot be enough (the comparison with a constant may fail before: `early`)
            if n != 0 && i.len() - cut < n { if let Err(F::Inc(m)) = y { if m != 0 && m != n - (i.len() - cut) { vfail(33) } INC } else if early && y.is_err() { ERR } else { vfail(31) } } else {
                match y { Ok((_, p)) => OK | (p as u64) << 16, Err(F::Inc(m)) => INC | (m as u64) << 16, Err(F::Err(k, p)) => ERR | (k as u64) << 8 | (p as u64) << 16, Err(F::Fail(k, p)) => FAIL | (k as u64) << 8 | (p as u64) << 16 }
            }
        }
        // the very same error, on the input extended by the same bytes
        Err(f) => same(Err(f), y),
    }
}
/// the answer depends on no byte after the position reached
#[inline(always)]
pub fn tight<'a, T: PartialEq>(i: &'a [u8], y: IResult<&'a [u8], T>, f: impl Fn(&'a [u8]) -> IResult<&'a [u8], T>) -> u64 {
    match conv(i, y) {
        Ok((v, p)) => { let c = &i[..p]; same(conv(c, f(c)), Ok((v, p))) }
        Err(F::Inc(n)) => INC | (n as u64) << 16,
        Err(F::Err(k, p)) => ERR | (k as u64) << 8 | (p as u64) << 16,
        Err(F::Fail(k, p)) => FAIL | (k as u64) << 8 | (p as u64) << 16,
    }
}
// harness-macro: st be le pa
// harness-macro: sq be le pa
// harness-macro: ti be le
macro_rules! st { ($n:ident, $t:ty) => { st!($n, $t,); };
  ($n:ident, $t:ty, $($x:ident : $xt:ty = $xv:expr),*) => { pub mod $n { use super::*;
    #[inline(never)] pub fn real_be<'a>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $t> { <$t>::parse_be(i, $($x),*) }
    #[inline(never)] pub fn real_le<'a>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $t> { <$t>::parse_le(i, $($x),*) }
    #[inline(never)] pub fn real_pa<'a>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $t> { <$t>::parse(i, $($x),*) }
    #[inline(never)] pub fn be(i: &[u8], a: u64, b: u64) -> u64 { if a as usize > i.len() { return 0 } $(let $x: $xt = $xv(b);)* stable(i, a as usize, false, real_be(&i[..a as usize], $($x),*), real_be(i, $($x),*)) }
    #[inline(never)] pub fn le(i: &[u8], a: u64, b: u64) -> u64 { if a as usize > i.len() { return 0 } $(let $x: $xt = $xv(b);)* stable(i, a as usize, false, real_le(&i[..a as usize], $($x),*), real_le(i, $($x),*)) }
    #[inline(never)] pub fn pa(i: &[u8], a: u64, b: u64) -> u64 { if a as usize > i.len() { return 0 } $(let $x: $xt = $xv(b);)* stable(i, a as usize, false, real_pa(&i[..a as usize], $($x),*), real_pa(i, $($x),*)) }
  } } }
macro_rules! sq { ($n:ident, $t:ty) => { sq!($n, $t,); };
  ($n:ident, $t:ty, $($x:ident : $xt:ty = $xv:expr),*) => { pub mod $n { use super::*;
    #[inline(never)] pub fn real_be<'a>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $t> { <$t>::parse_be(i, $($x),*) }
    #[inline(never)] pub fn real_le<'a>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $t> { <$t>::parse_le(i, $($x),*) }
    #[inline(never)] pub fn real_pa<'a>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $t> { <$t>::parse(i, $($x),*) }
    #[inline(never)] pub fn be(i: &[u8], a: u64, b: u64) -> u64 { if a as usize > i.len() { return 0 } $(let $x: $xt = $xv(b);)* stable(i, a as usize, true, real_be(&i[..a as usize], $($x),*), real_be(i, $($x),*)) }
    #[inline(never)] pub fn le(i: &[u8], a: u64, b: u64) -> u64 { if a as usize > i.len() { return 0 } $(let $x: $xt = $xv(b);)* stable(i, a as usize, true, real_le(&i[..a as usize], $($x),*), real_le(i, $($x),*)) }
    #[inline(never)] pub fn pa(i: &[u8], a: u64, b: u64) -> u64 { if a as usize > i.len() { return 0 } $(let $x: $xt = $xv(b);)* stable(i, a as usize, true, real_pa(&i[..a as usize], $($x),*), real_pa(i, $($x),*)) }
  } } }
macro_rules! ti { ($n:ident, $t:ty) => { ti!($n, $t,); };
  ($n:ident, $t:ty, $($x:ident : $xt:ty = $xv:expr),*) => { pub mod $n { use super::*;
    #[inline(never)] pub fn real_be<'a>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $t> { <$t>::parse_be(i, $($x),*) }
    #[inline(never)] pub fn real_le<'a>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $t> { <$t>::parse_le(i, $($x),*) }
    #[inline(never)] pub fn be<'a>(i: &'a [u8], _: u64, b: u64) -> u64 { $(let $x: $xt = $xv(b);)* tight(i, real_be(i, $($x),*), |j| real_be(j, $($x),*)) }
    #[inline(never)] pub fn le<'a>(i: &'a [u8], _: u64, b: u64) -> u64 { $(let $x: $xt = $xv(b);)* tight(i, real_le(i, $($x),*), |j| real_le(j, $($x),*)) }
  } } }
#[derive(Nom, PartialEq, Debug, Clone, Copy, Default)] pub struct In { pub a: u8, pub b: u16 }
#[derive(Nom, PartialEq, Debug, Clone, Copy)] #[repr(u16)] pub enum K { A = 0x0102, B = 0x0201, C = 7 }
#[derive(Nom, PartialEq, Debug, Clone)] #[nom(Selector = "u8")] pub enum En { #[nom(Selector = "0")] A(u16, u8), #[nom(Selector = "1")] B { a: In, #[nom(ErrorIf = "a.a == 9")] b: u32 }, #[nom(Selector = "2", SkipAfter(3))] U, #[nom(Selector = "3", Parse = "digit")] V, #[nom(Selector = "x if x > 200")] D(#[nom(Count = "selector & 1")] Vec<u16>) }
#[derive(Nom, PartialEq)] pub struct Lf<'a> { pub n: u8, #[nom(Take = "n & 7")] pub s: &'a [u8] }
#[derive(Nom, PartialEq)] pub struct Al { pub n: u8, #[nom(AlignBefore(4), SkipAfter = "n & 3")] pub b: u16, #[nom(AlignAfter(8))] pub c: u8 }
#[derive(PartialEq, Debug, Clone, Copy)] pub struct Wrap(pub u32);
impl From<u16> for Wrap { fn from(x: u16) -> Self { Wrap(x as u32 + 1) } }
pub type PU = (u8, u16);
pub fn digit(i: &[u8]) -> IResult<&[u8], u8> { let (j, d) = <u8>::parse(i)?; if d > 9 { Err(NErr::Error(Error::new(i, ErrorKind::Digit))) } else { Ok((j, d)) } }
pub fn fatal(i: &[u8]) -> IResult<&[u8], u8> { let (j, d) = <u8>::parse(i)?; if d > 9 { Err(NErr::Failure(Error::new(j, ErrorKind::Alt))) } else { Ok((j, d)) } }
pub fn lead(i: &[u8]) -> IResult<&[u8], u8> { let (i, x) = <u8>::parse(i)?; Ok((i, x & 3)) }
st!(en, En, s: u8 = |b| b as u8); ti!(ten, En, s: u8 = |b| b as u8);
st!(k, K); ti!(tk, K);
st!(al, Al); ti!(tal, Al);
st!(lf, Lf<'a>); ti!(tlf, Lf<'a>);
// the provided parsers
st!(p_u8, u8); st!(p_u16, u16); st!(p_u32, u32); st!(p_u64, u64); st!(p_u128, u128); st!(p_i8, i8); st!(p_i16, i16); st!(p_i32, i32); st!(p_i64, i64); st!(p_i128, i128);
st!(p_pair, PU); ti!(tp_pair, PU); ti!(tp_u32, u32); ti!(tp_i128, i128);
#[derive(PartialEq)] pub struct Fb(u32, u64); impl<'a> Parse<&'a [u8]> for Fb { fn parse(i: &'a [u8]) -> IResult<&'a [u8], Fb> { Self::parse_be(i) } fn parse_be(i: &'a [u8]) -> IResult<&'a [u8], Fb> { let (i, a) = f32::parse_be(i)?; let (i, b) = f64::parse_be(i)?; Ok((i, Fb(a.to_bits(), b.to_bits()))) } fn parse_le(i: &'a [u8]) -> IResult<&'a [u8], Fb> { let (i, a) = f32::parse_le(i)?; let (i, b) = f64::parse_le(i)?; Ok((i, Fb(a.to_bits(), b.to_bits()))) } }
st!(p_float, Fb); ti!(tp_float, Fb);
st!(p_str_n9, String); ti!(tp_str_n9, String);
// length prefixed data
st!(l8, LengthData<u8, &'a [u8]>); st!(l16, LengthDataU16<'a>); st!(l32, LengthDataU32<'a>); st!(l64, LengthDataU64<'a>); ti!(tl8, LengthDataU8<'a>); ti!(tl64, LengthDataU64<'a>);
