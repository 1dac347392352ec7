use crate::sup::*;
/// whatever the outcome: positions lie in the buffer
#[inline(always)]
pub fn total<'a, T>(i: &'a [u8], r: IResult<&'a [u8], T>, f: impl Fn(&T)) -> u64 {
    match r {
        Ok((rem, v)) => { let p = at(i, rem); f(&v); OK | (p as u64) << 16 }
        Err(NErr::Incomplete(n)) => INC | (needed(n) as u64) << 16,
        Err(NErr::Error(e)) => ERR | (e.code as u64) << 8 | (at(i, e.input) as u64) << 16,
        Err(NErr::Failure(e)) => FAIL | (e.code as u64) << 8 | (at(i, e.input) as u64) << 16,
    }
}
/// a borrowed value lies inside the buffer
#[inline(always)]
pub fn inside(i: &[u8], s: &[u8]) {
    let d = (s.as_ptr() as usize).wrapping_sub(i.as_ptr() as usize);
    if !s.is_empty() && (d > i.len() || s.len() > i.len() - d) { vfail(40) }
}
// harness-macro: tot be le pa
macro_rules! tot { ($n:ident, $t:ty) => { tot!($n, $t, |v, i| ()); };
  ($n:ident, $t:ty, |$v:ident, $i:ident| $f:expr) => { tot!($n, $t, |$v, $i| $f,); };
  ($n:ident, $t:ty, |$v:ident, $i:ident| $f:expr, $($x:ident : $xt:ty = |$a:ident, $b:ident| $xv:expr),*) => { pub mod $n { use super::*;
    #[inline(never)] pub fn real_be<'a>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $t> { <$t>::parse_be(i, $($x),*) }
    #[inline(never)] pub fn real_le<'a>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $t> { <$t>::parse_le(i, $($x),*) }
    #[inline(never)] pub fn real_pa<'a>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $t> { <$t>::parse(i, $($x),*) }
    #[inline(never)] pub fn be($i: &[u8], a: u64, b: u64) -> u64 { $(let $x: $xt = { let ($a, $b) = (a, b); $xv };)* total($i, real_be($i, $($x),*), |$v| $f) }
    #[inline(never)] pub fn le($i: &[u8], a: u64, b: u64) -> u64 { $(let $x: $xt = { let ($a, $b) = (a, b); $xv };)* total($i, real_le($i, $($x),*), |$v| $f) }
    #[inline(never)] pub fn pa($i: &[u8], a: u64, b: u64) -> u64 { $(let $x: $xt = { let ($a, $b) = (a, b); $xv };)* total($i, real_pa($i, $($x),*), |$v| $f) }
  } } }
#[derive(Nom, PartialEq, Debug, Clone, Copy, Default)] pub struct In { pub a: u8, pub b: u16 }
#[derive(Nom, PartialEq, Debug, Clone, Copy)] #[repr(u16)] pub enum K { A = 0x0102, B = 0x0201, C = 7 }
#[derive(Nom, PartialEq, Debug, Clone)] #[nom(Selector = "u8")] pub enum En { #[nom(Selector = "0")] A(u16, u8), #[nom(Selector = "1")] B { a: In, #[nom(ErrorIf = "a.a == 9")] b: u32 }, #[nom(Selector = "2", SkipAfter(3))] U, #[nom(Selector = "3", Parse = "digit")] V, #[nom(Selector = "x if x > 200")] D(#[nom(Count = "selector & 1")] Vec<u16>) }
#[derive(Nom, PartialEq)] pub struct Lf<'a> { pub n: u8, #[nom(Take = "n & 7")] pub s: &'a [u8] }
#[derive(Nom, PartialEq)] pub struct Al { pub n: u8, #[nom(AlignBefore(4), SkipAfter = "n & 3")] pub b: u16, #[nom(AlignAfter(8))] pub c: u8 }
#[derive(Nom, PartialEq)] pub struct Mv { pub n: i8, #[nom(Move = "n")] pub b: u8 }
#[derive(PartialEq, Debug, Clone, Copy)] pub struct Wrap(pub u32);
impl From<u16> for Wrap { fn from(x: u16) -> Self { Wrap(x as u32 + 1) } }
pub type PU = (u8, u16);
pub fn digit(i: &[u8]) -> IResult<&[u8], u8> { let (j, d) = <u8>::parse(i)?; if d > 9 { Err(NErr::Error(Error::new(i, ErrorKind::Digit))) } else { Ok((j, d)) } }
pub fn fatal(i: &[u8]) -> IResult<&[u8], u8> { let (j, d) = <u8>::parse(i)?; if d > 9 { Err(NErr::Failure(Error::new(j, ErrorKind::Alt))) } else { Ok((j, d)) } }
pub fn lead(i: &[u8]) -> IResult<&[u8], u8> { let (i, x) = <u8>::parse(i)?; Ok((i, x & 3)) }
// ---- the provided parsers, whatever they announce
tot!(p_u8, u8); tot!(p_u16, u16); tot!(p_u32, u32); tot!(p_u64, u64); tot!(p_u128, u128); tot!(p_i8, i8); tot!(p_i16, i16); tot!(p_i32, i32); tot!(p_i64, i64); tot!(p_i128, i128); tot!(p_f32, f32); tot!(p_f64, f64);
tot!(p_str_n10, String); tot!(p_ostr_n8, Option<String>); tot!(p_vstr_n9, Vec<String>); tot!(p_pair, (u8, (u16, u32))); tot!(p_arr, [u16; 5]); tot!(p_arr0, [u32; 0]); tot!(p_aarr, [[u8; 3]; 2]); tot!(p_opt, Option<Option<u64>>); tot!(p_vec_n8, Vec<u16>); tot!(x_p_vvec_n5, Vec<Vec<u16>>); tot!(x_p_vopt_n4, Vec<Option<u8>>); tot!(p_vin_n10, Vec<In>); tot!(x_p_aopt, [Option<u16>; 2]); tot!(x_p_vph_n3, Vec<Z>); tot!(x_p_varr0_n3, Vec<[u8; 0]>); tot!(x_p_aph, [Z; 3]); tot!(p_ovec_n5, Option<Vec<u16>>);
#[derive(Nom, Clone, Copy, Default)] pub struct Z;
tot!(l8, LengthData<u8, &'a [u8]>, |v, i| inside(i, v.data)); tot!(l16, LengthDataU16<'a>, |v, i| inside(i, v.data)); tot!(l32, LengthDataU32<'a>, |v, i| inside(i, v.data)); tot!(l64, LengthDataU64<'a>, |v, i| inside(i, v.data));
tot!(mv, Mv); tot!(al, Al); tot!(lf, Lf<'a>, |v, i| inside(i, v.s)); tot!(k, K); tot!(en, En, |v, i| (), s: u8 = |a, b| a as u8);
// ---- elements that are optional or repeated and move around
tot!(vmv_n4, Vec<Mv>); tot!(omv, Option<Mv>); tot!(amv, [Mv2; 2]); tot!(val_n9, Vec<Al>); tot!(oal, Option<Al>);
#[derive(Nom, Clone, Copy, Default)] pub struct Mv2 { pub n: i8, #[nom(MoveAbs = "n")] pub b: u8 }
#[derive(Nom)] pub struct Back { pub a: u8, #[nom(Move = "-1")] pub b: u8 }
tot!(vback_n4, Vec<Back>);
// an element that moves back to its own start makes no progress: refused, not repeated forever
#[derive(Nom, Clone, Copy, Default)] pub struct Loop0 { pub a: u8, #[nom(Move = "-1")] pub p: PhantomData<u8> }
tot!(x_vloop_n3, Vec<Loop0>); tot!(x_aloop, [Loop0; 2]); tot!(oloop, Option<Loop0>);
#[derive(Nom)] pub struct Loops { pub h: u8, pub v: Vec<Loop0>, pub w: Vec<Z>, pub o: Option<u8> }
tot!(x_loops_n4, Loops);
// ---- nested announcements
#[derive(Nom)] pub struct N1<'a> { pub n: u32, #[nom(Take = "n")] pub s: &'a [u8], pub m: u16, #[nom(Take = "m as usize * 2")] pub t: &'a [u8] }
tot!(n1_n12, N1<'a>, |v, i| { inside(i, v.s); inside(i, v.t) });
#[derive(Nom)] pub struct N2 { pub n: u64, #[nom(Count = "n")] pub v: Vec<u32> }
tot!(n2_n16, N2);
#[derive(Nom)] pub struct N3 { pub n: u128, #[nom(Count = "n")] pub v: Vec<In> }
tot!(n3_n22, N3);
#[derive(Nom)] pub struct N4 { #[nom(LengthCount = "u64::parse")] pub v: Vec<u16> }
tot!(n4_n12, N4);
#[derive(Nom)] pub struct N5 { pub n: u8, #[nom(Count = "n", Parse = "{ |i| nom::Parser::parse(&mut nom::multi::count(u16::parse_be, n as usize), i) }")] pub v: Vec<Vec<u16>> }
tot!(n5_n6, N5);
#[derive(Nom)] pub struct N6 { pub n: i64, #[nom(Count = "n")] pub v: Vec<u8>, pub z: u8 }
tot!(n6_n11, N6);
#[derive(Nom)] pub struct N7 { pub a: i16, #[nom(Move = "a")] pub b: i16, #[nom(Move = "b", MoveAbs = "a", SkipBefore = "b")] pub c: u8 }
tot!(n7_n10, N7);
#[derive(Nom)] pub struct N8 { pub n: u8, #[nom(Count = "n & 3")] pub v: Vec<N8a> } #[derive(Nom)] pub struct N8a { pub l: u16, #[nom(SkipBefore = "l", AlignAfter = "l & 15")] pub b: u8 }
tot!(n8_n9, N8);
// ---- machine words as selectors
#[derive(Nom)] #[nom(Selector = "u64")] pub enum W1 { #[nom(Selector = "0")] A(u8), #[nom(Selector = "0xffff_ffff_ffff_ffff")] B(u16), #[nom(Selector = "1..=9")] C { #[nom(SkipBefore = "selector")] a: u8 }, #[nom(Selector = "x if x > 1 << 63")] D(#[nom(MoveAbs = "selector")] u8), #[nom(Selector = "_")] E(#[nom(Count = "selector")] Vec<u8>) }
tot!(w1_n6, W1, |v, i| (), s: u64 = |a, b| a);
#[derive(Nom)] #[nom(Selector = "i8")] pub enum W2 { #[nom(Selector = "-128")] A(#[nom(Move = "selector")] u8), #[nom(Selector = "x if x < 0", Move(1), Move(-1))] B, #[nom(Selector = "127", MoveAbs = "selector")] C, #[nom(Selector = "0")] D(Option<u16>, Vec<u16>) }
tot!(w2_n7, W2, |v, i| (), s: i8 = |a, b| a as i8);
#[derive(Nom)] #[nom(Selector = "(u8, i32)")] pub enum W3 { #[nom(Selector = "(0, _)")] A(u8), #[nom(Selector = "(x, y) if y == i32::MIN")] B { #[nom(SkipBefore = "selector.1")] a: u8 }, #[nom(Selector = "(1..=9, i32::MIN..=0)")] C(#[nom(AlignBefore = "selector.1")] u8) }
tot!(w3, W3, |v, i| (), s: (u8, i32) = |a, b| (a as u8, b as i32));
