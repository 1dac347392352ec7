use crate::sup::*;
eqv!(Wrap);
/// the error type that says nothing: value, remainder, error class and missing count
#[inline(always)]
pub fn same0<'a, A, T: Eqv<A>>(i: &'a [u8], got: IResult<&'a [u8], T, ()>, want: R<(A, usize)>) -> u64 {
    match (got, want) {
        (Ok((r, v)), Ok((w, q))) => { if at(i, r) != q { vfail(3) } if !v.eqv(&w) { vfail(2) } OK | ((q as u64) << 16) }
        (Err(NErr::Incomplete(n)), Err(F::Inc(m))) => { if needed(n) != m { vfail(5) } INC | ((m as u64) << 16) }
        (Err(NErr::Error(())), Err(F::Err(..))) => ERR,
        (Err(NErr::Failure(())), Err(F::Fail(..))) => FAIL,
        _ => vfail(1),
    }
}
/// `ge!(name, P, G)`: the plain type P against its GenericErrors twin G with one error type per method
// harness-macro: ge be le pa bm lm pm
macro_rules! ge { ($n:ident, $p:ty, $g:ty) => { pub mod $n { use super::*;
    #[inline(never)] pub fn pb<'a>(i: &'a [u8]) -> IResult<&'a [u8], $p> { <$p as Parse<&'a [u8], Error<&'a [u8]>>>::parse_be(i) }
    #[inline(never)] pub fn pl<'a>(i: &'a [u8]) -> IResult<&'a [u8], $p> { <$p as Parse<&'a [u8], Error<&'a [u8]>>>::parse_le(i) }
    #[inline(never)] pub fn pp<'a>(i: &'a [u8]) -> IResult<&'a [u8], $p> { <$p as Parse<&'a [u8], Error<&'a [u8]>>>::parse(i) }
    #[inline(never)] pub fn gb<'a, X: Er<'a>>(i: &'a [u8]) -> IResult<&'a [u8], $g, X> { <$g as Parse<&'a [u8], X>>::parse_be(i) }
    #[inline(never)] pub fn gl<'a, X: Er<'a>>(i: &'a [u8]) -> IResult<&'a [u8], $g, X> { <$g as Parse<&'a [u8], X>>::parse_le(i) }
    #[inline(never)] pub fn gp<'a, X: Er<'a>>(i: &'a [u8]) -> IResult<&'a [u8], $g, X> { <$g as Parse<&'a [u8], X>>::parse(i) }
    #[inline(never)] pub fn be(i: &[u8], _: u64, _: u64) -> u64 { same2(conv(i, gb::<Error<&[u8]>>(i)), conv(i, pb(i))) }
    #[inline(never)] pub fn le(i: &[u8], _: u64, _: u64) -> u64 { same2(conv(i, gl::<Error<&[u8]>>(i)), conv(i, pl(i))) }
    #[inline(never)] pub fn pa(i: &[u8], _: u64, _: u64) -> u64 { same2(conv(i, gp::<(&[u8], ErrorKind)>(i)), conv(i, pp(i))) }
    #[inline(never)] pub fn bm(i: &[u8], _: u64, _: u64) -> u64 { same2(conv(i, gb::<MyErr>(i)), conv(i, pb(i))) }
    #[inline(never)] pub fn lm(i: &[u8], _: u64, _: u64) -> u64 { same2(conv(i, gl::<MyErr>(i)), conv(i, pl(i))) }
    #[inline(never)] pub fn pm(i: &[u8], _: u64, _: u64) -> u64 { same0(i, gp::<()>(i), conv(i, pp(i))) }
} } }
pub trait Er<'a>: ParseError<&'a [u8]> + FromExternalError<&'a [u8], std::str::Utf8Error> + std::fmt::Debug {}
impl<'a, X: ParseError<&'a [u8]> + FromExternalError<&'a [u8], std::str::Utf8Error> + std::fmt::Debug> Er<'a> for X {}
/// the same with extra arguments
// harness-macro: gx be le pa bm lm pm
macro_rules! gx { ($n:ident, $p:ty, $g:ty, |$a:ident, $b:ident| ($($x:ident : $xt:ty = $xv:expr),*)) => { pub mod $n { use super::*;
    #[inline(never)] pub fn pb<'a>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $p> { <$p>::parse_be(i, $($x),*) }
    #[inline(never)] pub fn pl<'a>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $p> { <$p>::parse_le(i, $($x),*) }
    #[inline(never)] pub fn pp<'a>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $p> { <$p>::parse(i, $($x),*) }
    #[inline(never)] pub fn gb<'a, X: Er<'a>>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $g, X> { <$g>::parse_be::<X>(i, $($x),*) }
    #[inline(never)] pub fn gl<'a, X: Er<'a>>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $g, X> { <$g>::parse_le::<X>(i, $($x),*) }
    #[inline(never)] pub fn gp<'a, X: Er<'a>>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $g, X> { <$g>::parse::<X>(i, $($x),*) }
    #[inline(never)] pub fn be(i: &[u8], $a: u64, $b: u64) -> u64 { $(let $x: $xt = $xv;)* same2(conv(i, gb::<Error<&[u8]>>(i, $($x),*)), conv(i, pb(i, $($x),*))) }
    #[inline(never)] pub fn le(i: &[u8], $a: u64, $b: u64) -> u64 { $(let $x: $xt = $xv;)* same2(conv(i, gl::<Error<&[u8]>>(i, $($x),*)), conv(i, pl(i, $($x),*))) }
    #[inline(never)] pub fn pa(i: &[u8], $a: u64, $b: u64) -> u64 { $(let $x: $xt = $xv;)* same2(conv(i, gp::<(&[u8], ErrorKind)>(i, $($x),*)), conv(i, pp(i, $($x),*))) }
    #[inline(never)] pub fn bm(i: &[u8], $a: u64, $b: u64) -> u64 { $(let $x: $xt = $xv;)* same2(conv(i, gb::<MyErr>(i, $($x),*)), conv(i, pb(i, $($x),*))) }
    #[inline(never)] pub fn lm(i: &[u8], $a: u64, $b: u64) -> u64 { $(let $x: $xt = $xv;)* same2(conv(i, gl::<MyErr>(i, $($x),*)), conv(i, pl(i, $($x),*))) }
    #[inline(never)] pub fn pm(i: &[u8], $a: u64, $b: u64) -> u64 { $(let $x: $xt = $xv;)* same0(i, gp::<()>(i, $($x),*), conv(i, pp(i, $($x),*))) }
} } }
// the same with three comparisons instead of six
// harness-macro: gy be le pa
macro_rules! gy { ($n:ident, $p:ty, $g:ty) => { pub mod $n { use super::*;
    #[inline(never)] pub fn pb<'a>(i: &'a [u8]) -> IResult<&'a [u8], $p> { <$p as Parse<&'a [u8], Error<&'a [u8]>>>::parse_be(i) }
    #[inline(never)] pub fn pl<'a>(i: &'a [u8]) -> IResult<&'a [u8], $p> { <$p as Parse<&'a [u8], Error<&'a [u8]>>>::parse_le(i) }
    #[inline(never)] pub fn pp<'a>(i: &'a [u8]) -> IResult<&'a [u8], $p> { <$p as Parse<&'a [u8], Error<&'a [u8]>>>::parse(i) }
    #[inline(never)] pub fn gb<'a, X: Er<'a>>(i: &'a [u8]) -> IResult<&'a [u8], $g, X> { <$g as Parse<&'a [u8], X>>::parse_be(i) }
    #[inline(never)] pub fn gl<'a, X: Er<'a>>(i: &'a [u8]) -> IResult<&'a [u8], $g, X> { <$g as Parse<&'a [u8], X>>::parse_le(i) }
    #[inline(never)] pub fn gp<'a, X: Er<'a>>(i: &'a [u8]) -> IResult<&'a [u8], $g, X> { <$g as Parse<&'a [u8], X>>::parse(i) }
    #[inline(never)] pub fn be(i: &[u8], _: u64, _: u64) -> u64 { same2(conv(i, gb::<(&[u8], ErrorKind)>(i)), conv(i, pb(i))) }
    #[inline(never)] pub fn le(i: &[u8], _: u64, _: u64) -> u64 { same2(conv(i, gl::<MyErr>(i)), conv(i, pl(i))) }
    #[inline(never)] pub fn pa(i: &[u8], _: u64, _: u64) -> u64 { same0(i, gp::<()>(i), conv(i, pp(i))) }
} } }
// harness-macro: gz be le pa
macro_rules! gz { ($n:ident, $p:ty, $g:ty, |$a:ident, $b:ident| ($($x:ident : $xt:ty = $xv:expr),*)) => { pub mod $n { use super::*;
    #[inline(never)] pub fn pb<'a>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $p> { <$p>::parse_be(i, $($x),*) }
    #[inline(never)] pub fn pl<'a>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $p> { <$p>::parse_le(i, $($x),*) }
    #[inline(never)] pub fn pp<'a>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $p> { <$p>::parse(i, $($x),*) }
    #[inline(never)] pub fn gb<'a, X: Er<'a>>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $g, X> { <$g>::parse_be::<X>(i, $($x),*) }
    #[inline(never)] pub fn gl<'a, X: Er<'a>>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $g, X> { <$g>::parse_le::<X>(i, $($x),*) }
    #[inline(never)] pub fn gp<'a, X: Er<'a>>(i: &'a [u8], $($x: $xt),*) -> IResult<&'a [u8], $g, X> { <$g>::parse::<X>(i, $($x),*) }
    #[inline(never)] pub fn be(i: &[u8], $a: u64, $b: u64) -> u64 { $(let $x: $xt = $xv;)* same2(conv(i, gb::<(&[u8], ErrorKind)>(i, $($x),*)), conv(i, pb(i, $($x),*))) }
    #[inline(never)] pub fn le(i: &[u8], $a: u64, $b: u64) -> u64 { $(let $x: $xt = $xv;)* same2(conv(i, gl::<MyErr>(i, $($x),*)), conv(i, pl(i, $($x),*))) }
    #[inline(never)] pub fn pa(i: &[u8], $a: u64, $b: u64) -> u64 { $(let $x: $xt = $xv;)* same0(i, gp::<()>(i, $($x),*), conv(i, pp(i, $($x),*))) }
} } }
#[derive(PartialEq, Debug, Clone, Copy)] pub struct Wrap(pub u32);
impl From<u16> for Wrap { fn from(x: u16) -> Self { Wrap(x as u32 + 1) } }
pub type PU = (u8, u16);
// user parsers, for every error type
pub fn digit<'a, X: ParseError<&'a [u8]>>(i: &'a [u8]) -> IResult<&'a [u8], u8, X> { let (j, d) = <u8 as Parse<&'a [u8], X>>::parse(i)?; if d > 9 { Err(NErr::Error(X::from_error_kind(i, ErrorKind::Digit))) } else { Ok((j, d)) } }
pub fn o_digit(r: &mut Rd) -> R<u8> { let p = r.pos; let d = r.g::<u8>(B)?; if d > 9 { Err(F::Err(ErrorKind::Digit, p)) } else { Ok(d) } }
pub fn fatal<'a, X: ParseError<&'a [u8]>>(i: &'a [u8]) -> IResult<&'a [u8], u8, X> { let (j, d) = <u8 as Parse<&'a [u8], X>>::parse(i)?; if d > 9 { Err(NErr::Failure(X::from_error_kind(j, ErrorKind::Alt))) } else { Ok((j, d)) } }
pub fn lead<'a, X: ParseError<&'a [u8]>>(i: &'a [u8]) -> IResult<&'a [u8], u8, X> { let (i, x) = <u8 as Parse<&'a [u8], X>>::parse(i)?; Ok((i, x & 3)) }
pub fn unknown<'a, X: ParseError<&'a [u8]>>(i: &'a [u8]) -> IResult<&'a [u8], u8, X> { if i.len() < 2 { Err(NErr::Incomplete(Needed::Unknown)) } else { Ok((&i[1..], i[0])) } }

// ---- the provided parsers with every error type
// harness-macro: pv be le pa bm lm pm
macro_rules! pv { ($n:ident, $t:ty) => { pub mod $n { use super::*;
    #[inline(never)] pub fn pb<'a>(i: &'a [u8]) -> IResult<&'a [u8], $t> { <$t as Parse<&'a [u8], Error<&'a [u8]>>>::parse_be(i) }
    #[inline(never)] pub fn pl<'a>(i: &'a [u8]) -> IResult<&'a [u8], $t> { <$t as Parse<&'a [u8], Error<&'a [u8]>>>::parse_le(i) }
    #[inline(never)] pub fn pp<'a>(i: &'a [u8]) -> IResult<&'a [u8], $t> { <$t as Parse<&'a [u8], Error<&'a [u8]>>>::parse(i) }
    #[inline(never)] pub fn be<'a>(i: &'a [u8], _: u64, _: u64) -> u64 { let r: IResult<&'a [u8], $t, (&'a [u8], ErrorKind)> = <$t>::parse_be(i); same2(conv(i, r), conv(i, pb(i))) }
    #[inline(never)] pub fn le<'a>(i: &'a [u8], _: u64, _: u64) -> u64 { let r: IResult<&'a [u8], $t, (&'a [u8], ErrorKind)> = <$t>::parse_le(i); same2(conv(i, r), conv(i, pl(i))) }
    #[inline(never)] pub fn pa<'a>(i: &'a [u8], _: u64, _: u64) -> u64 { let r: IResult<&'a [u8], $t, (&'a [u8], ErrorKind)> = <$t>::parse(i); same2(conv(i, r), conv(i, pp(i))) }
    #[inline(never)] pub fn bm<'a>(i: &'a [u8], _: u64, _: u64) -> u64 { let r: IResult<&'a [u8], $t, MyErr<'a>> = <$t>::parse_be(i); same2(conv(i, r), conv(i, pb(i))) }
    #[inline(never)] pub fn lm<'a>(i: &'a [u8], _: u64, _: u64) -> u64 { let r: IResult<&'a [u8], $t, MyErr<'a>> = <$t>::parse_le(i); same2(conv(i, r), conv(i, pl(i))) }
    #[inline(never)] pub fn pm<'a>(i: &'a [u8], _: u64, _: u64) -> u64 { let r: IResult<&'a [u8], $t, ()> = <$t>::parse(i); same0(i, r, conv(i, pp(i))) }
} } }
pv!(p_u8, u8); pv!(p_u16, u16); pv!(p_u64, u64); pv!(p_i128, i128); pv!(p_f32, f32); pv!(p_f64, f64); pv!(p_str_n8, String); pv!(p_ostr_n8, Option<String>); pv!(p_vstr_n9, Vec<String>); pv!(p_pair, (u8, (u16, u32))); pv!(p_arr, [u16; 4]); pv!(p_arr0, [u32; 0]); pv!(p_aarr, [[u8; 3]; 2]); pv!(p_opt, Option<Option<u64>>); pv!(p_vec_n8, Vec<u16>); pv!(x_p_vvec_n5, Vec<Vec<u16>>); pv!(x_p_vopt_n4, Vec<Option<u8>>); pv!(x_p_aopt, [Option<u16>; 2]); pv!(x_p_varr0_n3, Vec<[u8; 0]>); pv!(p_ain, [Mix; 2]); pv!(p_vin_n10, Vec<Mix>); pv!(p_oin, Option<Mix>); pv!(p_tin, (Mix, u16)); pv!(x_p_aph, [Zs; 3]);
#[derive(Nom, Clone, Copy, Default, PartialEq)] #[nom(GenericErrors)] pub struct Mix { pub a: u8, #[nom(Verify = "*b != 3")] pub b: u16, #[nom(ErrorIf = "a == 9")] pub c: u8 }
#[derive(Nom, Clone, Copy, Default, PartialEq)] #[nom(GenericErrors)] pub struct Zs;
eqv!(Mix Zs);
