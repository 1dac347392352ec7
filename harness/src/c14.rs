use crate::sup::*;
#[derive(Nom, PartialEq, Debug, Clone, Copy, Default)] pub struct In { pub a: u8, pub b: u16 }
r!(In, |r, e| In { a: r.g(e)?, b: r.g(e)? });
/// complete on its own
#[derive(Nom, PartialEq, Debug, Clone, Copy, Default)] #[nom(Complete)] pub struct Ic { pub a: u8, pub b: u16 }
r!(Ic, |r, e| Ic { a: r.complete(|r| r.g(e))?, b: r.complete(|r| r.g(e))? });
#[derive(Nom, PartialEq, Debug, Clone, Copy)] #[repr(u16)] pub enum K { A = 0x0102, B = 0x0201, C = 7 }
r!(K, |r, e| { let p = r.pos; match r.g::<u16>(e)? { 0x0102 => K::A, 0x0201 => K::B, 7 => K::C, _ => return Err(F::Err(ErrorKind::Switch, p)) } });
#[derive(PartialEq, Debug, Clone, Copy)] pub struct Wrap(pub u32);
impl From<u16> for Wrap { fn from(x: u16) -> Self { Wrap(x as u32 + 1) } }
pub type PU = (u8, u16);
pub fn digit(i: &[u8]) -> IResult<&[u8], u8> { let (j, d) = <u8>::parse(i)?; if d > 9 { Err(NErr::Error(Error::new(i, ErrorKind::Digit))) } else { Ok((j, d)) } }
pub fn o_digit(r: &mut Rd) -> R<u8> { let p = r.pos; let d = r.g::<u8>(B)?; if d > 9 { Err(F::Err(ErrorKind::Digit, p)) } else { Ok(d) } }
pub fn fatal(i: &[u8]) -> IResult<&[u8], u8> { let (j, d) = <u8>::parse(i)?; if d > 9 { Err(NErr::Failure(Error::new(j, ErrorKind::Alt))) } else { Ok((j, d)) } }
pub fn o_fatal(r: &mut Rd) -> R<u8> { let d = r.g::<u8>(B)?; if d > 9 { Err(F::Fail(ErrorKind::Alt, r.pos)) } else { Ok(d) } }
/// asks for an unknown number of bytes
pub fn unknown(i: &[u8]) -> IResult<&[u8], u8> { if i.len() < 2 { Err(NErr::Incomplete(Needed::Unknown)) } else { Ok((&i[1..], i[0])) } }
pub fn o_unknown(r: &mut Rd) -> R<u8> { if r.left() < 2 { Err(F::Inc(0)) } else { r.g(B) } }
macro_rules! c { ($r:ident, $x:expr) => { $r.complete(|$r| Ok($x))? } }
// every method, mixed field sizes
#[derive(NomBE, PartialEq)] #[nom(Complete)] pub struct S1 { pub a: u8, pub b: u16, pub c: u32, pub d: u64, pub e: u128, pub f: i16 }
t!(s1, S1, |r, _e| S1 { a: c!(r, r.g(B)?), b: c!(r, r.g(B)?), c: c!(r, r.g(B)?), d: c!(r, r.g(B)?), e: c!(r, r.g(B)?), f: c!(r, r.g(B)?) });
#[derive(NomLE, PartialEq)] #[nom(Complete)] pub struct S2(pub u16, pub In, pub Option<u32>, pub [u16; 2]);
t!(s2, S2, |r, _e| S2(c!(r, r.g(L)?), c!(r, r.g(L)?), c!(r, r.g(L)?), c!(r, r.g(L)?)));
#[derive(Nom, PartialEq)] #[nom(Complete)] pub struct S3;
t!(s3, S3, |_r, _e| S3);
#[derive(Nom, PartialEq)] #[nom(Complete, GenericErrors)] pub struct S4 { pub a: u16, #[nom(SkipBefore(1))] pub b: u16 }
t!(s4, S4, |r, e| { let a = c!(r, r.g(e)?); c!(r, r.skip(1)?); S4 { a, b: c!(r, r.g(e)?) } });
#[derive(Nom, PartialEq)] #[nom(Complete, Exact, LittleEndian, InputName(data), PreExec = "let n = data.len();")] pub struct S5 { pub a: u16, #[nom(Value = "n")] pub n: usize, pub v: Vec<u16> }
t!(s5_n9, S5, |r, _e| { let n = r.left(); let a = c!(r, r.g(L)?); let v = r.g(L)?; r.exact()?; S5 { a, n, v } });
#[derive(Nom, PartialEq)] #[nom(Complete, SetEndian = "if i.len() % 2 == 0 { Endianness::Big } else { Endianness::Little }")] pub struct S6 { pub a: u16, #[nom(Count = "a & 1")] pub v: Vec<u16>, #[nom(BigEndian)] pub b: u16 }
t!(s6, S6, |r, _e| { let x = if r.left() % 2 == 0 { B } else { L }; let a: u16 = c!(r, r.g(x)?); let v = c!(r, r.count((a & 1) as usize, |r| r.g(x))?); S6 { a, v, b: c!(r, r.g(B)?) } });
#[derive(Nom, PartialEq)] #[nom(Complete)] pub struct S7<'a, T: PartialEq> { pub n: u8, pub t: T, #[nom(Take = "n")] pub s: &'a [u8], pub z: u8 }
impl<'a, T: PartialEq + Ref<'a>> Ref<'a> for S7<'a, T> { fn rd(r: &mut Rd<'a>, e: E) -> R<Self> { r.nest(|r| { let n: u8 = c!(r, r.g(e)?); let t = c!(r, r.g(e)?); let s = c!(r, r.take(n as usize)?); Ok(S7 { n, t, s, z: c!(r, r.g(e)?) }) }) } }
h!(s7, S7<'a, u32>);
h!(s7i, S7<'a, In>);
h!(s7o, S7<'a, Option<u16>>);
// Options and Vecs hide the truncation of their own element, as without Complete
#[derive(Nom, PartialEq)] #[nom(Complete)] pub struct S8 { pub a: Option<In>, pub b: Option<Ic>, pub c: u16, pub v: Vec<Ic>, pub z: Option<u8> }
t!(s8_n12, S8, |r, e| { let a = r.g(e)?; let b = r.g(e)?; let c = c!(r, r.g(e)?); let v = r.g(e)?; S8 { a, b, c, v, z: r.g(e)? } });
// Needed::Unknown
#[derive(Nom, PartialEq)] pub struct S10 { #[nom(Complete, Parse = "unknown")] pub a: u8, #[nom(Complete, Count = "2", Parse = "unknown")] pub v: Vec<u8>, #[nom(Parse = "nom::combinator::complete(unknown)")] pub p: u8, #[nom(Cond = "a > 2", Parse = "unknown")] pub o: Option<u8> }
t!(s10, S10, |r, _e| { let a = r.complete(o_unknown)?; let v = c!(r, r.count(2, o_unknown)?); let p = r.complete(o_unknown)?; S10 { a, v, p, o: r.cond(a > 2, o_unknown)? } });
// used by other parsers: an Option or a Vec around it, an unmarked parent, a marked parent
#[derive(Nom, PartialEq)] pub struct P1 { pub h: u16, pub j0: Ic, pub z: u16 }
t!(p1, P1, |r, e| P1 { h: r.g(e)?, j0: r.g(e)?, z: r.g(e)? });
#[derive(Nom, PartialEq)] #[nom(Complete)] pub struct P2 { pub h: u16, pub j0: Ic, pub j: In, pub k: P1, pub z: u16 }
t!(p2, P2, |r, e| P2 { h: c!(r, r.g(e)?), j0: c!(r, r.g(e)?), j: c!(r, r.g(e)?), k: c!(r, r.g(e)?), z: c!(r, r.g(e)?) });
#[derive(Nom, PartialEq)] pub struct P3 { #[nom(Complete)] pub j: In, #[nom(Complete)] pub k: P1, pub z: u16, #[nom(Complete)] pub o: Option<u32>, #[nom(Complete)] pub y: u32 }
t!(p3, P3, |r, e| P3 { j: c!(r, r.g(e)?), k: c!(r, r.g(e)?), z: r.g(e)?, o: r.g(e)?, y: c!(r, r.g(e)?) });
#[derive(Nom, PartialEq)] pub struct P4 { #[nom(Count(2))] pub v: Vec<Ic>, pub a: [Ic; 2], pub w: [In; 2] }
t!(p4, P4, |r, e| P4 { v: r.count(2, |r| r.g(e))?, a: r.g(e)?, w: r.g(e)? });
#[derive(Nom, PartialEq)] #[nom(Complete)] pub struct P5(pub u8, #[nom(Count(_0 & 1))] pub Vec<u16>, #[nom(Cond(_0 > 7))] pub Option<u32>, #[nom(Ignore)] pub u8, pub PhantomData<u8>, pub u16);
t!(p5, P5, |r, e| { let a: u8 = c!(r, r.g(e)?); let v = c!(r, r.count((a & 1) as usize, |r| r.g(e))?); let o = c!(r, r.cond(a > 7, |r| r.g(e))?); P5(a, v, o, 0, PhantomData, c!(r, r.g(e)?)) });
// fieldless enums
// harness-macro: fe be le pa
macro_rules! fe { ($n:ident, $T:ident, $r:ident, $u:ty, $der:ident, $E:expr) => {
  #[derive($der, PartialEq, Debug, Clone, Copy)] #[nom(Complete)] #[repr($r)] pub enum $T { A = 1, B = 2, C = 100 }
  t!($n, $T, |r, e| { let p = r.pos; let x: $u = c!(r, r.g(($E)(e))?); match x { 1 => $T::A, 2 => $T::B, 100 => $T::C, _ => return Err(F::Err(ErrorKind::Switch, p)) } });
} }
fe!(fe_u8, Fu8, u8, u8, Nom, |e| e); fe!(fe_u16, Fu16, u16, u16, Nom, |e| e); fe!(fe_u32, Fu32, u32, u32, Nom, |e| e); fe!(fe_u64, Fu64, u64, u64, Nom, |e| e);
fe!(fe_i8, Fi8, i8, u8, Nom, |e| e); fe!(fe_i16, Fi16, i16, u16, NomLE, |_| L); fe!(fe_i32, Fi32, i32, u32, NomBE, |_| B); fe!(fe_i64, Fi64, i64, u64, Nom, |e| e); fe!(fe_u16l, Fu16l, u16, u16, NomLE, |_| L);
#[derive(Nom, PartialEq)] pub struct P6 { pub a: Fu16, #[nom(Complete)] pub k: K, pub b: Option<Fu32>, pub z: Fu64, pub v: Vec<Fu16> }
t!(p6_n22, P6, |r, e| P6 { a: r.g(e)?, k: c!(r, r.g(e)?), b: r.g(e)?, z: r.g(e)?, v: r.g(e)? });
