use crate::sup::*;
// ---- shapes
#[derive(Nom, PartialEq, Debug, Clone, Copy, Default)]
pub struct S1 { pub a: u8, pub b: u16, pub c: u32 }
t!(s1, S1, |r, e| S1 { a: r.g(e)?, b: r.g(e)?, c: r.g(e)? });
#[derive(Nom, PartialEq)]
pub struct S2(pub u8, pub S1, pub Option<u16>);
t!(s2, S2, |r, e| S2(r.g(e)?, r.g(e)?, r.g(e)?));
#[derive(Nom, PartialEq)]
pub struct S3 { pub a: u16, pub v: Vec<u16> }
t!(s3_n7, S3, |r, e| S3 { a: r.g(e)?, v: r.g(e)? });
#[derive(Nom, PartialEq)]
pub struct Unit;
t!(unit, Unit, |r, _e| Unit);
#[derive(Nom, PartialEq)]
pub struct EmptyN {}
t!(emptyn, EmptyN, |r, _e| EmptyN {});
#[derive(Nom, PartialEq)]
pub struct One(pub u64);
t!(one, One, |r, e| One(r.g(e)?));
// same types, only the order tells the fields apart
#[derive(Nom, PartialEq)]
pub struct Same { pub z: u16, pub y: u16, pub x: u16, pub w: u16, pub v: u16, pub u: u16, pub t: u16, pub s: u16, pub r: u16, pub q: u16, pub p: u16, pub o: u16 }
t!(same12, Same, |r, e| { let z = r.g(e)?; let y = r.g(e)?; let x = r.g(e)?; let w = r.g(e)?; let v = r.g(e)?; let u = r.g(e)?; let t = r.g(e)?; let s = r.g(e)?; let rr = r.g(e)?; let q = r.g(e)?; let p = r.g(e)?; let o = r.g(e)?;
    Same { z, y, x, w, v, u, t, s, r: rr, q, p, o } });
#[derive(Nom, PartialEq)]
pub struct T12(pub u8, pub u8, pub u16, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u16, pub u8, pub u32);
t!(t12, T12, |r, e| T12(r.g(e)?, r.g(e)?, r.g(e)?, r.g(e)?, r.g(e)?, r.g(e)?, r.g(e)?, r.g(e)?, r.g(e)?, r.g(e)?, r.g(e)?, r.g(e)?));
#[derive(Nom, PartialEq)] pub struct T13(pub u16, pub u16, pub u16, pub u16, pub u16, pub u16, pub u16, pub u16, pub u16, pub u16, pub u16, pub u16, pub u16);
t!(t13, T13, |r, e| { let x0 = r.g(e)?; let x1 = r.g(e)?; let x2 = r.g(e)?; let x3 = r.g(e)?; let x4 = r.g(e)?; let x5 = r.g(e)?; let x6 = r.g(e)?; let x7 = r.g(e)?; let x8 = r.g(e)?; let x9 = r.g(e)?; let x10 = r.g(e)?; let x11 = r.g(e)?; let x12 = r.g(e)?; T13(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12) });
// ---- names
#[derive(Nom, PartialEq)]
pub struct Raw { pub r#type: u8, pub r#match: u16, pub r#fn: Option<u8>, pub r#struct: S1 }
t!(raw, Raw, |r, e| Raw { r#type: r.g(e)?, r#match: r.g(e)?, r#fn: r.g(e)?, r#struct: r.g(e)? });
#[derive(Nom, PartialEq)]
pub struct Names { pub input: u8, pub res: u16, pub rem: u8, pub len: u16, pub selector: u8, pub orig_input: u16, pub nom: u8, pub parse: u16, pub x: u8, pub e: u16 }
t!(names, Names, |r, e| { let input = r.g(e)?; let res = r.g(e)?; let rem = r.g(e)?; let len = r.g(e)?; let selector = r.g(e)?; let orig_input = r.g(e)?; let nom = r.g(e)?; let parse = r.g(e)?; let x = r.g(e)?; let ee = r.g(e)?;
    Names { input, res, rem, len, selector, orig_input, nom, parse, x, e: ee } });
#[derive(Nom, PartialEq)]
#[allow(non_snake_case)]
pub struct Names2 { pub offset: u8, pub start: u16, pub pos: u8, pub align: u16, pub skip: u8, pub take: u16, pub new_offset: u8, pub offset_u: u16, pub count: u8, pub self_: u16, pub _a: u8, pub __i: u8, pub err: u16 }
t!(names2, Names2, |r, e| { let offset = r.g(e)?; let start = r.g(e)?; let pos = r.g(e)?; let align = r.g(e)?; let skip = r.g(e)?; let take = r.g(e)?; let new_offset = r.g(e)?; let offset_u = r.g(e)?; let count = r.g(e)?; let self_ = r.g(e)?; let _a = r.g(e)?; let __i = r.g(e)?; let er = r.g(e)?;
    Names2 { offset, start, pos, align, skip, take, new_offset, offset_u, count, self_, _a, __i, err: er } });
// ---- generics, lifetimes, constants
#[derive(Nom, PartialEq, Debug, Clone, Copy, Default)]
pub struct G1<T> { pub a: u8, pub t: T, pub b: u16 }
impl<'a, T: Ref<'a>> Ref<'a> for G1<T> { #[inline(always)] fn rd(r: &mut Rd<'a>, e: E) -> R<Self> { r.nest(|r| Ok(G1 { a: r.g(e)?, t: r.g(e)?, b: r.g(e)? })) } }
h!(g1_u16, G1<u16>);
h!(g1_u64, G1<u64>);
h!(g1_s1, G1<S1>);
h!(g1_opt, G1<Option<u32>>);
h!(g1_g1, G1<G1<u16>>);
h!(g1_arr, G1<[u16; 2]>);
h!(x_g1_vec_n8, G1<Vec<u16>>);
h!(g1_pair, G1<(u16, i64)>);
#[derive(Nom, PartialEq)]
pub struct G2<T, U> where T: Copy, U: PartialEq { pub t: T, pub u: U, pub w: T }
impl<'a, T: Ref<'a> + Copy, U: Ref<'a> + PartialEq> Ref<'a> for G2<T, U> { #[inline(always)] fn rd(r: &mut Rd<'a>, e: E) -> R<Self> { r.nest(|r| Ok(G2 { t: r.g(e)?, u: r.g(e)?, w: r.g(e)? })) } }
h!(g2_a, G2<u16, u8>);
h!(g2_b, G2<u8, Option<u16>>);
h!(g2_c, G2<S1, G1<u16>>);
#[derive(Nom, PartialEq)]
pub struct G3<T>(pub T, pub u16, pub T);
impl<'a, T: Ref<'a>> Ref<'a> for G3<T> { #[inline(always)] fn rd(r: &mut Rd<'a>, e: E) -> R<Self> { r.nest(|r| Ok(G3(r.g(e)?, r.g(e)?, r.g(e)?))) } }
h!(g3_a, G3<u32>);
h!(g3_b, G3<G3<u8>>);
#[derive(Nom, PartialEq)]
pub struct G4<T: Copy + Default> { pub v: Option<T>, pub l: u8, pub t: T }
impl<'a, T: Ref<'a> + Copy + Default> Ref<'a> for G4<T> { #[inline(always)] fn rd(r: &mut Rd<'a>, e: E) -> R<Self> { r.nest(|r| Ok(G4 { v: r.g(e)?, l: r.g(e)?, t: r.g(e)? })) } }
h!(g4_a, G4<u32>);
h!(g4_b, G4<S1>);
#[derive(Nom, PartialEq)]
pub struct Lf<'a> { pub n: u8, #[nom(Take = "n")] pub s: &'a [u8], pub t: u16 }
t!(lf, Lf<'a>, |r, e| { let n: u8 = r.g(e)?; Lf { n, s: r.take(n as usize)?, t: r.g(e)? } });
#[derive(Nom, PartialEq)]
pub struct Lf2<'a>(#[nom(Take = "3")] pub &'a [u8], pub u16, #[nom(Take = "_1")] pub &'a [u8]);
t!(lf2, Lf2<'a>, |r, e| { let s = r.take(3)?; let n: u16 = r.g(e)?; Lf2(s, n, r.take(n as usize)?) });
#[derive(Nom, PartialEq)]
pub struct Lf3<'a, 'b> { #[nom(Take = "2")] pub s: &'a [u8], #[nom(Parse = "nom::combinator::rest")] pub t: &'b [u8] }
t!(lf3, Lf3<'a, 'a>, |r, _e| { let s = r.take(2)?; let t = r.rest(); r.pos = r.all.len(); Lf3 { s, t } });
// parser of a struct with a lifetime inside another one
#[derive(Nom, PartialEq)]
pub struct Lf4<'a> { pub a: u16, #[nom(Parse = "Lf::parse_le")] pub l: Lf<'a>, pub b: u16 }
t!(lf4, Lf4<'a>, |r, e| Lf4 { a: r.g(e)?, l: r.g(L)?, b: r.g(e)? });
// ---- nesting
#[derive(Nom, PartialEq)]
pub struct N1 { pub a: u16, pub s: S1, pub o: One }
t!(n1, N1, |r, e| N1 { a: r.g(e)?, s: r.g(e)?, o: r.g(e)? });
#[derive(Nom, PartialEq)]
pub struct N2 { pub n: N1, pub k: u8, pub m: N1, pub z: Unit }
t!(n2, N2, |r, e| N2 { n: r.g(e)?, k: r.g(e)?, m: r.g(e)?, z: r.g(e)? });
#[derive(Nom, PartialEq)]
pub struct N3(pub N2, pub Option<N1>);
t!(n3, N3, |r, e| N3(r.g(e)?, r.g(e)?));
#[derive(Nom, PartialEq)]
pub struct N4 { pub a: Option<S1>, pub b: [S1; 2], pub c: Vec<S1> }
t!(n4_n30, N4, |r, e| N4 { a: r.g(e)?, b: r.g(e)?, c: r.g(e)? });
#[derive(Nom, PartialEq)]
pub struct N5 { pub a: Box5, pub b: Al }
#[derive(Nom, PartialEq)]
pub struct Box5 { #[nom(Map = "Box::new", Parse = "S1::parse_be")] pub s: Box<S1> }
r!(Box5, |r, _e| Box5 { s: Box::new(r.g(B)?) });
pub type Al = S1;
t!(n5, N5, |r, e| N5 { a: r.g(e)?, b: r.g(e)? });
// recursion through Option<Box<..>>
#[derive(Nom, PartialEq)]
pub struct Rec { pub tag: u8, #[nom(Cond = "tag & 1 == 1", Map = "Box::new", Parse = "Rec::parse_le")] pub next: Option<Box<Rec>>, pub v: u16 }
impl<'a> Ref<'a> for Rec { fn rd(r: &mut Rd<'a>, e: E) -> R<Self> { r.nest(|r| { let tag: u8 = r.g(e)?; Ok(Rec { tag, next: r.cond(tag & 1 == 1, |r| Rec::rd(r, L).map(Box::new))?, v: r.g(e)? }) }) } }
h!(rec_n7, Rec);
// ---- other attributes and visibility
/// documented
#[derive(Nom, PartialEq, Debug, Clone)]
#[allow(unused)]
#[repr(C)]
pub struct Doc { /// field
    #[allow(unused)] pub a: u16, /** block */ pub(crate) b: u32, c: u8, #[doc = "x"] #[cfg(all())] d: u16 }
t!(doc, Doc, |r, e| Doc { a: r.g(e)?, b: r.g(e)?, c: r.g(e)?, d: r.g(e)? });
#[derive(Nom, PartialEq)]
#[repr(C, packed)]
#[derive(Clone, Copy)]
pub struct Pk { pub a: u8, pub b: u32, pub c: u16 }
t!(pk, Pk, |r, e| Pk { a: r.g(e)?, b: r.g(e)?, c: r.g(e)? });
// several failing positions: the first failing field decides
#[derive(Nom, PartialEq)]
pub struct Fail1 { #[nom(Verify(*a != 3))] pub a: u16, #[nom(Verify(*b > a))] pub b: u16, #[nom(Verify(*c > b as u32))] pub c: u32, pub d: u8 }
t!(fail1, Fail1, |r, e| { let a = r.verify(|r| r.g(e), |a: &u16| *a != 3)?; let b = r.verify(|r| r.g(e), |b: &u16| *b > a)?; let c = r.verify(|r| r.g(e), |c: &u32| *c > b as u32)?; Fail1 { a, b, c, d: r.g(e)? } });
#[derive(Nom, PartialEq)]
pub struct Fail2 { pub a: Fail1s, pub b: Fail1s, #[nom(Parse = "fail_hard")] pub c: u8 }
#[derive(Nom, PartialEq)]
pub struct Fail1s { #[nom(Verify(*a != 3))] pub a: u16, #[nom(ErrorIf(a == 9))] pub b: u8 }
r!(Fail1s, |r, e| { let a = r.verify(|r| r.g(e), |a: &u16| *a != 3)?; r.error_if(a == 9)?; Fail1s { a, b: r.g(e)? } });
pub fn fail_hard(i: &[u8]) -> IResult<&[u8], u8> { if i.len() > 2 && i[0] == 7 { Err(NErr::Failure(Error::new(&i[1..], ErrorKind::Eof))) } else { <u8>::parse(i) } }
t!(fail2, Fail2, |r, e| Fail2 { a: r.g(e)?, b: r.g(e)?, c: { if r.left() > 2 && r.rest()[0] == 7 { return Err(F::Fail(ErrorKind::Eof, r.pos + 1)) } r.g(e)? } });
// derived parser as a method value of the trait
#[derive(Nom, PartialEq)]
pub struct ViaTrait<T: PartialEq> { pub a: u8, #[nom(Ignore)] pub p: PhantomData<T>, pub t: T }
impl<'a, T: Ref<'a> + PartialEq> Ref<'a> for ViaTrait<T> { #[inline(always)] fn rd(r: &mut Rd<'a>, e: E) -> R<Self> { r.nest(|r| Ok(ViaTrait { a: r.g(e)?, p: PhantomData, t: r.g(e)? })) } }
h!(via_t, ViaTrait<u32>);
// constant parameters
#[derive(Nom, PartialEq)] pub struct Cg<const N: usize> { pub n: u8, pub a: [u16; N], pub b: u16 }
impl<'a, const N: usize> Ref<'a> for Cg<N> { #[inline(always)] fn rd(r: &mut Rd<'a>, e: E) -> R<Self> { r.nest(|r| Ok(Cg { n: r.g(e)?, a: r.g(e)?, b: r.g(e)? })) } }
h!(cg_1, Cg<1>);
h!(cg_3, Cg<3>);
#[derive(Nom, PartialEq)] pub struct Cl<'a, T: PartialEq, const N: usize>(pub T, #[nom(Take = "N")] pub &'a [u8], pub [T; N]);
impl<'a, T: Ref<'a> + PartialEq + Copy + Default, const N: usize> Ref<'a> for Cl<'a, T, N> { #[inline(always)] fn rd(r: &mut Rd<'a>, e: E) -> R<Self> { r.nest(|r| Ok(Cl(r.g(e)?, r.take(N)?, r.g(e)?))) } }
h!(cl_2, Cl<'a, u16, 2>);
// ---- unusual but legal ways to write a definition
macro_rules! mk { ($n:ident, $t:ident, $u:ident, $c:expr, $l:literal) => { #[derive(Nom, PartialEq)] pub struct $n { pub a: $t, #[nom(Count($c))] pub v: Vec<$u>, #[nom(Cond(a > $l))] pub o: Option<$u>, #[nom(SkipBefore($l))] pub b: $t } } }
mk!(Mk1, u16, u8, 2, 1);
t!(mk1, Mk1, |r, e| { let a: u16 = r.g(e)?; let v = r.count(2, |r| r.g(e))?; let o = r.cond(a > 1, |r| r.g(e))?; r.skip(1)?; Mk1 { a, v, o, b: r.g(e)? } });
mk!(Mk2, u8, S1, 1 + 1, 3);
t!(mk2, Mk2, |r, e| { let a: u8 = r.g(e)?; let v = r.count(2, |r| r.g(e))?; let o = r.cond(a > 3, |r| r.g(e))?; r.skip(3)?; Mk2 { a, v, o, b: r.g(e)? } });
macro_rules! mkt { ($n:ident, $($t:ident),*) => { #[derive(Nom, PartialEq)] pub struct $n($(pub $t),*); } }
mkt!(Mk3, u8, u16, i32, S1, Raw);
t!(mk3, Mk3, |r, e| Mk3(r.g(e)?, r.g(e)?, r.g(e)?, r.g(e)?, r.g(e)?));
macro_rules! mkf { ($n:ident { $($f:ident : $t:ident),* }) => { #[derive(Nom, PartialEq)] pub struct $n { $(pub $f: $t),* } } }
mkf!(Mk4 { input: u8, data: u16, rem: u8, z: S1 });
t!(mk4, Mk4, |r, e| Mk4 { input: r.g(e)?, data: r.g(e)?, rem: r.g(e)?, z: r.g(e)? });
macro_rules! mka { ($n:ident, $m:meta) => { #[derive(Nom, PartialEq)] pub struct $n { pub a: u16, #[$m] pub b: u16 } } }
mka!(Mk5, nom(LittleEndian));
t!(mk5, Mk5, |r, e| Mk5 { a: r.g(e)?, b: r.g(L)? });
#[derive(Nom, PartialEq)] pub struct ET();
t!(et, ET, |r, _e| ET());
pub const NN: usize = 2;
pub mod deep { use super::*; pub trait As { type T; } impl As for u8 { type T = u16; } #[derive(Nom, PartialEq, Debug, Clone, Copy, Default)] pub struct Dp { pub(in crate::c04) a: u8, pub(super) b: u16 } }
r!(deep::Dp, |r, e| deep::Dp { a: r.g(e)?, b: r.g(e)? });
pub use deep::Dp; pub type Asu = <u8 as deep::As>::T; pub type Qu8 = std::primitive::u16;
#[derive(Nom, PartialEq)] pub struct Qv { pub d: [u16; NN * 2 - 1], pub e: Asu, pub f: Qu8, pub g: Dp, pub k: Option<deep::Dp>, pub m: Option<<u8 as deep::As>::T>, #[nom(Count(NN))] pub n: Vec<S1>, #[nom(Cond(d[0] > 3))] pub o: Option<Dp> }
t!(qv_n40, Qv, |r, ee| { let d: [u16; 3] = r.g(ee)?; Qv { d, e: r.g(ee)?, f: r.g(ee)?, g: r.g(ee)?, k: r.g(ee)?, m: r.g(ee)?, n: r.count(2, |r| r.g(ee))?, o: r.cond(d[0] > 3, |r| r.g(ee))? } });
#[derive(Nom, PartialEq)] pub struct Gd<T: PartialEq = u16, const K: usize = 2> where T: Copy { pub a: T, pub b: u8, #[nom(SkipBefore(K))] pub c: T }
impl<'a, T: Ref<'a> + PartialEq + Copy> Ref<'a> for Gd<T> { #[inline(always)] fn rd(r: &mut Rd<'a>, e: E) -> R<Self> { r.nest(|r| Ok(Gd { a: r.g(e)?, b: r.g(e)?, c: { r.skip(2)?; r.g(e)? } })) } }
h!(gd_1, Gd);
h!(gd_2, Gd<u32>);
#[derive(Nom, PartialEq)] pub struct Lb<'x, 'y: 'x> { pub n: u8, #[nom(Take(n))] pub s: &'x [u8], #[nom(Take = "2")] pub t: &'y [u8] }
t!(lb, Lb<'a, 'a>, |r, e| { let n: u8 = r.g(e)?; Lb { n, s: r.take(n as usize)?, t: r.take(2)? } });
#[derive(Nom, PartialEq)] pub struct Wh<'x, T> where T: PartialEq + Copy, &'x [u8]: PartialEq { pub n: T, #[nom(Take(3u8))] pub s: &'x [u8] }
impl<'a, T: Ref<'a> + PartialEq + Copy> Ref<'a> for Wh<'a, T> { #[inline(always)] fn rd(r: &mut Rd<'a>, e: E) -> R<Self> { r.nest(|r| Ok(Wh { n: r.g(e)?, s: r.take(3)? })) } }
h!(wh, Wh<'a, u16>);
#[derive(Nom, PartialEq)] pub struct Aw { #[nom(Parse = r"u16::parse_le")] pub a: u16, #[nom(Parse = r#"{ |i| { let _ = "x"; u16::parse_be(i) } }"#)] pub b: u16, #[nom(Count = "{
    // a comment
    2 /* two */
  }")] pub c: Vec<u8>, #[nom(Map = "|x: &[u8]| x.len()", Tag = "\"\u{e9}\".as_bytes()")] pub e: usize, #[nom(Value('\u{e9}'))] pub f: char, #[nom(Value(-1))] pub g: i8, #[nom(Value("a\"b"))] pub h: &'static str, #[nom(Value(if c.len() > 1 { 1 } else { 2 }))] pub k: u8 }
t!(aw, Aw, |r, ee| { let a = r.g(L)?; let b = r.g(B)?; let c = r.count(2, |r| r.g(ee))?; r.tag(&[0xc3, 0xa9])?; Aw { a, b, c, e: 2, f: '\u{e9}', g: -1, h: "a\"b", k: 1 } });
// defined inside a function, a block, with a name of a generated or prelude item
pub mod inner { use crate::sup::*; pub fn f<'a>(i: &'a [u8]) -> IResult<&'a [u8], (u8, u16)> { #[derive(Nom)] struct Lo { x: u8, y: u16 } let (i, v) = Lo::parse_le(i)?; Ok((i, (v.x, v.y))) } }
#[derive(Nom, PartialEq)] pub struct Fi { pub h: u8, #[nom(Parse = "inner::f")] pub p: (u8, u16), pub z: u8 }
t!(fi, Fi, |r, e| Fi { h: r.g(e)?, p: r.nest(|r| Ok((r.g(L)?, r.g(L)?)))?, z: r.g(e)? });
#[allow(non_camel_case_types)] #[derive(Nom, PartialEq)] pub struct r#struct { pub r#mod: u8, pub r#in: u16 }
t!(rstruct, r#struct, |r, e| r#struct { r#mod: r.g(e)?, r#in: r.g(e)? });
