use crate::sup::*;
use std::cell::Cell;
#[derive(Nom, PartialEq, Debug, Clone, Copy)] pub struct In { pub a: u8, pub b: u16 }
r!(In, |r, e| In { a: r.g(e)?, b: r.g(e)? });
impl Default for In { fn default() -> Self { In { a: 7, b: 0x0801 } } }
#[derive(PartialEq, Debug, Clone, Copy)] pub struct Wrap(pub u32);
impl From<u16> for Wrap { fn from(x: u16) -> Self { Wrap(x as u32 + 1) } }
impl From<In> for Wrap { fn from(x: In) -> Self { Wrap(x.b as u32 ^ x.a as u32) } }
pub type PU = (u8, u16);
pub const K: usize = 2;
pub fn dbl(x: u16) -> u32 { x as u32 * 2 }
pub fn sum(v: &[u8]) -> u32 { let mut s = 0; for x in v { s += *x as u32 } s }
/// parses a byte in 0..=9 and refuses the others with an error of its own
pub fn digit(i: &[u8]) -> IResult<&[u8], u8> { let (j, d) = <u8>::parse(i)?; if d > 9 { Err(NErr::Error(Error::new(i, ErrorKind::Digit))) } else { Ok((j, d)) } }
pub fn o_digit(r: &mut Rd) -> R<u8> { let p = r.pos; let d = r.g::<u8>(B)?; if d > 9 { Err(F::Err(ErrorKind::Digit, p)) } else { Ok(d) } }
pub fn fatal(i: &[u8]) -> IResult<&[u8], u8> { let (j, d) = <u8>::parse(i)?; if d > 9 { Err(NErr::Failure(Error::new(j, ErrorKind::Alt))) } else { Ok((j, d)) } }
pub fn o_fatal(r: &mut Rd) -> R<u8> { let d = r.g::<u8>(B)?; if d > 9 { Err(F::Fail(ErrorKind::Alt, r.pos)) } else { Ok(d) } }
pub fn add_to(k: u8) -> impl Fn(&[u8]) -> IResult<&[u8], u16> { move |i| { let (i, x) = <u16>::parse_le(i)?; Ok((i, x ^ k as u16)) } }
pub fn with_arg(i: &[u8], n: u8) -> IResult<&[u8], u16> { if n & 1 == 0 { <u16>::parse_be(i) } else { <u16>::parse_le(i) } }
/// event trace
pub type Tr = Cell<u128>;
pub fn ev(c: &Tr, k: u8) { c.set(c.get() << 8 | k as u128) }
pub fn evi(c: &Tr, k: u8, i: &[u8]) { ev(c, k); ev(c, i.len() as u8) }
pub fn oevi(c: &Tr, k: u8, r: &Rd) { ev(c, k); ev(c, r.left() as u8) }
/// same results and same trace, whatever the outcome
// harness-macro: tr be le pa
// harness-macro: trs be le pa
macro_rules! tr { ($n:ident, $t:ty, |$r:ident, $e:ident, $c:ident| $b:expr) => {
  pub mod $n { use super::*;
    #[inline(never)] pub fn real_be<'a>(i: &'a [u8], c: &Tr) -> IResult<&'a [u8], $t> { <$t>::parse_be(i, c) }
    #[inline(never)] pub fn real_le<'a>(i: &'a [u8], c: &Tr) -> IResult<&'a [u8], $t> { <$t>::parse_le(i, c) }
    #[inline(never)] pub fn real_pa<'a>(i: &'a [u8], c: &Tr) -> IResult<&'a [u8], $t> { <$t>::parse(i, c) }
    #[inline(never)] pub fn oracle<'a>(i: &'a [u8], $e: E, $c: &Tr) -> R<($t, usize)> { let mut rd = Rd::new(i); let $r = &mut rd; let v = (|| -> R<$t> { Ok($b) })()?; Ok((v, rd.pos)) }
    #[inline(never)] pub fn be(i: &[u8], _: u64, _: u64) -> u64 { let (c, d) = (Cell::new(1), Cell::new(1)); let x = real_be(i, &c); let y = oracle(i, B, &d); if c.get() != d.get() { vfail(20) } same(conv(i, x), y) }
    #[inline(never)] pub fn le(i: &[u8], _: u64, _: u64) -> u64 { let (c, d) = (Cell::new(1), Cell::new(1)); let x = real_le(i, &c); let y = oracle(i, L, &d); if c.get() != d.get() { vfail(20) } same(conv(i, x), y) }
    #[inline(never)] pub fn pa(i: &[u8], _: u64, _: u64) -> u64 { let (c, d) = (Cell::new(1), Cell::new(1)); let x = real_pa(i, &c); let y = oracle(i, B, &d); if c.get() != d.get() { vfail(20) } same(conv(i, x), y) }
  } } }
macro_rules! trs { ($n:ident, $t:ty, |$a:ident| $s:expr, |$r:ident, $e:ident, $c:ident| $b:expr) => {
  pub mod $n { use super::*;
    #[inline(never)] pub fn real_be<'a>(i: &'a [u8], s: u8, c: &Tr) -> IResult<&'a [u8], $t> { <$t>::parse_be(i, s, c) }
    #[inline(never)] pub fn real_le<'a>(i: &'a [u8], s: u8, c: &Tr) -> IResult<&'a [u8], $t> { <$t>::parse_le(i, s, c) }
    #[inline(never)] pub fn real_pa<'a>(i: &'a [u8], s: u8, c: &Tr) -> IResult<&'a [u8], $t> { <$t>::parse(i, s, c) }
    #[inline(never)] pub fn oracle<'a>(i: &'a [u8], $e: E, $a: u8, $c: &Tr) -> R<($t, usize)> { let mut rd = Rd::new(i); let $r = &mut rd; let v = (|| -> R<$t> { Ok($b) })()?; Ok((v, rd.pos)) }
    #[inline(never)] pub fn be(i: &[u8], a: u64, _: u64) -> u64 { let $a = a; let s = $s; let (c, d) = (Cell::new(1), Cell::new(1)); let x = real_be(i, s, &c); let y = oracle(i, B, s, &d); if c.get() != d.get() { vfail(20) } same(conv(i, x), y) }
    #[inline(never)] pub fn le(i: &[u8], a: u64, _: u64) -> u64 { let $a = a; let s = $s; let (c, d) = (Cell::new(1), Cell::new(1)); let x = real_le(i, s, &c); let y = oracle(i, L, s, &d); if c.get() != d.get() { vfail(20) } same(conv(i, x), y) }
    #[inline(never)] pub fn pa(i: &[u8], a: u64, _: u64) -> u64 { let $a = a; let s = $s; let (c, d) = (Cell::new(1), Cell::new(1)); let x = real_pa(i, s, &c); let y = oracle(i, B, s, &d); if c.get() != d.get() { vfail(20) } same(conv(i, x), y) }
  } } }
// ---- Pre/PostExec: named struct, several statements, all positions
#[derive(Nom, PartialEq)] #[nom(ExtraArgs(c: &Tr), PreExec = "evi(c, 1, i);", PostExec = "evi(c, 9, i);")]
pub struct P1 { #[nom(PreExec = "evi(c, 2, i);")] pub a: u8, #[nom(PreExec = "evi(c, 3, i);", PostExec = "ev(c, b as u8);")] pub b: u16, #[nom(PostExec(ev(c, a ^ d);))] pub d: u8 }
tr!(p1, P1, |r, e, c| { oevi(c, 1, r); oevi(c, 2, r); let a: u8 = r.g(e)?; oevi(c, 3, r); let b: u16 = r.g(e)?; ev(c, b as u8); let d: u8 = r.g(e)?; ev(c, a ^ d); oevi(c, 9, r); P1 { a, b, d } });
#[derive(NomLE, PartialEq)] #[nom(ExtraArgs(c: &Tr))] #[nom(PostExec(ev(c, struct_def.a as u8);), PreExec(ev(c, 1);), PostExec(ev(c, 10);))] #[nom(PreExec(ev(c, 2);))]
pub struct P2 { #[nom(PreExec(ev(c, 3);), PreExec(ev(c, 4);), PostExec(ev(c, 5);))] #[nom(PostExec(ev(c, 6);))] pub a: u16, #[nom(PreExec(ev(c, a as u8);))] pub b: Option<u16> }
tr!(p2, P2, |r, _e, c| { ev(c, 1); ev(c, 2); ev(c, 3); ev(c, 4); let a: u16 = r.g(L)?; ev(c, 5); ev(c, 6); ev(c, a as u8); let b = r.g(L)?; ev(c, a as u8); ev(c, 10); P2 { a, b } });
// interleaved with the other directives, in order of appearance
#[derive(Nom, PartialEq)] #[nom(ExtraArgs(c: &Tr))]
pub struct P3 { pub n: u8, #[nom(PreExec = "evi(c, 1, i);", SkipBefore = "1", PreExec = "evi(c, 2, i);", AlignBefore = "4", PreExec = "evi(c, 3, i);", ErrorIf = "n == 9", PreExec = "evi(c, 4, i);")] pub a: u8,
  #[nom(PostExec = "evi(c, 5, i);", SkipAfter = "2", PostExec = "evi(c, 6, i);")] pub b: u8 }
tr!(p3, P3, |r, e, c| { let n: u8 = r.g(e)?; oevi(c, 1, r); r.skip(1)?; oevi(c, 2, r); r.align(4)?; oevi(c, 3, r); r.error_if(n == 9)?; oevi(c, 4, r); let a = r.g(e)?; let b = r.g(e)?; oevi(c, 5, r); r.skip(2)?; oevi(c, 6, r); P3 { n, a, b } });
#[derive(Nom, PartialEq)] #[nom(ExtraArgs(c: &Tr))]
pub struct P4(#[nom(PreExec(ev(c, 1);), PostExec(evi(c, _0, i);))] pub u8, #[nom(Cond = "_0 > 3", PreExec(ev(c, 2);), PostExec(ev(c, _1.is_some() as u8);))] pub Option<u16>, #[nom(PreExec(let k = _0 & 1;), Count = "k", PostExec(ev(c, _2.len() as u8);))] pub Vec<u8>, #[nom(PreExec(ev(c, k);))] pub u8);
tr!(p4, P4, |r, e, c| { ev(c, 1); let a: u8 = r.g(e)?; oevi(c, a, r); ev(c, 2); let b: Option<u16> = r.cond(a > 3, |r| r.g(e))?; ev(c, b.is_some() as u8); let k = a & 1; let v: Vec<u8> = r.count(k as usize, |r| r.g(e))?; ev(c, v.len() as u8); ev(c, k); P4(a, b, v, r.g(e)?) });
// exactly once also around repeated, optional, ignored, computed fields; expressions of the field attributes are evaluated once
#[derive(Nom, PartialEq)] #[nom(ExtraArgs(c: &Tr))]
pub struct P5 { #[nom(PreExec(ev(c, 1);), Count = "{ ev(c, 2); 3 }", PostExec(ev(c, 3);))] pub v: Vec<u8>, #[nom(PreExec(ev(c, 4);), Ignore, PostExec(ev(c, 5);))] pub z: u32, #[nom(PreExec(ev(c, 6);), Value = "{ ev(c, 7); 5 }", PostExec(ev(c, 8);))] pub w: u8,
  #[nom(Cond = "{ ev(c, 9); v[0] > 1 }")] pub o: Option<u8>, #[nom(PostExec(ev(c, 10);))] pub p: PhantomData<u8> }
tr!(p5, P5, |r, e, c| { ev(c, 1); ev(c, 2); let v: Vec<u8> = r.count(3, |r| r.g(e))?; ev(c, 3); ev(c, 4); ev(c, 5); ev(c, 6); ev(c, 7); ev(c, 8); ev(c, 9); let o = r.cond(v[0] > 1, |r| r.g(e))?; ev(c, 10); P5 { v, z: 0, w: 5, o, p: PhantomData } });
#[derive(Nom, PartialEq)] #[nom(ExtraArgs(c: &Tr))]
pub struct P6<'a> { pub n: u8, #[nom(Take = "{ ev(c, 1); n & 3 }")] pub t: &'a [u8], #[nom(SkipBefore = "1", AlignBefore = "2", SkipAfter = "n & 1", AlignAfter({ 4 }))] pub a: u8, #[nom(ErrorIf = "{ ev(c, 6); a == 3 }", Verify = "{ ev(c, 7); *b != 3 }", Map = "|x: u8| { ev(c, 8); x + (x == 0) as u8 }")] pub b: u8 }
tr!(p6_n14, P6<'a>, |r, e, c| { let n: u8 = r.g(e)?; ev(c, 1); let t = r.take((n & 3) as usize)?; r.skip(1)?; r.align(2)?; let a: u8 = r.g(e)?; r.skip((n & 1) as usize)?; r.align(4)?; ev(c, 6); r.error_if(a == 3)?; let p = r.pos; let x: u8 = r.g(e)?; ev(c, 8); ev(c, 7); let b = x + (x == 0) as u8; if b == 3 { return Err(F::Err(ErrorKind::Verify, p)) } P6 { n, t, a, b } });
#[derive(Nom, PartialEq)] #[nom(ExtraArgs(c: &Tr))]
pub struct P7 { pub n: u8, #[nom(Move = "(n & 3) as i8 - 1", MoveAbs = "n & 7")] pub a: u8, #[nom(LengthCount = "{ |i| -> IResult<&[u8], u8> { ev(c, 4); let (i, k) = u8::parse(i)?; Ok((i, k & 1)) } }", Parse = "{ |i| { ev(c, 5); u16::parse_le(i) } }")] pub v: Vec<u16>, #[nom(Parse = "{ |i| { ev(c, 6); digit(i) } }")] pub d: u8 }
tr!(p7_n10, P7, |r, e, c| { let n: u8 = r.g(e)?; r.mv((n & 3) as isize - 1)?; r.mvabs((n & 7) as usize)?; let a = r.g(e)?; ev(c, 4); let k = r.g::<u8>(B)? & 1; let v = r.count(k as usize, |r| { ev(c, 5); r.g(L) })?; ev(c, 6); P7 { n, a, v, d: o_digit(r)? } });
// the statements may change the input
#[derive(Nom, PartialEq)] #[nom(PreExec = "let (i, extra) = u8::parse(i)?;", PostExec = "let struct_def = P8 { a: struct_def.a ^ extra as u16, ..struct_def };")]
pub struct P8 { pub a: u16, #[nom(PreExec = "let i = if a == 3 { &i[i.len()..] } else { i };")] pub b: Option<u8>, #[nom(PostExec = "let d = d.wrapping_add(1);", PostExec = "let (i, _) = u8::parse_le(i)?;")] pub d: u8 }
t!(p8, P8, |r, e| { let x: u8 = r.g(e)?; let a: u16 = r.g(e)?; if a == 3 { r.pos = r.all.len() } let b = r.g(e)?; let d: u8 = r.g(e)?; let d = d.wrapping_add(1); r.g::<u8>(e)?; P8 { a: a ^ x as u16, b, d } });
#[derive(Nom, PartialEq)] #[nom(PreExec = "let total = orig_i.len();")]
pub struct P9 { #[nom(PreExec = "let before = i.len();")] pub a: u16, pub v: Option<u32>, #[nom(Value = "total - i.len() + before")] pub n: usize }
t!(p9, P9, |r, e| { let t = r.own(); let a = r.g(e)?; let v = r.g(e)?; P9 { a, v, n: t - r.left() + t } });
#[derive(Nom, PartialEq)] #[nom(InputName(dat), PreExec = "let total = orig_dat.len() - dat.len();", PostExec = "if dat.len() == 2 { return Err(nom::Err::Error(Error::new(dat, ErrorKind::Eof))); }")]
pub struct P10 { pub a: u16, #[nom(Value = "total + dat.len()")] pub n: usize }
t!(p10, P10, |r, e| { let a = r.g(e)?; let n = r.left(); if n == 2 { return r.err(ErrorKind::Eof).map(|_: ()| unreachable!()) } P10 { a, n } });
#[derive(Nom, PartialEq)] #[nom(ExtraArgs(c: &Tr), PreExec(ev(c, 1);), PostExec(ev(c, 2);))] pub struct P11;
tr!(p11_n2, P11, |r, _e, c| { let _ = &r; ev(c, 1); ev(c, 2); P11 });
// enums: around the whole element, around the fields of the chosen variant only, unit variants
#[derive(Nom, PartialEq)] #[nom(Selector = "u8", ExtraArgs(c: &Tr), PreExec = "evi(c, 1, i);", PostExec = "evi(c, 2, i);")]
pub enum Q1 { #[nom(Selector = "0")] A { #[nom(PreExec(ev(c, 3);))] a: u16, #[nom(PostExec(ev(c, b);))] b: u8 }, #[nom(Selector = "1")] B(#[nom(PreExec(ev(c, 4);), PostExec(ev(c, _0);))] u8, u8), #[nom(Selector = "2", PreExec(ev(c, 5);), PostExec(ev(c, 6);))] U, #[nom(Selector = "3", Parse = "digit")] V, #[nom(Selector = "_")] D { #[nom(PreExec(ev(c, selector);))] d: u16 } }
trs!(q1, Q1, |a| a as u8, |r, e, c| { oevi(c, 1, r); let v = match a { 0 => { ev(c, 3); let x = r.g(e)?; let b = r.g(e)?; ev(c, b); Q1::A { a: x, b } } 1 => { ev(c, 4); let x = r.g(e)?; ev(c, x); Q1::B(x, r.g(e)?) } 2 => { ev(c, 5); ev(c, 6); Q1::U } 3 => { o_digit(r)?; Q1::V } s => { ev(c, s); Q1::D { d: r.g(e)? } } }; oevi(c, 2, r); v });
#[derive(Nom, PartialEq)] #[nom(Selector = "u8", ExtraArgs(c: &Tr), PostExec = "if let Q2::A(n) = enum_def { ev(c, n) }", PreExec = "ev(c, 1);", PostExec = "evi(c, 2, i);", PreExec = "let (i, k) = u8::parse(i)?;")]
pub enum Q2 { #[nom(Selector = "x if x == k")] A(u8), #[nom(Selector = "7")] B(#[nom(Count = "k & 1")] Vec<u8>) }
trs!(q2, Q2, |a| a as u8, |r, e, c| { ev(c, 1); let k: u8 = r.g(e)?; let v = if a == k { let n = r.g(e)?; Q2::A(n) } else if a == 7 { Q2::B(r.count((k & 1) as usize, |r| r.g(e))?) } else { return r.err(ErrorKind::Switch).map(|_: ()| unreachable!()) }; if let Q2::A(n) = v { ev(c, n) } oevi(c, 2, r); v });
#[derive(Nom, PartialEq, Clone, Copy)] #[repr(u16)] #[nom(PreExec = "let (i, k) = u8::parse(i)?;", PostExec = "let enum_def = if k == 1 { Q3::B } else { enum_def };", PostExec = "let (i, _) = u8::parse(i)?;")]
pub enum Q3 { A = 1, B = 2 }
t!(q3, Q3, |r, e| { let p = r.pos; let k: u8 = r.g(e)?; let v = match r.g::<u16>(e)? { 1 => Q3::A, 2 => Q3::B, _ => return Err(F::Err(ErrorKind::Switch, p)) }; let v = if k == 1 { Q3::B } else { v }; r.g::<u8>(e)?; v });
// values: own default of the type, not zero bytes
#[derive(Nom, PartialEq)] pub struct D1 { #[nom(Ignore)] pub a: In, pub h: u8, #[nom(Default)] pub o: Option<In>, #[nom(Ignore)] pub v: Vec<u8>, #[nom(Ignore)] pub s: String, #[nom(Default)] pub t: PU, #[nom(Ignore)] pub r: [u8; 4], #[nom(Ignore)] pub p: PhantomData<In>, #[nom(Ignore)] pub b: bool, #[nom(Default)] pub f: [In; 2], #[nom(Ignore)] pub c: char, #[nom(Ignore)] pub x: u64, pub z: u16 }
t!(d1, D1, |r, e| D1 { a: In { a: 7, b: 0x0801 }, h: r.g(e)?, o: None, v: vec![], s: String::new(), t: (0, 0), r: [0; 4], p: PhantomData, b: false, f: [In { a: 7, b: 0x0801 }; 2], c: '\0', x: 0, z: r.g(e)? });
#[derive(Nom, PartialEq)] pub struct D2<T: PartialEq + Default>(pub u8, #[nom(Ignore)] pub T, pub PhantomData<T>, pub T);
impl<'a, T: Ref<'a> + PartialEq + Default> Ref<'a> for D2<T> { fn rd(r: &mut Rd<'a>, e: E) -> R<Self> { r.nest(|r| Ok(D2(r.g(e)?, T::default(), PhantomData, r.g(e)?))) } }
h!(d2, D2<u32>);
h!(d2i, D2<In>);
