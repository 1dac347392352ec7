use crate::sup::*;
use std::cell::Cell;
#[derive(Nom, PartialEq, Debug, Clone, Copy, Default)] pub struct In { pub a: u8, pub b: u16 }
r!(In, |r, e| In { a: r.g(e)?, b: r.g(e)? });
pub const C1: u8 = 1;
pub mod consts { pub const C2: u8 = 2; pub const LO: u8 = 100; pub const HI: u8 = 110; }
#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum Kind { Foo, Bar(u8), Baz { k: u16 } }
#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct Nt(pub u8);
pub type Pair = (u8, u16);
pub fn kind(a: u64) -> Kind { match a & 3 { 0 => Kind::Foo, 1 => Kind::Bar((a >> 8) as u8), _ => Kind::Baz { k: (a >> 8) as u16 } } }
pub fn even(x: u8) -> bool { x & 1 == 0 }
pub fn digit(i: &[u8]) -> IResult<&[u8], u8> { let (j, d) = <u8>::parse(i)?; if d > 9 { Err(NErr::Error(Error::new(i, ErrorKind::Digit))) } else { Ok((j, d)) } }
pub fn o_digit(r: &mut Rd) -> R<u8> { let p = r.pos; let d = r.g::<u8>(B)?; if d > 9 { Err(F::Err(ErrorKind::Digit, p)) } else { Ok(d) } }
macro_rules! sw { ($r:ident) => { return Err(F::Err(ErrorKind::Switch, $r.pos)) } }
// ---- selectors of every kind of type
#[derive(Nom, PartialEq)] #[nom(Selector = "bool")] pub enum Bo { #[nom(Selector = "true")] T(u8), #[nom(Selector = "false")] F { x: u16 } }
hx!(bo, Bo, |a, b| (s: bool = a & 1 == 1), |r, e| if s { Bo::T(r.g(e)?) } else { Bo::F { x: r.g(e)? } });
#[derive(Nom, PartialEq)] #[nom(Selector(Kind))] pub enum Ki { #[nom(Selector(Kind::Baz { k: 3 }))] A(u8), #[nom(Selector(Kind::Foo))] B, #[nom(Selector = "Kind::Baz { k }")] C { #[nom(Value(k))] kk: u16, #[nom(Count = "k & 1")] v: Vec<u8> }, #[nom(Selector = "Kind::Bar(n) if n > 7")] D(#[nom(Cond = "n > 9")] Option<u8>), }
hx!(ki, Ki, |a, b| (s: Kind = kind(a)), |r, e| match s { Kind::Baz { k } => if k == 3 { Ki::A(r.g(e)?) } else { Ki::C { kk: k, v: r.count((k & 1) as usize, |r| r.g(e))? } }, Kind::Foo => Ki::B, Kind::Bar(n) => if n > 7 { Ki::D(r.cond(n > 9, |r| r.g(e))?) } else { sw!(r) } });
#[derive(Nom, PartialEq)] #[nom(Selector(Pair))] pub enum Pr { #[nom(Selector((0, 0)))] A(u8), #[nom(Selector = "(0, _)")] B(u16), #[nom(Selector = "(x, y) if x as u16 == y")] C { #[nom(Value = "x")] x: u8, z: u8 }, #[nom(Selector((1..=9, 300..)))] D, #[nom(Selector = "(_, 5)")] E(u32) }
hx!(pr, Pr, |a, b| (s: Pair = (a as u8, b as u16)), |r, e| { let (x, y) = s; if x == 0 && y == 0 { Pr::A(r.g(e)?) } else if x == 0 { Pr::B(r.g(e)?) } else if x as u16 == y { Pr::C { x, z: r.g(e)? } } else if x >= 1 && x <= 9 && y >= 300 { Pr::D } else if y == 5 { Pr::E(r.g(e)?) } else { sw!(r) } });
#[derive(Nom, PartialEq)] #[nom(Selector(Option<u8>))] pub enum Op { #[nom(Selector(None))] N, #[nom(Selector(Some(x @ 3..=9)))] A(#[nom(Value(x))] u8, u8), #[nom(Selector(Some(0xff)))] B(u16), #[nom(Selector(_))] C(u8) }
hx!(op, Op, |a, b| (s: Option<u8> = if b & 1 == 1 { None } else { Some(a as u8) }), |r, e| match s { None => Op::N, Some(x) => if x >= 3 && x <= 9 { Op::A(x, r.g(e)?) } else if x == 0xff { Op::B(r.g(e)?) } else { Op::C(r.g(e)?) } });
#[derive(Nom, PartialEq)] #[nom(Selector = "&[u8]")] pub enum Sl { #[nom(Selector = "b\"ab\"")] A(u8), #[nom(Selector = "[0, rest @ ..]")] B(#[nom(Value = "rest.len()")] usize, u16), #[nom(Selector = "[] ")] C, #[nom(Selector = "_")] D { #[nom(Count = "selector.len() & 3")] v: Vec<u8> } }
pub mod slm { use super::*;
  pub fn real<'a>(i: &'a [u8], b: u64) -> IResult<&'a [u8], Sl> { let k = if i.len() < 3 { i.len() } else { 3 }; let (s, i) = i.split_at(k); match b % 3 { 0 => Sl::parse_be(i, s), 1 => Sl::parse_le(i, s), _ => Sl::parse(i, s) } }
  pub fn oracle<'a>(i: &'a [u8], e: E) -> R<(Sl, usize)> { let k = if i.len() < 3 { i.len() } else { 3 }; let mut r = Rd::new(i); r.pos = k; r.start = k; let v = if k == 2 && i[0] == b'a' && i[1] == b'b' { Sl::A(r.g(e)?) } else if k > 0 && i[0] == 0 { Sl::B(k - 1, r.g(e)?) } else if k == 0 { Sl::C } else { Sl::D { v: r.count(k & 3, |r| r.g(e))? } }; Ok((v, r.pos)) } }
hc!(sl, |i, a, b| { let _ = a; same(conv(i, slm::real(i, b)), slm::oracle(i, if b % 3 == 1 { L } else { B })) });
#[derive(Nom, PartialEq)] #[nom(Selector = "&str")] pub enum St { #[nom(Selector = "\"foo\"")] Foo(u8), #[nom(Selector = "\"bar\"")] Bar(u16), #[nom(Selector = "s if s.len() == 2")] Two }
hc!(st, |i, a, b| { let n = ["foo", "bar", "ab", "fop", "", "foobar"]; let k = (a % 6) as usize; let e = if b & 1 == 0 { B } else { L }; let got = if b & 1 == 0 { St::parse_be(i, n[k]) } else { St::parse_le(i, n[k]) };
  let mut r = Rd::new(i); let w = (|| -> R<St> { Ok(match k { 0 => St::Foo(r.g(e)?), 1 => St::Bar(r.g(e)?), 2 => St::Two, _ => sw!(r) }) })().map(|v| (v, r.pos)); same(conv(i, got), w) });
// ---- kinds of variants, attributes, discriminants, visibility, generics
#[derive(Nom, PartialEq, Debug, Clone)] #[repr(u8)] #[nom(Selector = "u16")] pub enum Ds { #[nom(Selector = "300")] A = 5, #[nom(Selector = "5")] B { x: u8 } = 7, #[allow(dead_code)] #[doc = "x"] #[nom(Selector = "7")] C(u16) = 9, #[nom(Selector = "9")] D() = 11, #[nom(Selector = "11")] E {} = 13 }
hx!(ds, Ds, |a, b| (s: u16 = a as u16), |r, e| match s { 300 => Ds::A, 5 => Ds::B { x: r.g(e)? }, 7 => Ds::C(r.g(e)?), 9 => Ds::D(), 11 => Ds::E {}, _ => sw!(r) });
#[derive(Nom, PartialEq)] #[nom(Selector = "u8")] pub enum Ge<T: PartialEq> { #[nom(Selector = "0")] A(T), #[nom(Selector = "1")] B { a: u16, t: T, #[nom(Cond = "a > 7")] o: Option<T> }, #[nom(Selector = "_")] C(#[nom(Count = "selector & 1")] Vec<T>) }
hx!(ge, Ge<u16>, |a, b| (s: u8 = a as u8), |r, e| match s { 0 => Ge::A(r.g(e)?), 1 => { let a: u16 = r.g(e)?; Ge::B { a, t: r.g(e)?, o: r.cond(a > 7, |r| r.g(e))? } } s => Ge::C(r.count((s & 1) as usize, |r| r.g(e))?) });
hx!(gei, Ge<In>, |a, b| (s: u8 = a as u8), |r, e| match s { 0 => Ge::A(r.g(e)?), 1 => { let a: u16 = r.g(e)?; Ge::B { a, t: r.g(e)?, o: r.cond(a > 7, |r| r.g(e))? } } s => Ge::C(r.count((s & 1) as usize, |r| r.g(e))?) });
#[derive(Nom, PartialEq)] #[nom(Selector = "u8")] pub enum Lt<'a> { #[nom(Selector = "0")] A(#[nom(Take = "3")] &'a [u8]), #[nom(Selector = "1")] B { n: u8, #[nom(Take = "n")] t: &'a [u8], #[nom(Parse = "nom::combinator::rest")] r: &'a [u8] }, #[nom(Selector = "x if x > 7")] C(#[nom(Tag(b"Q"))] &'a [u8]) }
hx!(lt, Lt<'a>, |a, b| (s: u8 = a as u8), |r, e| match s { 0 => Lt::A(r.take(3)?), 1 => { let n: u8 = r.g(e)?; let t = r.take(n as usize)?; let q = r.rest(); r.pos = r.all.len(); Lt::B { n, t, r: q } } x if x > 7 => Lt::C(r.tag(b"Q")?), _ => sw!(r) });
// ---- selector computed from fields of a parent; several in a row; in containers
#[derive(Nom, PartialEq)] #[nom(Selector = "u8", ExtraArgs(len: usize, lo: u16))] pub enum Body { #[nom(Selector = "1")] A(u16), #[nom(Selector = "2")] B { #[nom(Count = "len")] v: Vec<u8> }, #[nom(Selector = "x if x as u16 == lo")] C(#[nom(Value = "lo")] u16), #[nom(Selector = "_")] U }
fn o_body(r: &mut Rd, e: E, s: u8, len: usize, lo: u16) -> R<Body> { r.nest(|r| Ok(match s { 1 => Body::A(r.g(e)?), 2 => Body::B { v: r.count(len, |r| r.g(e))? }, x if x as u16 == lo => Body::C(lo), _ => Body::U })) }
#[derive(NomBE, PartialEq)] pub struct Msg { pub ty: u8, pub len: u8, #[nom(Parse = "{ |i| Body::parse_be(i, ty, (len & 3) as usize, 77) }")] pub body: Body, pub crc: u16 }
t!(msg_n9, Msg, |r, _e| { let ty: u8 = r.g(B)?; let len: u8 = r.g(B)?; let body = o_body(r, B, ty, (len & 3) as usize, 77)?; Msg { ty, len, body, crc: r.g(B)? } });
#[derive(Nom, PartialEq)] pub struct Many { pub ty: u8, #[nom(Count = "2", Parse = "{ |i| Body::parse_le(i, ty, 1, 3) }")] pub v: Vec<Body>, #[nom(Cond = "ty > 3", Parse = "{ |i| Body::parse(i, 1, 0, 0) }")] pub o: Option<Body> }
t!(many, Many, |r, _e| { let ty: u8 = r.g(B)?; let v = r.count(2, |r| o_body(r, L, ty, 1, 3))?; Many { ty, v, o: r.cond(ty > 3, |r| o_body(r, B, 1, 0, 0))? } });
// fields of one type: only the order tells them apart
#[derive(Nom, PartialEq)] #[nom(Selector = "u8")] pub enum Lg { #[nom(Selector = "1")] T(u16, u16, u16, u16, u16, u16, u16, u16, u16, u16, u16, u16), #[nom(Selector = "2")] N { l: u16, k: u16, j: u16, m: u16, h: u16, g: u16, f: u16, e: u16, d: u16, c: u16, b: u16, a: u16 } }
hx!(lg, Lg, |a, b| (s: u8 = a as u8), |r, e| { if s != 1 && s != 2 { sw!(r) } let x0: u16 = r.g(e)?; let x1: u16 = r.g(e)?; let x2: u16 = r.g(e)?; let x3: u16 = r.g(e)?; let x4: u16 = r.g(e)?; let x5: u16 = r.g(e)?; let x6: u16 = r.g(e)?; let x7: u16 = r.g(e)?; let x8: u16 = r.g(e)?; let x9: u16 = r.g(e)?; let x10: u16 = r.g(e)?; let x11: u16 = r.g(e)?; if s == 1 { Lg::T(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11) } else { Lg::N { l: x0, k: x1, j: x2, m: x3, h: x4, g: x5, f: x6, e: x7, d: x8, c: x9, b: x10, a: x11 } } });
// ---- whole-element attributes
#[derive(Nom, PartialEq)] #[nom(Selector = "u8", PreExec = "let (i, extra) = u16::parse_be(i)?;", PostExec = "let (i, _) = u8::parse(i)?;")] pub enum Pe { #[nom(Selector = "0")] A { #[nom(Value = "extra")] x: u16 }, #[nom(Selector = "n if n as u16 == extra")] B(u8) }
hx!(pe, Pe, |a, b| (s: u8 = a as u8), |r, e| { let x: u16 = r.g(B)?; let v = if s == 0 { Pe::A { x } } else if s as u16 == x { Pe::B(r.g(e)?) } else { sw!(r) }; r.g::<u8>(e)?; v });
#[derive(Nom, PartialEq)] #[nom(Selector = "u8", PreExec = "let selector = selector ^ 1;", InputName(data))] pub enum Sh { #[nom(Selector = "0")] A(u8), #[nom(Selector = "_")] D { selector: u16, #[nom(Value = "selector")] c: u16 } }
hx!(sh, Sh, |a, b| (s: u8 = a as u8), |r, e| if s ^ 1 == 0 { Sh::A(r.g(e)?) } else { let s: u16 = r.g(e)?; Sh::D { selector: s, c: s } });
#[derive(Nom, PartialEq)] #[nom(Selector = "u8", Complete, LittleEndian)] pub enum Cm { #[nom(Selector = "0")] A { a: u16, #[nom(BigEndian)] b: u16 }, #[nom(Selector = "1")] B }
hx!(cm, Cm, |a, b| (s: u8 = a as u8), |r, _e| if s == 0 { Cm::A { a: r.complete(|r| r.g(L))?, b: r.complete(|r| r.g(B))? } } else if s == 1 { Cm::B } else { sw!(r) });
// guards are evaluated in order, and only until the first match
#[derive(Nom, PartialEq)] #[nom(Selector = "u8", ExtraArgs(c: &Cell<u32>))] pub enum Gd { #[nom(Selector = "x if { c.set(c.get() * 4 + 1); x < 3 }")] A(u8), #[nom(Selector = "7")] B, #[nom(Selector = "_")] Z(u16), #[nom(Selector = "x if { c.set(c.get() * 4 + 2); even(x) }")] C { y: u8 }, #[nom(Selector = "_ if { c.set(c.get() * 4 + 3); i.len() == 2 }")] D(u8) }
hc!(gd, |i, a, b| { let s = a as u8; let e = if b & 1 == 0 { B } else { L }; let c = Cell::new(1); let got = if b & 1 == 0 { Gd::parse_be(i, s, &c) } else { Gd::parse_le(i, s, &c) }; let mut k = 1u32; let mut r = Rd::new(i);
  let w = (|| -> R<Gd> { k = k * 4 + 1; if s < 3 { return Ok(Gd::A(r.g(e)?)) } if s == 7 { return Ok(Gd::B) } k = k * 4 + 2; if s & 1 == 0 { return Ok(Gd::C { y: r.g(e)? }) } k = k * 4 + 3; if r.left() == 2 { return Ok(Gd::D(r.g(e)?)) } Ok(Gd::Z(r.g(e)?)) })(); if c.get() != k { vfail(20) } same(conv(i, got), w.map(|v| (v, r.pos))) });
