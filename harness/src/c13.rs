use crate::sup::*;
pub const C7: u8 = 7;
pub mod consts { pub const NEG: i32 = -77; }
#[derive(Nom, PartialEq, Debug, Clone, Copy)] #[repr(u16)] pub enum K { A = 0x0102, B, C = 7, D = 0x0201 }
impl Default for K { fn default() -> Self { K::C } }
r!(K, |r, e| { let p = r.pos; match r.g::<u16>(e)? { 0x0102 => K::A, 0x0103 => K::B, 7 => K::C, 0x0201 => K::D, _ => return Err(F::Err(ErrorKind::Switch, p)) } });
#[derive(NomLE, PartialEq, Debug, Clone, Copy)] #[repr(i8)] pub enum M { A = -1, B, C }
r!(M, |r, _e| { let p = r.pos; match r.g::<u8>(B)? { 255 => M::A, 0 => M::B, 1 => M::C, _ => return Err(F::Err(ErrorKind::Switch, p)) } });
// in every place a type can stand
#[derive(Nom, PartialEq)] pub struct S1 { pub a: u8, pub k: K, pub m: M, pub b: u16 }
t!(s1, S1, |r, e| S1 { a: r.g(e)?, k: r.g(e)?, m: r.g(e)?, b: r.g(e)? });
#[derive(Nom, PartialEq)] pub struct S2(pub Option<K>, pub [K; 2], pub Option<M>, pub Vec<K>);
t!(s2_n12, S2, |r, e| S2(r.g(e)?, r.g(e)?, r.g(e)?, r.g(e)?));
#[derive(NomLE, PartialEq)] pub struct S3 { pub n: u8, #[nom(Count = "n & 3")] pub v: Vec<K>, #[nom(Cond = "n > 9")] pub o: Option<K>, #[nom(BigEndian)] pub b: K, #[nom(Verify(*x != K::C))] pub x: K, #[nom(Map = "|k: K| k as u16")] #[nom(Parse = "K::parse_be")] pub y: u16 }
t!(s3_n16, S3, |r, _e| { let n: u8 = r.g(L)?; let v = r.count((n & 3) as usize, |r| r.g(L))?; let o = r.cond(n > 9, |r| r.g(L))?; let b = r.g(B)?; let x = r.verify(|r| r.g(L), |x: &K| *x != K::C)?; S3 { n, v, o, b, x, y: r.g::<K>(B)? as u16 } });
// as a selector of the rest
#[derive(Nom, PartialEq)] #[nom(Selector = "K")] pub enum Bd { #[nom(Selector = "K::A")] A(u8), #[nom(Selector = "K::D")] D { x: u16 }, #[nom(Selector = "K::B")] U }
#[derive(Nom, PartialEq)] pub struct S4 { pub k: K, #[nom(Parse = "{ |i| Bd::parse_le(i, k) }")] pub b: Bd }
t!(s4, S4, |r, e| { let k: K = r.g(e)?; let b = match k { K::A => Bd::A(r.g(L)?), K::D => Bd::D { x: r.g(L)? }, K::B => Bd::U, _ => return Err(F::Err(ErrorKind::Switch, r.pos)) }; S4 { k, b } });
#[derive(Nom, PartialEq)] #[nom(SetEndian = "if i.len() > 4 { nom::number::Endianness::Big } else { nom::number::Endianness::Little }")] pub struct S5 { pub k: K, pub l: K }
t!(s5, S5, |r, _e| { let x = if r.left() > 4 { B } else { L }; S5 { k: r.g(x)?, l: r.g(x)? } });
