use crate::sup::*;
#[derive(Nom, PartialEq, Debug, Clone, Copy, Default)] pub struct In { pub a: u16, pub b: u32 }
r!(In, |r, e| In { a: r.g(e)?, b: r.g(e)? });
#[derive(Nom, PartialEq, Debug, Clone, Copy, Default)] #[nom(LittleEndian)] pub struct InL { pub a: u16, #[nom(BigEndian)] pub b: u32 }
r!(InL, |r, e| InL { a: r.g(L)?, b: r.g(B)? });
#[derive(NomBE, PartialEq, Debug, Clone, Copy, Default)] pub struct InB(pub u16, #[nom(LittleEndian)] pub u16);
r!(InB, |r, e| InB(r.g(B)?, r.g(L)?));
#[derive(Nom, PartialEq, Debug, Clone, Copy)] #[repr(u16)] pub enum Kd { A = 0x0102, B = 3, C = 0x0201 }
r!(Kd, |r, e| { let p = r.pos; match r.g::<u16>(e)? { 0x0102 => Kd::A, 3 => Kd::B, 0x0201 => Kd::C, _ => return Err(F::Err(ErrorKind::Switch, p)) } });
pub type PU = (u16, u32);
#[derive(PartialEq, Debug, Clone, Copy)] pub struct New(pub u32);
impl From<u32> for New { fn from(x: u32) -> New { New(x) } }
