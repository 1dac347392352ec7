use crate::sup::*;
pub const K: isize = 3;
#[derive(Nom, PartialEq, Debug, Clone, Copy, Default)] pub struct In { pub a: u8, pub b: u16 }
r!(In, |r, e| In { a: r.g(e)?, b: r.g(e)? });
#[derive(Nom, PartialEq, Debug, Clone, Copy, Default)] pub struct Mv { pub a: i8, #[nom(Move(a))] pub b: u8 }
r!(Mv, |r, e| { let a: i8 = r.g(e)?; r.mv(a as isize)?; Mv { a, b: r.g(e)? } });
#[derive(Nom, PartialEq, Debug, Clone, Copy, Default)] pub struct Ma { pub a: u8, #[nom(MoveAbs = "a & 7")] pub b: u8 }
r!(Ma, |r, e| { let a: u8 = r.g(e)?; r.mvabs((a & 7) as usize)?; Ma { a, b: r.g(e)? } });
#[derive(NomLE, PartialEq, Debug, Clone, Copy, Default)] pub struct Mb { #[nom(MoveAbs(2))] pub a: u16, #[nom(Move(-4))] pub b: u16 }
r!(Mb, |r, _e| { r.mvabs(2)?; let a = r.g(L)?; r.mv(-4)?; Mb { a, b: r.g(L)? } });
// a directory: entries give the position of the data, as in file formats
#[derive(NomBE, PartialEq)] pub struct Dir<'a> { pub off: u16, pub len: u8, #[nom(MoveAbs = "off", Take = "len")] pub data: &'a [u8], #[nom(MoveAbs(3))] pub next: u8 }
t!(dir_n8, Dir<'a>, |r, _e| { let off: u16 = r.g(B)?; let len: u8 = r.g(B)?; r.mvabs(off as usize)?; let data = r.take(len as usize)?; r.mvabs(3)?; Dir { off, len, data, next: r.g(B)? } });
