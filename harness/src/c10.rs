use crate::sup::*;
pub const K: usize = 3;
#[derive(Nom, PartialEq, Debug, Clone, Copy, Default)] pub struct In { pub a: u8, pub b: u16 }
r!(In, |r, e| In { a: r.g(e)?, b: r.g(e)? });
// aligned relative to its own start, wherever it stands in its parent
#[derive(Nom, PartialEq, Debug, Clone, Copy, Default)] pub struct Al { pub a: u8, #[nom(AlignBefore(4))] pub b: u16 }
r!(Al, |r, e| { let a = r.g(e)?; r.align(4)?; Al { a, b: r.g(e)? } });
#[derive(Nom, PartialEq, Debug, Clone, Copy, Default)] pub struct Af { #[nom(AlignAfter(2))] pub a: u8 }
r!(Af, |r, e| { let a = r.g(e)?; r.align(2)?; Af { a } });
#[derive(NomLE, PartialEq, Debug, Clone, Copy, Default)] pub struct Sk { #[nom(SkipBefore(1))] pub a: u16, #[nom(SkipAfter = "(a & 1) as u8")] pub b: u8 }
r!(Sk, |r, _e| { r.skip(1)?; let a: u16 = r.g(L)?; let b = r.g(L)?; r.skip((a & 1) as usize)?; Sk { a, b } });
