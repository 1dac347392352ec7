use crate::sup::*;
// without the `alloc` feature: arrays are filled in place, a short input is Incomplete
#[derive(Nom, PartialEq, Debug, Clone, Copy, Default)]
pub struct P2 { pub a: u8, pub b: u16 }
r!(P2, |r, e| P2 { a: r.g(e)?, b: r.g(e)? });
#[derive(Nom, PartialEq, Debug, Clone, Copy, Default)]
#[nom(LittleEndian)]
pub struct L2(pub u16);
r!(L2, |r, _e| L2(r.g(L)?));
#[derive(Nom, PartialEq, Debug, Clone, Copy, Default)]
pub struct V1 { #[nom(Verify(*a < 0x8000))] pub a: u16 }
r!(V1, |r, e| V1 { a: r.verify(|r| r.g(e), |a: &u16| *a < 0x8000)? });
h!(a_p2, [P2; 3]);
h!(a_l2, [L2; 2]);
h!(a_v1, [V1; 3]);
h!(a_pair, [(u8, u16); 2]);
h!(a_aa, [[u16; 2]; 2]);
h!(a_o, [Option<u16>; 2]);
h!(a_0, [u16; 0]);
h!(pr_arr, ([u16; 2], [u32; 2]));
h!(o_arr, Option<[u16; 3]>);
h!(o_p2, Option<P2>);
#[derive(Nom, PartialEq)] pub struct F3 { pub h: u8, pub v: [u32; 3], pub t: Option<P2> }
t!(f3, F3, |r, e| F3 { h: r.g(e)?, v: r.g(e)?, t: r.g(e)? });
#[derive(Nom, PartialEq)] pub struct F6 { pub n: u8, #[nom(Cond = "n > 3")] pub a: Option<[u16; 2]>, #[nom(Complete)] pub b: [u8; 3] }
t!(f6, F6, |r, e| { let n: u8 = r.g(e)?; F6 { n, a: r.cond(n > 3, |r| r.g(e))?, b: r.complete(|r| r.g(e))? } });
#[derive(Nom, PartialEq, Debug, Clone, Copy)]
#[repr(u16)]
pub enum K { A = 1, B = 0x100, C = 7 }
r!(K, |r, e| match r.verify(|r| r.g::<u16>(e), |v| *v == 1 || *v == 0x100 || *v == 7) { Ok(1) => K::A, Ok(7) => K::C, Ok(_) => K::B, Err(F::Err(_, p)) => return Err(F::Err(ErrorKind::Switch, p)), Err(x) => return Err(x) });
h!(k, K);
h!(o_k, Option<K>);
