use crate::sup::*;
// harness-macro: h3 be le pa
// small derived elements used inside containers
#[derive(Nom, PartialEq, Debug, Clone, Copy, Default)]
pub struct P2 { pub a: u8, pub b: u16 }
r!(P2, |r, e| P2 { a: r.g(e)?, b: r.g(e)? });
#[derive(Nom, PartialEq, Debug, Clone, Copy, Default)]
#[nom(LittleEndian)]
pub struct L2(pub u16);
r!(L2, |r, _e| L2(r.g(L)?));
#[derive(Nom, PartialEq, Debug, Clone, Copy)]
#[repr(u16)]
pub enum K { A = 1, B = 0x100, C = 7 }
r!(K, |r, e| match r.verify(|r| r.g::<u16>(e), |v| *v == 1 || *v == 0x100 || *v == 7) { Ok(1) => K::A, Ok(7) => K::C, Ok(_) => K::B, Err(F::Err(_, p)) => return Err(F::Err(ErrorKind::Switch, p)), Err(x) => return Err(x) });
// a derived element that rejects some values
#[derive(Nom, PartialEq, Debug, Clone, Copy)]
pub struct V1 { #[nom(Verify(*a < 0x8000))] pub a: u16 }
r!(V1, |r, e| V1 { a: r.verify(|r| r.g(e), |a: &u16| *a < 0x8000)? });
#[derive(Nom, PartialEq, Debug, Clone)]
pub struct VV { pub n: u8, #[nom(Count = "n")] pub v: Vec<u16> }
r!(VV, |r, e| { let n: u8 = r.g(e)?; VV { n, v: r.count(n as usize, |r| r.g(e))? } });
h!(o_k, Option<K>);
h!(o_v1, Option<V1>);
h!(o_p2, Option<P2>);
h!(o_l2, Option<L2>);
h!(o_opt, Option<Option<u32>>);
h!(o_pair, Option<(u16, u32)>);
h!(o_arr, Option<[u16; 3]>);
h!(pr_oo, (Option<u32>, Option<u16>));
h!(pr_nest, ((u8, u16), (u32, u16)));
h!(pr_sl, (L2, u16));
h!(pr_p2, (P2, P2));
h!(pr_arr, ([u16; 2], [u32; 2]));
h!(pr_ou, (Option<u64>, u8));
h!(pr_vu_n6, (Vec<u16>, u8));
h!(v_k_n9, Vec<K>);
h!(v_v1_n9, Vec<V1>);
h!(v_p2_n10, Vec<P2>);
h!(v_l2_n9, Vec<L2>);
h!(v_pair_n14, Vec<(u16, u32)>);
h!(v_arr_n9, Vec<[u16; 2]>);
h!(v_vv_n6, Vec<VV>);
h!(o_v_n7, Option<Vec<u16>>);
h!(o_vv_n7, Option<VV>);
// many0 needs progress: an element that accepts the empty input ends in an error
h!(x_v_opt_n7, Vec<Option<u16>>);
h!(x_v_v_n5, Vec<Vec<u8>>);
h!(a_p2, [P2; 3]);
h!(a_l2, [L2; 2]);
h!(a_pair, [(u8, u16); 2]);
h!(a_0, [u16; 0]);
h!(x_a_o, [Option<u16>; 2]);
h!(a_aa, [[u16; 2]; 2]);
// in fields, followed and preceded by other fields
#[derive(Nom, PartialEq)] pub struct F1 { pub a: Option<u32>, pub b: Option<u16>, pub c: Option<u8> }
t!(f1, F1, |r, e| F1 { a: r.g(e)?, b: r.g(e)?, c: r.g(e)? });
#[derive(Nom, PartialEq)] pub struct F2 { pub h: u8, pub v: Vec<u32>, pub t: u8 }
t!(f2_n11, F2, |r, e| F2 { h: r.g(e)?, v: r.g(e)?, t: r.g(e)? });
pub type PU = (u8, u64);
#[derive(Nom, PartialEq)] pub struct F3 { pub h: u8, pub v: [u32; 3], pub p: PU, pub t: Option<P2> }
t!(f3, F3, |r, e| F3 { h: r.g(e)?, v: r.g(e)?, p: r.g(e)?, t: r.g(e)? });
#[derive(Nom, PartialEq)] pub struct F4(pub Vec<P2>, pub Option<u16>);
t!(f4_n8, F4, |r, e| F4(r.g(e)?, r.g(e)?));
#[derive(Nom, PartialEq)] pub struct F5 { pub v: Vec<V1>, pub t: u16 }
t!(f5_n7, F5, |r, e| F5 { v: r.g(e)?, t: r.g(e)? });
// elements that tell which of their methods was called, and that fail recoverably or for good
h3!(m_tri, Tri);
h3!(m_o, Option<Tri>);
h3!(m_oo, Option<Option<Tri>>);
h3!(m_a, [Tri; 3]);
h3!(m_aa, [[Tri; 2]; 2]);
h3!(m_p, (Tri, Tri));
h3!(m_pp, ((Tri, u16), (u32, Tri)));
h3!(m_po, (Option<Tri>, Option<u16>));
h3!(m_op, Option<(Tri, Tri)>);
h3!(m_oa, Option<[Tri; 2]>);
h3!(m_v_n9, Vec<Tri>);
h3!(m_vp_n9, Vec<(u16, Tri)>);
h3!(m_va_n9, Vec<[Tri; 2]>);
h3!(m_pv_n7, (Vec<Tri>, u8));
h3!(m_pvo_n7, (u8, (Vec<Tri>, Option<Tri>)));
h3!(m_ov_n5, Option<Vec<Tri>>);
h3!(m_ao, (Tri, [(u8, Tri); 2]));
#[derive(Nom, PartialEq)] pub struct F6 { pub a: Option<Tri>, pub b: [Tri; 2], pub c: Option<PT>, #[nom(LittleEndian)] pub d: Vec<Tri> }
pub type PT = (Tri, u8);
t!(f6_n12, F6, |r, e| F6 { a: r.g(e)?, b: r.g(e)?, c: r.g(e)?, d: r.g(L)? });
