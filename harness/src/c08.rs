use crate::sup::*;
#[derive(Nom, PartialEq, Debug, Clone, Copy, Default)] pub struct In { pub a: u8, pub b: u16 }
r!(In, |r, e| In { a: r.g(e)?, b: r.g(e)? });
pub const MAGIC: &[u8] = b"\x7fEL";
pub const ARR: [u8; 2] = [0, 0xff];
pub static STAT: &[u8; 3] = b"\x00\x00\x01";
pub type PU = (u8, u16);
pub fn odd(x: &u16) -> bool { x & 1 == 1 }
pub fn is_set(x: u8, bit: u32) -> bool { x >> (bit & 7) & 1 == 1 }
pub mod consts { pub const LIM: u8 = 9; }
pub fn at(v: &[u8; 3], k: usize) -> u8 { v[k] }
pub fn has(v: &[u8; 3], k: u8) -> bool { v[0] == k || v[1] == k || v[2] == k }
pub fn asc(v: &[u16; 2]) -> bool { v[0] < v[1] }
