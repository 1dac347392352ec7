use crate::sup::*;
#[derive(Nom, PartialEq, Debug, Clone, Copy, Default)] pub struct In { pub a: u8, pub b: u16 }
r!(In, |r, e| In { a: r.g(e)?, b: r.g(e)? });
// rejects some values with an Error
#[derive(Nom, PartialEq, Debug, Clone, Copy, Default)] pub struct V1 { #[nom(Verify(*a < 0x80))] pub a: u8 }
r!(V1, |r, e| V1 { a: r.verify(|r| r.g(e), |a: &u8| *a < 0x80)? });
pub type PU = (u8, u16);
pub fn len3(i: &[u8]) -> IResult<&[u8], u8> { let (i, n) = <u8>::parse(i)?; Ok((i, n & 3)) }
pub fn len_odd(i: &[u8]) -> IResult<&[u8], u8> { let (j, n) = <u8>::parse(i)?; if n & 1 == 0 { Err(NErr::Failure(Error::new(i, ErrorKind::Digit))) } else { Ok((j, n)) } }
