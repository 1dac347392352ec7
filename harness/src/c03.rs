// harness-macro: h3 be le pa
use crate::sup::*;
impl<'a, N: Ref<'a> + nom::ToUsize> Ref<'a> for LengthData<N, &'a [u8]> {
    fn rd(r: &mut Rd<'a>, e: E) -> R<Self> {
        let n: N = r.g(e)?;
        Ok(LengthData::new(r.take(n.to_usize())?))
    }
}
// ---- String: u32 big-endian byte count, UTF-8 payload, whichever method is called
h!(s_n12, String);
h!(so_n9, Option<String>);
h!(sp_n9, (u8, String));
h!(sv_n9, Vec<String>);
#[derive(Nom, PartialEq)] pub struct S1 { pub a: u8, pub s: String, pub b: u8 }
t!(s1_n9, S1, |r, e| S1 { a: r.g(e)?, s: r.g(e)?, b: r.g(e)? });
#[derive(Nom, PartialEq)] #[nom(LittleEndian)] pub struct S2 { pub a: u16, pub s: String }
t!(s2_n9, S2, |r, e| S2 { a: r.g(L)?, s: r.g(L)? });
#[derive(Nom, PartialEq)] pub struct S3 { pub a: u8, #[nom(LittleEndian)] pub s: Option<String>, pub b: u16 }
t!(s3_n9, S3, |r, e| S3 { a: r.g(e)?, s: r.g(e)?, b: r.g(e)? });
#[derive(Nom, PartialEq)] pub struct S4 { pub n: u8, #[nom(Count = "n")] pub s: Vec<String> }
t!(s4_n10, S4, |r, e| { let n: u8 = r.g(e)?; S4 { n, s: r.count(n as usize, |r| r.g(e))? } });
#[derive(Nom, PartialEq)] #[nom(GenericErrors)] pub struct S6 { pub a: u16, pub s: String }
r!(S6, |r, e| S6 { a: r.g(e)?, s: r.g(e)? });
pub mod g6 { use super::*;
#[inline(never)] pub fn be<'a>(i: &'a [u8]) -> IResult<&'a [u8], S6, MyErr<'a>> { S6::parse_be(i) }
#[inline(never)] pub fn le<'a>(i: &'a [u8]) -> IResult<&'a [u8], S6, MyErr<'a>> { S6::parse_le(i) }
#[inline(never)] pub fn oracle<'a>(i: &'a [u8], e: E) -> R<(S6, usize)> { let mut r = Rd::new(i); let v = S6::rd(&mut r, e)?; Ok((v, r.pos)) }
}
hc!(g6b_n9, |i, a, b| same(conv(i, g6::be(i)), g6::oracle(i, B)));
hc!(g6l_n9, |i, a, b| same(conv(i, g6::le(i)), g6::oracle(i, L)));
// ---- LengthData: prefix with the requested endianness, then exactly that many bytes, borrowed from the input
h!(l8, LengthData<u8, &'a [u8]>);
h!(l16, LengthData<u16, &'a [u8]>);
h!(l32, LengthData<u32, &'a [u8]>);
h!(l64, LengthData<u64, &'a [u8]>);
h!(a8, LengthDataU8<'a>);
h!(a16, LengthDataU16<'a>);
h!(a32, LengthDataU32<'a>);
h!(a64, LengthDataU64<'a>);
h!(o16, Option<LengthDataU16<'a>>);
h!(p16, (LengthDataU16<'a>, LengthDataU8<'a>));
h!(p32, (u16, LengthDataU32<'a>));
h!(v8_n5, Vec<LengthDataU8<'a>>);
h!(v16_n7, Vec<LengthDataU16<'a>>);
h!(arr8_n5, (LengthDataU8<'a>, (LengthDataU8<'a>, LengthDataU8<'a>)));
// (a borrowed field needs an explicit parser: the derive ties inferred types to the struct's lifetime)
#[derive(Nom, PartialEq)] pub struct L1<'a> { pub a: u8, #[nom(Parse = "LengthDataU16::parse_be")] pub d: LengthDataU16<'a>, pub b: u16 }
t!(d1, L1<'a>, |r, e| L1 { a: r.g(e)?, d: r.g(B)?, b: r.g(e)? });
#[derive(Nom, PartialEq)] #[nom(LittleEndian)] pub struct L2<'a> { #[nom(Parse(LengthDataU32::parse_le))] pub d: LengthDataU32<'a>, #[nom(Parse = "LengthDataU16::parse")] pub f: LengthDataU16<'a> }
t!(d2, L2<'a>, |r, e| L2 { d: r.g(L)?, f: r.g(B)? });
#[derive(Nom, PartialEq)] pub struct L3<'a>(#[nom(Parse = "LengthData::<u64, _>::parse_le")] pub LengthDataU64<'a>, #[nom(Complete, Parse = "LengthDataU8::parse")] pub LengthDataU8<'a>);
t!(d3, L3<'a>, |r, e| L3(r.g(L)?, r.complete(|r| r.g(e))?));
#[derive(Nom, PartialEq)] pub struct L4<'a> { pub n: u8, #[nom(Cond = "n > 3", Parse = "LengthDataU16::parse_be")] pub d: Option<LengthDataU16<'a>>, #[nom(Parse = "<Option<LengthDataU8>>::parse")] pub t: Option<LengthDataU8<'a>> }
t!(d4, L4<'a>, |r, e| { let n: u8 = r.g(e)?; L4 { n, d: r.cond(n > 3, |r| r.g(B))?, t: r.g(e)? } });
#[derive(Nom, PartialEq)] pub struct L6<'a> { #[nom(Parse = "LengthDataU16::parse_le")] pub d: LengthDataU16<'a>, #[nom(Verify(f.data.len() < 5), Parse = "LengthDataU8::parse_be")] pub f: LengthDataU8<'a> }
t!(d6, L6<'a>, |r, e| L6 { d: r.g(L)?, f: r.verify(|r| r.g(e), |f: &LengthDataU8| f.data.len() < 5)? });
#[derive(Nom, PartialEq)] pub struct L7<'a> { #[nom(Map = "|x: LengthDataU16<'nom>| x.data", Parse = "LengthDataU16::parse_le")] pub d: &'a [u8], pub t: u8 }
t!(d7, L7<'a>, |r, e| L7 { d: r.g::<LengthDataU16<'a>>(L)?.data, t: r.g(e)? });
#[derive(Nom, PartialEq)] #[nom(Complete)] pub struct L8<'a> { #[nom(Parse = "LengthDataU16::parse")] pub d: LengthDataU16<'a>, #[nom(Parse = "LengthDataU8::parse")] pub f: LengthDataU8<'a> }
t!(d8, L8<'a>, |r, e| L8 { d: r.complete(|r| r.g(B))?, f: r.complete(|r| r.g(e))? });
// a length prefix of the user's, whose three methods differ (and which can fail with its own errors)
impl nom::ToUsize for Tri { fn to_usize(&self) -> usize { self.v as usize + 3 * self.m as usize } }
h3!(lt, LengthData<Tri, &'a [u8]>);
h3!(lo, LengthData<Nw, &'a [u8]>);
h3!(lto, Option<LengthData<Tri, &'a [u8]>>);
h3!(ltp, (LengthData<Tri, &'a [u8]>, Tri));
h3!(ltv_n6, Vec<LengthData<Tri, &'a [u8]>>);
/// and a derived one
#[derive(NomLE, PartialEq, Debug)] pub struct Nw(pub u8, pub u16);
r!(Nw, |r, _e| Nw(r.g(L)?, r.g(L)?));
impl nom::ToUsize for Nw { fn to_usize(&self) -> usize { self.1 as usize } }
