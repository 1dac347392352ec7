INTS = "u8 u16 u32 u64 u128 i8 i16 i32 i64 i128".split()
for t in INTS:
    print("h!(p_%s, %s);" % (t, t))
    # another error type
    print("""pub mod e_%s { use super::*;
#[inline(never)] pub fn real_be<'a>(i: &'a [u8]) -> IResult<&'a [u8], %s, MyErr<'a>> { <%s as Parse<&'a [u8], MyErr<'a>>>::parse_be(i) }
#[inline(never)] pub fn real_le<'a>(i: &'a [u8]) -> IResult<&'a [u8], %s, MyErr<'a>> { <%s as Parse<&'a [u8], MyErr<'a>>>::parse_le(i) }
#[inline(never)] pub fn real_pa<'a>(i: &'a [u8]) -> IResult<&'a [u8], %s, MyErr<'a>> { <%s as Parse<&'a [u8], MyErr<'a>>>::parse(i) }
}
hc!(g_%s, |i, a, b| match a %% 3 { 0 => same(conv(i, e_%s::real_be(i)), oracle::<%s>(i, B)), 1 => same(conv(i, e_%s::real_le(i)), oracle::<%s>(i, L)), _ => same(conv(i, e_%s::real_pa(i)), oracle::<%s>(i, B)) });
""" % (t, t, t, t, t, t, t, t, t, t, t, t, t, t))
    # in a derived type
    print("""#[derive(Nom, PartialEq)] pub struct D_%s { pub v: %s }
t!(d_%s, D_%s, |r, e| D_%s { v: r.g(e)? });""" % (t, t, t, t, t))
for t, u in (("f32", "u32"), ("f64", "u64")):
    print("""pub mod e_%(t)s { use super::*;
#[inline(never)] pub fn be<'a>(i: &'a [u8]) -> IResult<&'a [u8], %(t)s> { <%(t)s>::parse_be(i) }
#[inline(never)] pub fn le<'a>(i: &'a [u8]) -> IResult<&'a [u8], %(t)s> { <%(t)s>::parse_le(i) }
#[inline(never)] pub fn pa<'a>(i: &'a [u8]) -> IResult<&'a [u8], %(t)s> { <%(t)s>::parse(i) }
}
hc!(b_%(t)s, |i, a, b| same(conv(i, e_%(t)s::be(i)).map(|(v, p)| (v.to_bits(), p)), oracle::<%(u)s>(i, B)));
hc!(l_%(t)s, |i, a, b| same(conv(i, e_%(t)s::le(i)).map(|(v, p)| (v.to_bits(), p)), oracle::<%(u)s>(i, L)));
hc!(p_%(t)s, |i, a, b| same(conv(i, e_%(t)s::pa(i)).map(|(v, p)| (v.to_bits(), p)), oracle::<%(u)s>(i, B)));
#[derive(Nom)] pub struct D_%(t)s { pub v: %(t)s, pub w: %(t)s }
bits_eq!(D_%(t)s; v w);
t!(d_%(t)s, D_%(t)s, |r, e| D_%(t)s { v: r.g(e)?, w: r.g(e)? });""" % dict(t=t, u=u))
