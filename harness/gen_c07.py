k = 0
def st(name, attrs_fields, body, lens, tl="", der="Nom", mac="t", extra=None):
    global k
    k += 1
    S = "X%d" % k
    print("#[derive(%s, PartialEq)] %s pub struct %s%s { %s }" % (der, tl, S, "<'a>" if "'a" in attrs_fields else "", attrs_fields))
    T = S + ("<'a>" if "'a" in attrs_fields else "")
    n = "%s%s" % (name, "_n%d" % lens if lens else "")
    if extra:
        print("hx!(%s, %s, |a, b| (%s), |r, e| { %s });" % (n, T, extra, body.replace("@", S)))
    else:
        print("t!(%s, %s, |r, e| { %s });" % (n, T, body.replace("@", S)))
# every type of count expression
EX = [("u8", "n", "n as usize"), ("u16", "n", "n as usize"), ("u32", "n", "n as usize"), ("u64", "n", "n as usize"), ("i8", "n", "n as usize"), ("i32", "n", "n as usize"),
      ("u8", "n & 3", "(n & 3) as usize"), ("u16", "n >> 14", "(n >> 14) as usize"), ("u8", "n % 4", "(n % 4) as usize"), ("u8", "(n / 64) * 2", "(n / 64 * 2) as usize"),
      ("u8", "n as usize + 1", "n as usize + 1"), ("u8", "if n > 7 { 2 } else { 1u16 }", "if n > 7 { 2 } else { 1 }"), ("u8", "2", "2"), ("u8", "{ let q = n & 1; q + 1 }", "(n & 1) as usize + 1"),
      ("u8", "usize::from(n ^ 1)", "(n ^ 1) as usize"), ("u16", "n.min(3)", "n.min(3) as usize"), ("u8", "n as u16 * 256 | 1", "(n as usize) * 256 | 1"), ("u8", "u64::from(n) << 60 >> 60", "(n & 15) as usize"), ("u8", "0", "0")]
for j, (t, ex, o) in enumerate(EX):
    at = 'Count = "%s"' % ex if j % 2 else "Count(%s)" % ex
    for el, sz in (("u8", 1), ("u16", 2), ("In", 3)):
        if el != "u16" and j % 3 != (el == "u8"):
            continue
        st("c%d_%s" % (j, el.lower()), "pub n: %s, #[nom(%s)] pub v: Vec<%s>, pub z: u8" % (t, at, el),
           "let n: %s = r.g(e)?; @ { n, v: r.count(%s, |r| r.g::<%s>(e))?, z: r.g(e)? }" % (t, o, el), {1: 6, 2: 7, 3: 8}[sz] + int(t[1:]) // 8)
# element parsers
for el in ("V1", "PU", "Option<u16>", "[u16; 2]", "i8", "u32", "Vec<u8>"):
    nm = "".join(c for c in el if c.isalnum()).lower()
    st(("x_" if el == "Vec<u8>" else "") + "el_" + nm, "pub n: u8, #[nom(Count(n & 7))] pub v: Vec<%s>, pub z: u8" % el, "let n: u8 = r.g(e)?; @ { n, v: r.count((n & 7) as usize, |r| r.g::<%s>(e))?, z: r.g(e)? }" % el, 8)
    if el not in ("Vec<u8>",):
        st("lc_" + nm, "pub h: u16, #[nom(LengthCount(len3))] pub v: Vec<%s>, pub z: u8" % el, "let h: u16 = r.g(e)?; let n = r.g::<u8>(B)? & 3; @ { h, v: r.count(n as usize, |r| r.g::<%s>(e))?, z: r.g(e)? }" % el, 9)
    st("cd_" + nm, "pub n: u8, #[nom(Cond = \"n > 3\")] pub v: Option<%s>, pub z: u8" % el if el != "Vec<u8>" else "pub n: u8, #[nom(If(n > 3))] pub v: Option<Vec<u8>>",
       "let n: u8 = r.g(e)?; @ { n, v: r.cond(n > 3, |r| r.g::<%s>(e))?%s }" % (el, ", z: r.g(e)?" if el != "Vec<u8>" else ""), 6 if el == "Vec<u8>" else None)
# LengthCount with a parser of every width / endianness, failing ones, closures
for j, (p, rd) in enumerate([("<u8>::parse", "r.g::<u8>(B)? as usize"), ("u16::parse_be", "r.g::<u16>(B)? as usize"), ("u16::parse_le", "r.g::<u16>(L)? as usize"), ("u32::parse_le", "r.g::<u32>(L)? as usize"),
                             ("nom::number::streaming::be_u32", "r.g::<u32>(B)? as usize"), ("nom::number::streaming::le_u64", "r.g::<u64>(L)? as usize"), ("nom::number::streaming::le_u16", "r.g::<u16>(L)? as usize"),
                             ("len_odd", "{ let p = r.pos; let n = r.g::<u8>(B)?; if n & 1 == 0 { return Err(F::Fail(ErrorKind::Digit, p)) } n as usize }"),
                             ("nom::combinator::verify(u8::parse, |n: &u8| *n != 2)", "r.verify(|r| r.g::<u8>(B), |n| *n != 2)? as usize"),
                             ("|i| { let (i, n) = <u16>::parse_le(i)?; Ok((i, n & 0x0103)) }", "(r.g::<u16>(L)? & 0x0103) as usize")]):
    st("l%d" % j, "pub h: u8, #[nom(LengthCount = \"%s\")] pub v: Vec<u16>, pub z: u16" % p, "let h: u8 = r.g(e)?; let n = %s; @ { h, v: r.count(n, |r| r.g::<u16>(e))?, z: r.g(e)? }" % rd, 11)
# conditions
for j, (ex, o) in enumerate([("n == 0", "n == 0"), ("n & 1 == 1", "n & 1 == 1"), ("n > m", "n > m"), ("n > 3 && m < 10 || n == m", "n > 3 && m < 10 || n == m"), ("true", "true"), ("false", "false"), ("!(n == 3)", "n != 3"), ("[1, 5, 9].contains(&n)", "n == 1 || n == 5 || n == 9"),
                             ("i.len() > 2", "r.left() > 2"), ("matches!(n, 3..=7)", "n >= 3 && n <= 7")]):
    at = ("Cond", "If")[j % 2] + (' = "%s"' % ex if j % 3 else "(%s)" % ex)
    st("d%d" % j, "pub n: u8, pub m: u8, #[nom(%s)] pub v: Option<u32>, #[nom(%s)] pub w: Option<In>, pub z: u8" % (at, at),
       "let n: u8 = r.g(e)?; let m: u8 = r.g(e)?; let v = r.cond(%s, |r| r.g(e))?; let w = r.cond(%s, |r| r.g(e))?; @ { n, m, v, w, z: r.g(e)? }" % (o, o), None)
# later fields depending on an optional one
st("dep", "pub n: u8, #[nom(Cond = \"n & 1 == 1\")] pub a: Option<u16>, #[nom(Cond = \"a.is_some()\")] pub b: Option<u8>, #[nom(Cond = \"a == Some(7)\")] pub c: Option<u32>",
   "let n: u8 = r.g(e)?; let a: Option<u16> = r.cond(n & 1 == 1, |r| r.g(e))?; let b = r.cond(a.is_some(), |r| r.g(e))?; let c = r.cond(a == Some(7), |r| r.g(e))?; @ { n, a, b, c }", None)
st("depv", "pub n: u8, #[nom(Count = \"n & 3\")] pub a: Vec<u8>, #[nom(Count = \"a.len()\")] pub b: Vec<u16>, #[nom(Cond = \"a.len() == 2\")] pub c: Option<u8>",
   "let n: u8 = r.g(e)?; let a: Vec<u8> = r.count((n & 3) as usize, |r| r.g(e))?; let b = r.count(a.len(), |r| r.g(e))?; let c = r.cond(a.len() == 2, |r| r.g(e))?; @ { n, a, b, c }", 12)
# compositions, outermost first
st("cc", "pub n: u8, #[nom(Cond = \"n > 3\", Count = \"n & 3\")] pub v: Option<Vec<u16>>, pub z: u8", "let n: u8 = r.g(e)?; @ { n, v: r.cond(n > 3, |r| r.count((n & 3) as usize, |r| r.g(e)))?, z: r.g(e)? }", 9)
st("kc", "pub n: u8, #[nom(Count = \"n & 3\", Cond = \"n > 127\")] pub v: Vec<Option<u16>>, pub z: u8", "let n: u8 = r.g(e)?; @ { n, v: r.count((n & 3) as usize, |r| r.cond(n > 127, |r| r.g(e)))?, z: r.g(e)? }", 9)
st("kl", "pub n: u8, #[nom(Count = \"n & 3\", LengthCount = \"len3\")] pub v: Vec<Vec<u8>>, pub z: u8", "let n: u8 = r.g(e)?; @ { n, v: r.count((n & 3) as usize, |r| { let k = r.g::<u8>(B)? & 3; r.count(k as usize, |r| r.g(e)) })?, z: r.g(e)? }", 7)
st("lk", "pub n: u8, #[nom(LengthCount = \"len3\", Count = \"n & 3\")] pub v: Vec<Vec<u8>>, pub z: u8", "let n: u8 = r.g(e)?; let k = r.g::<u8>(B)? & 3; @ { n, v: r.count(k as usize, |r| r.count((n & 3) as usize, |r| r.g(e)))?, z: r.g(e)? }", 7)
st("kk", "pub n: u8, #[nom(Count = \"n & 1\", Count = \"n & 3\")] pub v: Vec<Vec<u16>>, pub z: u8", "let n: u8 = r.g(e)?; @ { n, v: r.count((n & 1) as usize, |r| r.count((n & 3) as usize, |r| r.g(e)))?, z: r.g(e)? }", 8)
st("ck", "pub n: u8, #[nom(Cond = \"n & 1 == 1\", Cond = \"n & 2 == 2\")] pub v: Option<Option<u16>>, pub z: u8", "let n: u8 = r.g(e)?; @ { n, v: r.cond(n & 1 == 1, |r| r.cond(n & 2 == 2, |r| r.g(e)))?, z: r.g(e)? }", None)
st("cl", "pub n: u8, #[nom(If = \"n > 3\", LengthCount = \"u16::parse_le\")] pub v: Option<Vec<u16>>, pub z: u8", "let n: u8 = r.g(e)?; @ { n, v: r.cond(n > 3, |r| { let k: u16 = r.g(L)?; r.count(k as usize, |r| r.g(e)) })?, z: r.g(e)? }", 9)
st("cv", "pub n: u8, #[nom(Cond = \"n > 3\", Verify = \"*v != 7\")] pub v: Option<u16>, pub z: u8", "let n: u8 = r.g(e)?; @ { n, v: r.cond(n > 3, |r| r.verify(|r| r.g(e), |v: &u16| *v != 7))?, z: r.g(e)? }", None)
st("vc", "pub n: u8, #[nom(Verify = \"*v != Some(7)\", Cond = \"n > 3\")] pub v: Option<u16>, pub z: u8", "let n: u8 = r.g(e)?; @ { n, v: r.verify(|r| r.cond(n > 3, |r| r.g(e)), |v: &Option<u16>| *v != Some(7))?, z: r.g(e)? }", None)
st("kv", "pub n: u8, #[nom(Count = \"n & 3\", Verify = \"*v != 7\")] pub v: Vec<u16>, pub z: u8", "let n: u8 = r.g(e)?; @ { n, v: r.count((n & 3) as usize, |r| r.verify(|r| r.g(e), |v: &u16| *v != 7))?, z: r.g(e)? }", 8)
st("vk", "pub n: u8, #[nom(Verify = \"Vec::len(v) != 2\", Count = \"n & 3\")] pub v: Vec<u16>, pub z: u8", "let n: u8 = r.g(e)?; @ { n, v: r.verify(|r| r.count((n & 3) as usize, |r| r.g(e)), |v: &Vec<u16>| v.len() != 2)?, z: r.g(e)? }", 8)
st("km", "pub n: u8, #[nom(Count = \"n & 3\", Map = \"|x: u16| x.swap_bytes()\")] pub v: Vec<u16>, pub z: u8", "let n: u8 = r.g(e)?; @ { n, v: r.count((n & 3) as usize, |r| r.g::<u16>(e).map(|x| x.swap_bytes()))?, z: r.g(e)? }", 8)
st("kt", "pub n: u8, #[nom(Count = \"n & 3\", Take = \"2\")] pub v: Vec<&'a [u8]>, pub z: u8", "let n: u8 = r.g(e)?; @ { n, v: r.count((n & 3) as usize, |r| r.take(2))?, z: r.g(e)? }", 8)
st("kp", "pub n: u8, #[nom(Count = \"n & 3\", Parse = \"u16::parse_le\")] pub v: Vec<u16>, pub z: u8", "let n: u8 = r.g(e)?; @ { n, v: r.count((n & 3) as usize, |r| r.g(L))?, z: r.g(e)? }", 8)
st("kco", "pub n: u8, #[nom(Complete, Count = \"n & 3\")] pub v: Vec<u16>, pub z: u8", "let n: u8 = r.g(e)?; @ { n, v: r.complete(|r| r.count((n & 3) as usize, |r| r.g(e)))?, z: r.g(e)? }", 8)
st("cok", "pub n: u8, #[nom(Count = \"n & 3\", Complete)] pub v: Vec<u16>, pub z: u8", "let n: u8 = r.g(e)?; @ { n, v: r.count((n & 3) as usize, |r| r.complete(|r| r.g(e)))?, z: r.g(e)? }", 8)
# controlled by extra arguments, and by an earlier nested field
st("xa", "#[nom(Count = \"c\")] pub v: Vec<u16>, #[nom(Cond(on))] pub w: Option<u32>, pub z: u8", "@ { v: r.count(c as usize, |r| r.g(e))?, w: r.cond(on, |r| r.g(e))?, z: r.g(e)? }", 9,
   tl="#[nom(ExtraArgs(c: u32, on: bool))]", extra="c: u32 = a as u32, on: bool = b & 1 == 1")
st("xu", "#[nom(Count(c))] pub v: Vec<u8>, pub z: u8", "@ { v: r.count(c, |r| r.g(e))?, z: r.g(e)? }", 6, tl="#[nom(ExtraArgs(c: usize))]", extra="c: usize = a as usize")
st("nf", "pub h: In, #[nom(Count = \"h.a & 3\")] pub v: Vec<In>, #[nom(Cond = \"h.b == 1\")] pub w: Option<In>", "let h: In = r.g(e)?; @ { h, v: r.count((h.a & 3) as usize, |r| r.g(e))?, w: r.cond(h.b == 1, |r| r.g(e))? }", 14)
# tuple structs and enum variants
print('''#[derive(Nom, PartialEq)] pub struct Tu(pub u8, #[nom(Count = "_0 & 3")] pub Vec<u16>, #[nom(Cond = "_0 > 200")] pub Option<u32>, #[nom(LengthCount = "len3")] pub Vec<u8>);
t!(tu_n12, Tu, |r, e| { let n: u8 = r.g(e)?; let v = r.count((n & 3) as usize, |r| r.g(e))?; let c = r.cond(n > 200, |r| r.g(e))?; let k = r.g::<u8>(B)? & 3; Tu(n, v, c, r.count(k as usize, |r| r.g(e))?) });
#[derive(Nom, PartialEq)] #[nom(Selector = "u8")] pub enum En { #[nom(Selector = "0")] A { n: u8, #[nom(Count = "n & 3")] v: Vec<u16> }, #[nom(Selector = "1")] B(u8, #[nom(If = "_0 > 3")] Option<u32>), #[nom(Selector = "2")] C(#[nom(LengthCount = "len3")] Vec<In>), #[nom(Selector = "x if x > 128")] D(#[nom(Count = "x & 3")] Vec<u16>), #[nom(Selector = "_")] F(#[nom(Cond = "selector == 5")] Option<u16>) }
hx!(en_n10, En, |a, b| (s: u8 = a as u8), |r, e| match s { 0 => { let n: u8 = r.g(e)?; En::A { n, v: r.count((n & 3) as usize, |r| r.g(e))? } } 1 => { let n: u8 = r.g(e)?; En::B(n, r.cond(n > 3, |r| r.g(e))?) } 2 => { let k = r.g::<u8>(B)? & 3; En::C(r.count(k as usize, |r| r.g(e))?) } x if x > 128 => En::D(r.count((x & 3) as usize, |r| r.g(e))?), x => En::F(r.cond(x == 5, |r| r.g(e))?) });''')
# counts far beyond what an input of the bounded length could feed: elements that take no bytes, or that come from a fixed table
print('pub fn unit(i: &[u8]) -> IResult<&[u8], u8> { Ok((i, 7)) } pub fn back(i: &[u8]) -> IResult<&[u8], u16> { let (_, n) = u16::parse(i)?; Ok((i, n)) }')
for nm, c in (("a", "300u16"), ("b", "1025u64"), ("c", "4097u32")):
    st("z%s" % nm, "pub h: u8, #[nom(Count = \"%s\", Parse = \"unit\")] pub v: Vec<u8>, pub z: u8" % c, "let h: u8 = r.g(e)?; @ { h, v: r.count(%s as usize, |_| Ok(7u8))?, z: r.g(e)? }" % c, None)
    st("zb%s" % nm, "pub h: u8, #[nom(Count = \"%s\", Parse = \"back\")] pub v: Vec<u16>, pub z: u16" % c, "let h: u8 = r.g(e)?; let v = r.count(%s as usize, |r| { let p = r.pos; let n = r.g::<u16>(B)?; r.pos = p; Ok(n) })?; @ { h, v, z: r.g(e)? }" % c, None)
    st("zl%s" % nm, "pub h: u8, #[nom(LengthCount = \"|i| Ok((i, %s))\", Value = \"h\")] pub v: Vec<u8>, pub z: u8" % c, "let h: u8 = r.g(e)?; @ { h, v: r.count(%s as usize, |_| Ok(h))?, z: r.g(e)? }" % c, None)
# ---- attributes of every kind combined at random, each definition with one of these
import genmix
genmix.mix(["Count", "Cond", "LengthCount"], 60)
