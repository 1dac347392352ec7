from genlib import G
g = G()
def at(k, a, x):
    return ('%s = "%s"' % (a, x.replace('\\', '\\\\').replace('"', '\\"'))) if k % 2 else "%s(%s)" % (a, x)
# ---- Take
T = [("u8", "n"), ("u16", "n"), ("u32", "n"), ("u64", "n"), ("i8", "n"), ("i16", "n"), ("i32", "n"), ("i64", "n"), ("u128", "n"), ("u8", "n & 3"), ("u8", "n as usize + 1"), ("u16", "n >> 14"), ("u8", "n % 3"), ("u8", "2"), ("u8", "0"), ("u8", "K"),
     ("u8", "K + 1"), ("u8", "i.len() - i.len() / 2"), ("u8", "if n > 3 { 1 } else { 2u16 }"), ("u8", "usize::from(n).min(3)"), ("u8", "{ let q = n / 100; q * q }"), ("u32", "n.count_ones()"), ("u8", "n as u16 * 2"), ("u8", "4 - (n & 3)"), ("u8", "1 + (n & 1)"), ("u64", "u64::MAX - n"), ("u8", "usize::MAX"), ("u8", "i.len()"), ("u8", "1 << (n & 1)"), ("u8", "!n"), ("u8", "-1i8 as u8 - n")]
for j, (t, x) in enumerate(T):
    o = "(%s) as usize" % x.replace("i.len()", "r.left()")
    g.st("k%d" % j, "pub n: %s, #[nom(%s)] pub t: &'a [u8], pub z: u8" % (t, at(j, "Take", x)), "let n: %s = r.g(e)?; let t = r.take(%s)?; @ { n, t, z: r.g(e)? }" % (t, o),
         {"n": 20}.get(x, 10) if x != "i.len()" else 10) if x not in ("i.len()", "usize::MAX", "u64::MAX - n") else g.st("x_k%d" % j, "pub n: %s, #[nom(%s)] pub t: &'a [u8], pub z: u8" % (t, at(j, "Take", x)), "let n: %s = r.g(e)?; let t = r.take(%s)?; @ { n, t, z: r.g(e)? }" % (t, o), 10)
g.st("k_two", "pub n: u8, #[nom(Take = \"n & 3\")] pub s: &'a [u8], #[nom(Take(s.len()))] pub t: &'a [u8], #[nom(Take(0))] pub u: &'a [u8]", "let n: u8 = r.g(e)?; let s = r.take((n & 3) as usize)?; let t = r.take(s.len())?; @ { n, s, t, u: r.take(0)? }")
g.st("k_cond", "pub n: u8, #[nom(Cond(n > 3), Take = \"n & 3\")] pub s: Option<&'a [u8]>, pub z: u8", "let n: u8 = r.g(e)?; let s = r.cond(n > 3, |r| r.take((n & 3) as usize))?; @ { n, s, z: r.g(e)? }")
g.st("k_count", "pub n: u8, #[nom(Count(2), Take = \"n & 3\")] pub s: Vec<&'a [u8]>, pub z: u8", "let n: u8 = r.g(e)?; let s = r.count(2, |r| r.take((n & 3) as usize))?; @ { n, s, z: r.g(e)? }", 10)
g.st("k_map", "pub n: u8, #[nom(Map = \"sum\", Take = \"n & 3\")] pub s: u32, #[nom(Map = \"|t: &[u8]| t.to_vec()\", Take(2))] pub v: Vec<u8>, pub z: u8", "let n: u8 = r.g(e)?; let s = sum(r.take((n & 3) as usize)?); let v = r.take(2)?.to_vec(); @ { n, s, v, z: r.g(e)? }")
g.st("k_co", "pub n: u8, #[nom(Complete, Take = \"n & 3\")] pub s: &'a [u8], #[nom(SkipBefore(1), Take(1), SkipAfter(1))] pub v: &'a [u8], pub z: u8", "let n: u8 = r.g(e)?; let s = r.complete(|r| r.take((n & 3) as usize))?; r.skip(1)?; let v = r.take(1)?; r.skip(1)?; @ { n, s, v, z: r.g(e)? }")
g.st("k_tup", "(pub u16, #[nom(Take(2))] pub &'a [u8], #[nom(Take = \"_1[0] & 1\")] pub &'a [u8])", "let n = r.g(e)?; let t = r.take(2)?; @(n, t, r.take((t[0] & 1) as usize)?)")
g.st("k_x", "pub h: u8, #[nom(Take(k))] pub t: &'a [u8], pub z: u8", "@ { h: r.g(e)?, t: r.take(k)?, z: r.g(e)? }", 9, tl="#[nom(ExtraArgs(k: usize))]", extra="k: usize = a as usize")
# ---- Parse: the given parser in place of the inferred one (an i32 field would be read differently)
PA = [("u16", "u16::parse_le", "r.g::<u16>(L)?"), ("u16", "nom::number::streaming::be_u16", "r.g::<u16>(B)?"), ("u8", "digit", "o_digit(r)?"), ("u8", "fatal", "o_fatal(r)?"), ("u32", "nom::combinator::map(u16::parse_be, dbl)", "dbl(r.g::<u16>(B)?)"), ("u16", "add_to(n)", "r.g::<u16>(L)? ^ n as u16"),
      ("u16", "{ |i| with_arg(i, n) }", "if n & 1 == 0 { r.g::<u16>(B)? } else { r.g::<u16>(L)? }"), ("u16", "if n > 7 { u16::parse_be } else { u16::parse_le }", "r.g::<u16>(if n > 7 { B } else { L })?"), ("u32", "nom::number::streaming::le_u24", "{ let t = r.take(3)?; t[0] as u32 | (t[1] as u32) << 8 | (t[2] as u32) << 16 }"),
      ("Vec<u8>", "nom::multi::count(digit, 2)", "r.count(2, o_digit)?"), ("Option<u8>", "nom::combinator::opt(digit)", "{ r.need(1)?; r.opt(o_digit)? }"), ("Option<u8>", "nom::combinator::opt(nom::combinator::complete(fatal))", "r.opt(o_fatal)?"),
      ("PU", "nom::sequence::pair(digit, u16::parse_le)", "{ let a = o_digit(r)?; (a, r.g::<u16>(L)?) }"), ("u16", "nom::sequence::preceded(digit, u16::parse_be)", "{ o_digit(r)?; r.g::<u16>(B)? }"), ("In", "In::parse_le", "r.g::<In>(L)?"), ("In", "<In as Parse<_>>::parse_be", "r.g::<In>(B)?"),
      ("u64", "{ |i| Ok((i, n as u64)) }", "n as u64"), ("u8", "{ let k = n & 1; move |i| { let (i, x) = u8::parse(i)?; Ok((i, x ^ k)) } }", "r.g::<u8>(B)? ^ (n & 1)"), ("bool", "nom::combinator::map(u8::parse, |x| x != 0)", "r.g::<u8>(B)? != 0"), ("u8", "nom::combinator::peek(digit)", "{ let p = r.pos; let x = o_digit(r)?; r.pos = p; x }")]
for j, (t, x, o) in enumerate(PA):
    base = "e"
    g.st("pa%d" % j, "pub n: u8, #[nom(%s)] pub v: %s, pub z: u16" % (at(j, "Parse", x), t), "let n: u8 = r.g(e)?; let v = %s; @ { n, v, z: r.g(e)? }" % o)
    if t not in ("Option<u8>",) and j not in (16, 17, 6):
        g.st("pb%d" % j, "pub n: u8, #[nom(Cond(n & 4 == 4), %s)] pub v: Option<%s>, pub z: u16" % (at(j + 1, "Parse", x), t), "let n: u8 = r.g(e)?; let v = r.cond(n & 4 == 4, |r| Ok(%s))?; @ { n, v, z: r.g(e)? }" % o, 9)
g.st("p_tup", "(pub u8, #[nom(Parse = \"digit\")] pub u8, #[nom(Parse(u16::parse_le))] pub u16)", "@(r.g(e)?, o_digit(r)?, r.g(L)?)")
g.st("p_le", "pub n: u16, #[nom(Parse(u16::parse_be))] pub v: u16, #[nom(BigEndian, Parse = \"u16::parse_le\")] pub w: u16", "@ { n: r.g(L)?, v: r.g(B)?, w: r.g(L)? }", der="NomLE") if 0 else g.st("p_le", "pub n: u16, #[nom(Parse(u16::parse_be))] pub v: u16", "@ { n: r.g(L)?, v: r.g(B)? }", der="NomLE")
g.st("p_rest", "pub n: u8, #[nom(Parse = \"nom::combinator::rest\")] pub v: &'a [u8]", "let n = r.g(e)?; let v = r.rest(); r.pos = r.all.len(); @ { n, v }", 6)
# ---- Map
MA = [("u32", "dbl", "u16", "dbl({x})"), ("u16", "|x: u16| x.swap_bytes()", "u16", "{x}.swap_bytes()"), ("i32", "|x: i32| !x", "i32", "!{x}"), ("bool", "|x: u8| x == n", "u8", "{x} == n"), ("Wrap", "Wrap", "u32", "Wrap({x})"), ("Option<u8>", "|o: Option<u8>| o.map(|x| x ^ 1)", "Option<u8>", "{x}.map(|x| x ^ 1)"),
      ("usize", "|v: Vec<u8>| v.len()", "Vec<u8>", "{x}.len()"), ("In", "|q: In| In { a: q.a ^ n, ..q }", "In", "{{ let q = {x}; In {{ a: q.a ^ n, ..q }} }}"), ("u8", "|p: PU| p.0", "PU", "{x}.0"), ("u64", "u64::from", "u32", "{x} as u64"), ("[u16; 2]", "|[a, b]: [u16; 2]| [b, a]", "[u16; 2]", "{{ let [a, b] = {x}; [b, a] }}"), ("u32", "|x: u32| { let y = x >> 3; y ^ x }", "u32", "{{ let x = {x}; (x >> 3) ^ x }}"), ("Box<u16>", "Box::new", "u16", "Box::new({x})")]
for j, (t, m, s, o) in enumerate(MA):
    # the wrapped parser is that of the field type unless Parse is given
    P = "" if s == t else ", Parse = \"<%s>::parse_le\"" % s
    E = "e" if s == t else "L"
    g.st(("x_" if s == "Vec<u8>" else "") + "m%d" % j, "pub n: u8, #[nom(%s%s)] pub v: %s, pub z: u8" % (at(j, "Map", m), P, t), "let n: u8 = r.g(e)?; let v = %s; @ { n, v, z: r.g(e)? }" % o.format(x="r.g::<%s>(%s)?" % (s, E)), 9)
    if s not in ("Vec<u8>",):
        g.st("mc%d" % j, "pub n: u8, #[nom(%s, %s, Parse = \"<%s>::parse_be\")] pub v: Vec<%s>, pub z: u8" % (at(j, "Count", "n & 1"), at(j + 1, "Map", m), s, t), "let n: u8 = r.g(e)?; let v = r.count((n & 1) as usize, |r| Ok(%s))?; @ { n, v, z: r.g(e)? }" % o.format(x="r.g::<%s>(B)?" % s), 9)
g.st("m_fail", "pub n: u8, #[nom(Map = \"|x: u8| x + 1\", Parse(digit))] pub v: u8, #[nom(Map(|x: u8| x + 1), Parse = \"fatal\")] pub w: u8", "let n = r.g(e)?; let v = o_digit(r)? + 1; @ { n, v, w: o_fatal(r)? + 1 }")
g.st("m_mm", "pub n: u8, #[nom(Map = \"|x: u16| x ^ 0xff\", Map = \"|x: u16| x.rotate_left(4)\")] pub v: u16, #[nom(Map(dbl), Parse = \"u16::parse_be\", Complete)] pub w: u32", "let n = r.g(e)?; let v = r.g::<u16>(e)?.rotate_left(4) ^ 0xff; @ { n, v, w: dbl(r.g(B)?) }")
# ---- Into
IN = [("u32", "u16::parse_be", "r.g::<u16>(B)? as u32"), ("u64", "u8::parse", "r.g::<u8>(B)? as u64"), ("i64", "i32::parse_le", "r.g::<i32>(L)? as i64"), ("Wrap", "u16::parse_le", "Wrap::from(r.g::<u16>(L)?)"), ("Wrap", "In::parse_le", "Wrap::from(r.g::<In>(L)?)"), ("f64", "f32::parse_be", None), ("Vec<u8>", "nom::bytes::streaming::take(2usize)", "r.take(2)?.to_vec()"), ("u32", "digit", "o_digit(r)? as u32"), ("u16", "fatal", "o_fatal(r)? as u16"), ("Option<u8>", "digit", "Some(o_digit(r)?)"), ("bool", "nom::combinator::map(digit, |x| x > 4)", "o_digit(r)? > 4")]
for j, (t, p, o) in enumerate(IN):
    if o is None:
        continue
    g.st("i%d" % j, "pub n: u8, #[nom(Into, %s)] pub v: %s, pub z: u8" % (at(j, "Parse", p), t), "let n: u8 = r.g(e)?; let v = %s; @ { n, v, z: r.g(e)? }" % o)
g.st("i_same", "pub n: u8, #[nom(Into)] pub v: u32, #[nom(Into)] pub w: In", "@ { n: r.g(e)?, v: r.g(e)?, w: r.g(e)? }")
g.st("i_le", "#[nom(Into, LittleEndian)] pub v: u32, #[nom(BigEndian)] #[nom(Into)] pub w: u16", "@ { v: r.g(L)?, w: r.g(B)? }")
g.st("i_cond", "pub n: u8, #[nom(Cond(n > 3), Into, Parse(u16::parse_le))] pub v: Option<u32>, #[nom(Count(n & 1), Into, Parse(u16::parse_be))] pub w: Vec<Wrap>", "let n: u8 = r.g(e)?; let v = r.cond(n > 3, |r| Ok(r.g::<u16>(L)? as u32))?; let w = r.count((n & 1) as usize, |r| Ok(Wrap::from(r.g::<u16>(B)?)))?; @ { n, v, w }", 9)
# ---- Value
VA = [("u8", "n"), ("u16", "n as u16 + 1"), ("u32", "7"), ("Vec<u8>", "vec![n, 1]"), ("Option<u8>", "if n > 3 { Some(n) } else { None }"), ("In", "In { a: n, b: 3 }"), ("In", "In::default()"), ("PU", "(n, 9)"), ("usize", "i.len()"), ("usize", "orig_i.len() - i.len()"), ("u8", "i.first().copied().unwrap_or(n)"), ("bool", "n > 3 && n < 9"), ("[u8; 2]", "[n; 2]"), ("u32", "dbl(n as u16)"), ("u8", "{ let q = n >> 1; q ^ n }"), ("i8", "-3"), ("u8", "n & 1 | 6")]
for j, (t, x) in enumerate(VA):
    o = x.replace("orig_i.len()", "r.own()").replace("i.len()", "r.left()").replace("i.first()", "r.rest().first()")
    g.st("a%d" % j, "pub n: u8, #[nom(%s)] pub v: %s, pub z: u16" % (at(j, "Value", x), t), "let n: u8 = r.g(e)?; let v: %s = %s; @ { n, v, z: r.g(e)? }" % (t, o), 6)
g.st("a_only", "#[nom(Value(5))] pub v: u8, #[nom(Value(v + 1))] pub w: u8, #[nom(Ignore)] pub x: u64", "@ { v: 5, w: 6, x: 0 }", 3)
g.st("a_dir", "pub n: u8, #[nom(SkipBefore(1), Value(i.len()), SkipAfter(1))] pub v: usize, #[nom(AlignBefore(4), Ignore)] pub w: u32, pub z: u8", "let n = r.g(e)?; r.skip(1)?; let v = r.left(); r.skip(1)?; r.align(4)?; @ { n, v, w: 0, z: r.g(e)? }", 9)
g.st("a_cond", "pub n: u8, #[nom(Cond(n > 3), Value(n))] pub v: Option<u8>, #[nom(Cond(n > 5), Ignore)] pub w: Option<u32>, #[nom(Count(2), Value(n))] pub x: Vec<u8>, pub z: u8", "let n: u8 = r.g(e)?; let v = r.cond(n > 3, |_| Ok(n))?; let w = r.cond(n > 5, |_| Ok(0))?; @ { n, v, w, x: vec![n, n], z: r.g(e)? }", 4)
g.st("a_map", "pub n: u8, #[nom(Map = \"|x: u8| x ^ 1\", Value(n))] pub v: u8, pub z: u8", "let n: u8 = r.g(e)?; @ { n, v: n ^ 1, z: r.g(e)? }")
g.st("a_tup", "(pub u8, #[nom(Value(_0 ^ 1))] pub u8, #[nom(Ignore)] pub u16, pub u16)", "let n: u8 = r.g(e)?; @(n, n ^ 1, 0, r.g(e)?)")
g.st("a_en", '#[nom(Selector = "0")] A { #[nom(Value(selector))] a: u8, b: u16 }, #[nom(Selector = "1")] B(#[nom(Ignore)] u32, u8), #[nom(Selector = "2")] C(PhantomData<u8>, #[nom(Take(2))] &\'a [u8]), #[nom(Selector = "3", Parse = "digit")] U, #[nom(Selector = "4", Parse(u16::parse), SkipBefore(1), SkipAfter(1))] V, #[nom(Selector = "_")] D { #[nom(Map = "|x: u8| x ^ selector")] x: u8, #[nom(Into, Parse(u16::parse_le))] w: Wrap }',
     "match s { 0 => @::A { a: s, b: r.g(e)? }, 1 => @::B(0, r.g(e)?), 2 => @::C(PhantomData, r.take(2)?), 3 => { o_digit(r)?; @::U } 4 => { r.skip(1)?; r.g::<u16>(B)?; r.skip(1)?; @::V } s => { let x = r.g::<u8>(e)? ^ s; @::D { x, w: Wrap::from(r.g::<u16>(L)?) } } }",
     tl='#[nom(Selector = "u8")]', extra="s: u8 = a as u8", enum=True)
# ---- attributes of every kind combined at random, each definition with one of these
import genmix
genmix.mix(["Take", "Parse", "Map", "Into", "Value", "Ignore", "PreExec", "PostExec", "TL:PreExec", "TL:PostExec"], 60)
