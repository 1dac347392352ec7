from genlib import G
g = G()
def at(k, a, x):  # spelling k of an attribute
    return ('%s = "%s"' % (a, x.replace('\\', '\\\\').replace('"', '\\"'))) if k % 2 else "%s(%s)" % (a, x)
# ---- Verify: predicate text == oracle text (v: &T)
P = [("u8", p) for p in ("*v < 128", "1 < *v", "0x41 == *v", "b'a' <= *v && *v <= b'z'", "[1, 5, 9].contains(v)", "(3..7).contains(v)", "matches!(*v, 1..=5 | 200)", "!(*v == 3)", "*v != h",
      "h < *v", "*v == h || *v == 0", "h != 7", "true", "false", "1 == 1", "{ let q = *v >> 4; q == h & 15 }", "if h > 9 { *v > 9 } else { *v < 9 }", "v.count_ones() == 2", "is_set(*v, h as u32)", "*v > consts::LIM",
      "2 * (*v as u16) > h as u16", "0 != *v & h", "1u16 + (*v as u16) != 256", "*v as i8 > -3", "-3 < *v as i8", "*v ^ h > 7", "Some(*v) != h.checked_sub(1)")]
P += [("u16", p) for p in ("odd(v)", "300 > *v", "*v > h as u16", "v % 3 == 1", "v.swap_bytes() < *v", "(1..=h as u16).contains(v)")]
P += [("u32", p) for p in ("*v != 0", "1 << (h & 31) & *v != 0", "v.is_power_of_two()", "*v as u64 * 3 < 0x1_0000_0000")]
P += [("i16", p) for p in ("*v < 0", "-1 > *v", "v.abs_diff(0) > 9")] + [("u64", p) for p in ("*v >> 63 == 1", "7 <= *v")] + [("i128", "*v > 5"), ("f32", "v.to_bits() != 0"), ("f64", "1.5 < *v"), ("f32", "*v == *v")]
P += [("In", p) for p in ("v.a == 3", "v.b > v.a as u16", "3 != v.a", "v.b == h as u16")] + [("Option<u16>", p) for p in ("v.is_some()", "*v != Some(7)", "v.map_or(true, |x| x > h as u16)")]
P += [("[u8; 3]", p) for p in ("at(v, 0) == 1", "at(v, 2) > at(v, 1)", "!has(v, h)", "!has(v, 3)")] + [("PU", p) for p in ("v.0 == 1", "v.1 as u8 != v.0")] + [("[u16; 2]", "asc(v)")]
for j, (t, p) in enumerate(P):
    g.st(("x_" if p == "false" else "") + "v%d" % j, "pub h: u8, #[nom(%s)] pub v: %s, pub z: u8" % (at(j, "Verify", p), t),
         "let h: u8 = r.g(e)?; let v: %s = r.verify(|r| r.g(e), |v: &%s| %s)?; @ { h, v, z: r.g(e)? }" % (t, t, p), bits=("v", "hz") if t[0] == "f" else None)
    if j % 5 == 0:
        g.st("vs%d" % j, "pub h: u8, #[nom(%s)] pub v: %s, pub z: u8" % (at(j + 1, "Verify", p), t),
             "let h: u8 = r.g(e)?; let v: %s = r.verify(|r| r.g(e), |v: &%s| %s)?; @ { h, v, z: r.g(e)? }" % (t, t, p), bits=("v", "hz") if t[0] == "f" else None)
g.st("vvec", "pub h: u8, #[nom(Verify(Vec::len(v) > 1))] pub v: Vec<u8>", "let h: u8 = r.g(e)?; @ { h, v: r.verify(|r| r.g(e), |v: &Vec<u8>| v.len() > 1)? }", 6)
g.st("vvec2", "pub h: u8, #[nom(Verify = \"<[u16]>::iter(v).all(|x| *x > 3)\", Count = \"h & 3\")] pub v: Vec<u16>, pub z: u8", "let h: u8 = r.g(e)?; @ { h, v: r.verify(|r| r.count((h & 3) as usize, |r| r.g(e)), |v: &Vec<u16>| v.iter().all(|x| *x > 3))?, z: r.g(e)? }", 8)
g.st("vvec3", "pub h: u8, #[nom(Verify(3 >= Vec::len(v)), LengthCount = \"<u8>::parse\")] pub v: Vec<u8>, pub z: u8", "let h: u8 = r.g(e)?; @ { h, v: r.verify(|r| { let n = r.g::<u8>(B)?; r.count(n as usize, |r| r.g(e)) }, |v: &Vec<u8>| v.len() <= 3)?, z: r.g(e)? }", 8)
g.st("vstr", "pub h: u8, #[nom(Verify = \"String::len(v) != 2\")] pub v: String, pub z: u8", "let h: u8 = r.g(e)?; @ { h, v: r.verify(|r| r.g(e), |v: &String| v.len() != 2)?, z: r.g(e)? }", 9)
g.st("vtake", "pub h: u8, #[nom(Verify = \"<[u8]>::first(v) == Some(&h)\", Take = \"2\")] pub v: &'a [u8], pub z: u8", "let h: u8 = r.g(e)?; @ { h, v: r.verify(|r| r.take(2), |v: &&[u8]| v[0] == h)?, z: r.g(e)? }")
g.st("vtake2", "pub h: u8, #[nom(Verify(1 < <[u8]>::len(v)), Take = \"h & 3\")] pub v: &'a [u8], pub z: u8", "let h: u8 = r.g(e)?; @ { h, v: r.verify(|r| r.take((h & 3) as usize), |v: &&[u8]| v.len() > 1)?, z: r.g(e)? }")
g.st("vparse", "pub h: u8, #[nom(Verify(*v != 0x0102), Parse = \"u16::parse_le\")] pub v: u16, pub z: u8", "let h: u8 = r.g(e)?; @ { h, v: r.verify(|r| r.g(L), |v: &u16| *v != 0x0102)?, z: r.g(e)? }")
g.st("vmap", "pub h: u8, #[nom(Verify(*v != 0x0102), Map = \"|x: u16| x ^ 0x00ff\")] pub v: u16, pub z: u8", "let h: u8 = r.g(e)?; @ { h, v: r.verify(|r| r.g::<u16>(e).map(|x| x ^ 0x00ff), |v: &u16| *v != 0x0102)?, z: r.g(e)? }")
g.st("vmap2", "pub h: u8, #[nom(Map = \"|x: u16| x ^ 0x00ff\", Verify(*v != 0x0102))] pub v: u16, pub z: u8", "let h: u8 = r.g(e)?; @ { h, v: r.verify(|r| r.g(e), |v: &u16| *v != 0x0102)? ^ 0x00ff, z: r.g(e)? }")
g.st("vv", "pub h: u8, #[nom(Verify(*v > 3), Verify = \"*v < 200\")] pub v: u8, #[nom(Verify(*w > v))] #[nom(Verify(*w != 77))] pub w: u8", "let h: u8 = r.g(e)?; let v: u8 = r.verify(|r| r.verify(|r| r.g(e), |v: &u8| *v < 200), |v| *v > 3)?; let w: u8 = r.verify(|r| r.g(e), |w: &u8| *w > v && *w != 77)?; @ { h, v, w }")
g.st("vbe", "#[nom(BigEndian, Verify(*v > 0x0100))] pub v: u16, #[nom(Verify(*w > v), LittleEndian)] pub w: u16", "let v = r.verify(|r| r.g(B), |v: &u16| *v > 0x0100)?; @ { v, w: r.verify(|r| r.g(L), |w: &u16| *w > v)? }")
g.st("vco", "pub h: u8, #[nom(Complete, Verify(*v > 3))] pub v: u16, #[nom(Verify(*w != v), Complete)] pub w: u16", "let h = r.g(e)?; let v = r.complete(|r| r.verify(|r| r.g(e), |v: &u16| *v > 3))?; let w = r.verify(|r| r.complete(|r| r.g(e)), |w: &u16| *w != v)?; @ { h, v, w }")
print("#[derive(Nom, PartialEq)] pub struct Vo { #[nom(Verify(*a & 0x0101 == 1))] pub a: u16 }\nr!(Vo, |r, e| Vo { a: r.verify(|r| r.g(e), |a: &u16| *a & 0x0101 == 1)? });")
g.st("vopt", "pub h: u8, pub o: Option<Vo>, pub z: u8", "@ { h: r.g(e)?, o: r.g(e)?, z: r.g(e)? }")
g.st("vmany", "pub h: u8, pub o: Vec<Vo>, pub z: u8", "@ { h: r.g(e)?, o: r.g(e)?, z: r.g(e)? }", 8)
g.st("vpos", "pub h: u8, #[nom(SkipBefore(1), Verify(*v != 5), SkipAfter(1))] pub v: u8, #[nom(AlignBefore(4), Verify(*w != v))] pub w: u8", "let h = r.g(e)?; r.skip(1)?; let v = r.verify(|r| r.g(e), |v: &u8| *v != 5)?; r.skip(1)?; r.align(4)?; @ { h, v, w: r.verify(|r| r.g(e), |w: &u8| *w != v)? }")
# names of the checked field: the usual one, and names used by the machinery
for nm in ("x", "value", "inp", "verify", "cond", "count", "input", "rem", "r#type", "align", "skip", "offset", "pos", "o", "struct_def", "enum_def", "selector"):
    g.st("nm_" + nm.replace("r#", ""), "pub h: u16, #[nom(Verify(*%s > h), ErrorIf(h == 9))] pub %s: u16, #[nom(ErrorIf = \"%s == h + 1\")] pub t: u8" % (nm, nm, nm) if 0 else
         "pub h: u16, #[nom(ErrorIf(h == 9), Verify(*%s > h))] pub %s: u16, #[nom(ErrorIf = \"%s & 7 == h & 7\")] pub t: u8" % (nm, nm, nm),
         "let h: u16 = r.g(e)?; r.error_if(h == 9)?; let x: u16 = r.verify(|r| r.g(e), |x: &u16| *x > h)?; r.error_if(x & 7 == h & 7)?; @ { h, %s: x, t: r.g(e)? }" % nm)
# ---- ErrorIf
EI = ["n == 0", "1 < n", "n > m", "n > 3 && m < 10 || n == m", "true", "false", "!(n == 3)", "[1, 5, 9].contains(&n)", "i.len() < 3", "i.is_empty()", "matches!(n, 3..=7)", "{ let q = n ^ m; q == 1 }",
      "if n > 3 { m == 0 } else { m == 1 }", "n as i8 <= m as i8", "i.len() > n as usize", "n | m == 7", "i[..].len() == 2", "usize::from(n) + 1 > i.len()", "n - (n & 1) == m", "0 == n & m", "n.checked_add(m).is_none()"]
for j, x in enumerate(EI):
    o = x.replace("i.len()", "r.left()").replace("i.is_empty()", "(r.left() == 0)").replace("i[..].len()", "r.left()")
    g.st(("x_" if x == "true" else "") + "e%d" % j, "pub n: u8, pub m: u8, #[nom(%s)] pub v: u16, #[nom(%s)] pub w: u8" % (at(j, "ErrorIf", x), at(j + 1, "ErrorIf", x)),
         "let n: u8 = r.g(e)?; let m: u8 = r.g(e)?; r.error_if(%s)?; let v = r.g(e)?; r.error_if(%s)?; @ { n, m, v, w: r.g(e)? }" % (o, o))
g.st("e_first", "#[nom(ErrorIf(i.len() > 4))] pub v: u16, #[nom(ErrorIf = \"v == 0x0101\", ErrorIf(v == 0x0202))] #[nom(ErrorIf(i.is_empty()))] pub w: u8", "r.error_if(r.left() > 4)?; let v: u16 = r.g(e)?; r.error_if(v == 0x0101)?; r.error_if(v == 0x0202)?; r.error_if(r.left() == 0)?; @ { v, w: r.g(e)? }")
g.st("e_ord1", "pub n: u8, #[nom(SkipBefore = \"1\", ErrorIf = \"i.len() < 3\", AlignBefore(4), ErrorIf(i.len() > 6))] pub w: u16", "let n = r.g(e)?; r.skip(1)?; r.error_if(r.left() < 3)?; r.align(4)?; r.error_if(r.left() > 6)?; @ { n, w: r.g(e)? }", 14)
g.st("e_ord2", "pub n: u8, #[nom(ErrorIf = \"i.len() < 3\", SkipBefore = \"1\")] pub w: u16, #[nom(ErrorIf(n == 1), PreExec = \"let q = n ^ 2;\", ErrorIf(q == 7))] pub z: u8", "let n: u8 = r.g(e)?; r.error_if(r.left() < 3)?; r.skip(1)?; let w = r.g(e)?; r.error_if(n == 1)?; r.error_if(n ^ 2 == 7)?; @ { n, w, z: r.g(e)? }")
g.st("e_mv", "pub n: u8, #[nom(Move(1), ErrorIf(i.len() == 4), MoveAbs(0), ErrorIf(i.len() == 7))] pub w: u8", "let n = r.g(e)?; r.mv(1)?; r.error_if(r.left() == 4)?; r.mvabs(0)?; r.error_if(r.left() == 7)?; @ { n, w: r.g(e)? }", 10)
g.st("e_ign", "pub n: u8, #[nom(ErrorIf(n == 3), Ignore)] pub w: u32, #[nom(ErrorIf(n == 4), Value(n / 2))] pub v: u8, #[nom(ErrorIf(n == 5))] pub p: PhantomData<u16>, #[nom(ErrorIf(n == 6), Take(2))] pub t: &'a [u8], #[nom(ErrorIf(n > 250), Count(2))] pub c: Vec<u8>",
     "let n: u8 = r.g(e)?; r.error_if(n == 3)?; r.error_if(n == 4)?; r.error_if(n == 5)?; r.error_if(n == 6)?; let t = r.take(2)?; r.error_if(n > 250)?; let c = r.count(2, |r| r.g(e))?; @ { n, w: 0, v: n / 2, p: PhantomData, t, c }")
g.st("e_cond", "pub n: u8, #[nom(ErrorIf(n == 3), Cond(n > 9))] pub w: Option<u16>, #[nom(Cond(n > 99), ErrorIf = \"n == 7\")] pub v: Option<u16>, #[nom(ErrorIf(w == v))] pub u: u8",
     "let n: u8 = r.g(e)?; r.error_if(n == 3)?; let w = r.cond(n > 9, |r| r.g(e))?; r.error_if(n == 7)?; let v: Option<u16> = r.cond(n > 99, |r| r.g(e))?; r.error_if(w == v)?; @ { n, w, v, u: r.g(e)? }")
g.st("e_tup", "(pub u8, #[nom(ErrorIf(_0 == 3))] pub u16, #[nom(ErrorIf = \"_1 == 3 || _0 == 9\")] pub u8)", "let n: u8 = r.g(e)?; r.error_if(n == 3)?; let m: u16 = r.g(e)?; r.error_if(m == 3 || n == 9)?; @(n, m, r.g(e)?)")
g.st("e_x", "pub n: u8, #[nom(ErrorIf(n as u32 == c))] pub w: u16, #[nom(Verify(*v as u32 != c))] pub v: u16", "let n: u8 = r.g(e)?; r.error_if(n as u32 == c)?; let w = r.g(e)?; @ { n, w, v: r.verify(|r| r.g(e), |v: &u16| *v as u32 != c)? }", tl="#[nom(ExtraArgs(c: u32))]", extra="c: u32 = a as u32")
g.st("e_co", "pub n: u8, #[nom(ErrorIf(n == 1))] pub w: u16, #[nom(Verify(*v != 7))] pub v: u16", "let n: u8 = r.complete(|r| r.g(e))?; r.error_if(n == 1)?; let w = r.complete(|r| r.g(e))?; @ { n, w, v: r.complete(|r| r.verify(|r| r.g(e), |v: &u16| *v != 7))? }", tl="#[nom(Complete)]")
g.st("e_in", "pub n: u8, #[nom(ErrorIf(data.len() > 6))] pub w: u16, #[nom(ErrorIf(orig_data.len() == 5))] pub v: u8", "let n: u8 = r.g(e)?; r.error_if(r.left() > 6)?; let w = r.g(e)?; r.error_if(r.own() == 5)?; @ { n, w, v: r.g(e)? }", 12, tl="#[nom(InputName(data))]")
# ---- Tag
TG = [('b\\"AB\\"', 'b"AB"', 'b"AB"'), ("MAGIC", "MAGIC", "MAGIC"), ("ARR", "ARR", "&ARR"), ("STAT", "STAT", "STAT"), ("[1, 2, 3]", "[1, 2, 3]", "&[1, 2, 3]"), ('\\"xyz\\"', '"xyz"', 'b"xyz"'), ('b\\"\\"', 'b""', 'b""'),
      ('b\\"\\\\0\\\\xff\\\\x7f\\\\x80\\\\n\\"', 'b"\\0\\xff\\x7f\\x80\\n"', 'b"\\0\\xff\\x7f\\x80\\n"'), ("h.to_be_bytes()", "h.to_be_bytes()", "&h.to_be_bytes()"), ("[h as u8, 1]", "[h as u8, 1]", "&[h as u8, 1]"),
      ("if h > 9 { b\\\"A1\\\" } else { b\\\"B2\\\" }", "if h > 9 { b\"A1\" } else { b\"B2\" }", "if h > 9 { b\"A1\" } else { b\"B2\" }"), ("MAGIC[1..]", "MAGIC[1..]", "&MAGIC[1..]"), ('b\\"longer tag of 20 byt\\"', 'b"longer tag of 20 byt"', 'b"longer tag of 20 byt"')]
for j, (s, p, o) in enumerate(TG):
    for sp in (0, 1):
        if j == 11 and sp == 0 and 0:
            continue
        g.st("t%d_%d" % (j, sp), "pub h: u16, #[nom(%s)] pub m: &'a [u8], pub z: u16" % ('Tag = "%s"' % s if sp else "Tag(%s)" % p), "let h: u16 = r.g(e)?; let m = r.tag(%s)?; @ { h, m, z: r.g(e)? }" % o)
g.st("t_first", "#[nom(Tag(MAGIC))] pub m: &'a [u8], #[nom(Tag(b\"!\"))] pub n: &'a [u8], #[nom(Tag = \"ARR\")] pub o: &'a [u8]", "@ { m: r.tag(MAGIC)?, n: r.tag(b\"!\")?, o: r.tag(&ARR)? }")
g.st("t_cond", "pub h: u8, #[nom(Cond(h > 3), Tag(b\"AB\"))] pub m: Option<&'a [u8]>, pub z: u8", "let h: u8 = r.g(e)?; let m = r.cond(h > 3, |r| r.tag(b\"AB\"))?; @ { h, m, z: r.g(e)? }")
g.st("t_cnt", "pub h: u8, #[nom(Count(h & 3), Tag(b\"AB\"))] pub m: Vec<&'a [u8]>, pub z: u8", "let h: u8 = r.g(e)?; let m = r.count((h & 3) as usize, |r| r.tag(b\"AB\"))?; @ { h, m, z: r.g(e)? }", 9)
g.st("t_map", "pub h: u8, #[nom(Map = \"|t: &[u8]| t.len()\", Tag(b\"ABC\"))] pub m: usize, #[nom(Complete, Tag(b\"Z\"))] pub z: &'a [u8]", "let h: u8 = r.g(e)?; let m = r.tag(b\"ABC\").map(|t| t.len())?; @ { h, m, z: r.complete(|r| r.tag(b\"Z\"))? }")
g.st("t_pre", "pub h: u8, #[nom(SkipBefore(1), Tag(b\"AB\"), AlignAfter(4))] pub m: &'a [u8], pub z: u8", "let h: u8 = r.g(e)?; r.skip(1)?; let m = r.tag(b\"AB\")?; r.align(4)?; @ { h, m, z: r.g(e)? }")
g.st("t_tup", "(pub u8, #[nom(Tag(MAGIC))] pub &'a [u8], pub u16)", "@(r.g(e)?, r.tag(MAGIC)?, r.g(e)?)")
g.st("t_x", "pub h: u8, #[nom(Tag(t))] pub m: &'a [u8], pub z: u8", "@ { h: r.g(e)?, m: r.tag(&t)?, z: r.g(e)? }", tl="#[nom(ExtraArgs(t: [u8; 4]))]", extra="t: [u8; 4] = (a as u32).to_le_bytes()")
g.st("t_le", "pub h: u16, #[nom(Tag(b\"AB\"))] pub m: &'a [u8], pub z: u16", "@ { h: r.g(L)?, m: r.tag(b\"AB\")?, z: r.g(L)? }", der="NomLE")
g.st("t_co", "pub h: u16, #[nom(Tag(b\"AB\"))] pub m: &'a [u8], pub z: u16", "@ { h: r.complete(|r| r.g(e))?, m: r.complete(|r| r.tag(b\"AB\"))?, z: r.complete(|r| r.g(e))? }", tl="#[nom(Complete)]")
# ---- Exact
for j, (tl, xe) in enumerate((("#[nom(Exact)]", 0), ("#[nom(Exact, BigEndian)]", "B"), ("#[nom(Complete)] #[nom(Exact)]", "c"))):
    w = (lambda s: "r.complete(|r| %s)" % s) if xe == "c" else (lambda s: s)
    E = "B" if xe == "B" else "e"
    g.st("x%d_s" % j, "pub a: u16, pub b: u8", "let a = %s?; let b = %s?; r.exact()?; @ { a, b }" % (w("r.g(%s)" % E), w("r.g(%s)" % E)), 6, tl=tl)
    g.st("x%d_t" % j, "(pub u8, pub u32)", "let a = %s?; let b = %s?; r.exact()?; @(a, b)" % (w("r.g(%s)" % E), w("r.g(%s)" % E)), 8, tl=tl)
    g.st("x%d_o" % j, "pub a: u16, pub b: Option<u16>, #[nom(SkipAfter(1))] pub c: u8", "let a = %s?; let b = %s?; let c = %s?; %s?; r.exact()?; @ { a, b, c }" % (w("r.g(%s)" % E), w("r.g(%s)" % E), w("r.g(%s)" % E), w("r.skip(1)")), 9, tl=tl)
    g.st("x%d_v" % j, "pub a: u8, pub b: Vec<u16>", "let a = %s?; let b = %s?; r.exact()?; @ { a, b }" % (w("r.g(%s)" % E), w("r.g(%s)" % E)), 7, tl=tl)
g.st("x_unit", "", "r.exact()?; @", 3, tl="#[nom(Exact)]")
g.st("x_post", "pub a: u8", "let a: u8 = r.g(e)?; if a == 7 { r.pos = r.all.len(); } r.exact()?; @ { a }", 5, tl='#[nom(PostExec = "let i = if struct_def.a == 7 { &i[i.len()..] } else { i };", Exact)]')
g.st("x_post2", "pub a: u8", "let a: u8 = r.g(e)?; r.exact()?; @ { a }", 5, tl='#[nom(Exact, PostExec = "let i = if struct_def.a == 7 { &i[i.len()..] } else { i };")]')
g.st("x_mv", "pub a: u8, #[nom(MoveAbs(3))] pub b: u8", "let a = r.g(e)?; r.mvabs(3)?; let b = r.g(e)?; r.exact()?; @ { a, b }", 7, tl="#[nom(Exact)]")
g.st("x_err", "pub a: u8, #[nom(Verify(*b != a))] pub b: u8", "let a: u8 = r.g(e)?; let b: u8 = r.verify(|r| r.g(e), |b: &u8| *b != a)?; r.exact()?; @ { a, b }", 5, tl="#[nom(Exact)]")
g.st("x_in", "pub a: u8, pub b: u8", "let a: u8 = r.g(e)?; let b: u8 = r.g(e)?; r.exact()?; @ { a, b }", 5, tl="#[nom(Exact, InputName(data))]")
g.st("x_arg", "pub a: u8, #[nom(Count(k & 3))] pub b: Vec<u8>", "let a: u8 = r.g(e)?; let b = r.count((k & 3) as usize, |r| r.g(e))?; r.exact()?; @ { a, b }", 7, tl="#[nom(Exact, ExtraArgs(k: u8))]", extra="k: u8 = a as u8")
g.st("x_en", '#[nom(Selector = "0")] A { a: u16 }, #[nom(Selector = "1")] B(u8, Option<u16>), #[nom(Selector = "2")] U, #[nom(Selector = "_")] D(#[nom(Tag(b"Q"))] &\'a [u8])',
     "let v = match s { 0 => @::A { a: r.g(e)? }, 1 => @::B(r.g(e)?, r.g(e)?), 2 => @::U, _ => @::D(r.tag(b\"Q\")?) }; r.exact()?; v", 6, tl='#[nom(Selector = "u8", Exact)]', extra="s: u8 = a as u8", enum=True)
for rp, n in (("u8", 4), ("u16", 6), ("i32", 8)):
    g.st("x_fl_" + rp, "A = 1, B, C = 100", "let p = r.pos; let v = match r.g::<%s>(e)? { 1 => @::A, 2 => @::B, 100 => @::C, _ => return Err(F::Err(ErrorKind::Switch, p)) }; r.exact()?; v" % rp, n, tl="#[nom(Exact)] #[repr(%s)]" % rp, enum=True)
# nested: the inner element is Exact, so anything after it is refused there
print("#[derive(Nom, PartialEq, Clone, Copy, Default)] #[nom(Exact)] pub struct Ex { pub a: u16 }\nr!(Ex, |r, e| { let a = r.g(e)?; r.exact()?; Ex { a } });")
g.st("xn_last", "pub h: u8, pub x: Ex", "@ { h: r.g(e)?, x: r.g(e)? }", 6)
g.st("x_xn_first", "pub x: Ex, pub h: u8", "@ { x: r.g(e)?, h: r.g(e)? }", 6)
g.st("xn_opt", "pub h: u8, pub x: Option<Ex>, pub y: Option<u8>", "@ { h: r.g(e)?, x: r.g(e)?, y: r.g(e)? }", 6)
g.st("xn_both", "pub h: u8, pub x: Ex", "let h = r.g(e)?; let x = r.g(e)?; r.exact()?; @ { h, x }", 6, tl="#[nom(Exact)]")
g.st("xn_vec", "pub h: u8, pub v: Vec<Ex>, pub t: Vec<u8>", "@ { h: r.g(e)?, v: r.g(e)?, t: r.g(e)? }", 6)
# ---- the checks inside the variants of a selector enum
g.st("en", '#[nom(Selector = "0")] A { a: u16, #[nom(ErrorIf(a == 7), Verify(*b > a))] b: u16 }, #[nom(Selector = "1")] B(u8, #[nom(ErrorIf(_0 == 3))] u16), #[nom(Selector = "2")] C { #[nom(Tag(MAGIC))] t: &\'a [u8], #[nom(Verify = "1 != *v")] v: u8 }, #[nom(Selector = "3", ErrorIf(i.len() == 2))] U, #[nom(Selector = "_")] D { #[nom(ErrorIf(selector == 200), Verify(*d != selector))] d: u8 }',
     "match s { 0 => { let a: u16 = r.g(e)?; r.error_if(a == 7)?; let b: u16 = r.verify(|r| r.g(e), |b: &u16| *b > a)?; @::A { a, b } } 1 => { let a: u8 = r.g(e)?; r.error_if(a == 3)?; @::B(a, r.g(e)?) } 2 => { let t = r.tag(MAGIC)?; @::C { t, v: r.verify(|r| r.g(e), |v: &u8| *v != 1)? } } 3 => { r.error_if(r.left() == 2)?; @::U } s => { r.error_if(s == 200)?; @::D { d: r.verify(|r| r.g(e), |d: &u8| *d != s)? } } }",
     tl='#[nom(Selector = "u8")]', extra="s: u8 = a as u8", enum=True)
# ---- attributes of every kind combined at random, each definition with one of these
import genmix
genmix.mix(["Verify", "ErrorIf", "Tag", "TL:Exact"], 60)
