from genlib import G
g = G()
C = "r.complete(|r| Ok(%s))?"
# (name, attributes, type, oracle of the unmarked field, maximum length)
KINDS = [(t, "", t, "r.g(e)?", None) for t in ("u8", "u16", "i32", "u64", "i128", "In", "Ic", "K", "PU", "Option<u32>", "Option<In>", "[u16; 3]", "[In; 2]", "PhantomData<u8>")]
KINDS += [("f32", "", "f32", "r.g(e)?", None), ("str", "", "String", "r.g(e)?", 7), ("vec", "", "Vec<u16>", "r.g(e)?", 8), ("veci", "", "Vec<In>", "r.g(e)?", 8),
  ("be", "BigEndian", "u32", "r.g(B)?", None), ("le", "LittleEndian", "In", "r.g(L)?", None),
  ("take", "Take = \"h\"", "&'a [u8]", "r.take(h as usize)?", None), ("tag", 'Tag(b"TAGS")', "&'a [u8]", 'r.tag(b"TAGS")?', None),
  ("count", "Count = \"h & 3\"", "Vec<u16>", "r.count((h & 3) as usize, |r| r.g(e))?", None), ("counti", "Count(2)", "Vec<In>", "r.count(2, |r| r.g(e))?", None), ("lc", 'LengthCount = "u8::parse"', "Vec<u16>", "{ let n = r.g::<u8>(B)?; r.count(n as usize, |r| r.g(e))? }", 9),
  ("cond", "Cond = \"h > 9\"", "Option<u32>", "r.cond(h > 9, |r| r.g(e))?", None), ("if", "If(h & 1 == 0)", "Option<In>", "r.cond(h & 1 == 0, |r| r.g(e))?", None), ("value", "Value = \"h + (h == 0) as u8\"", "u8", "h + (h == 0) as u8", None), ("valuei", "Value(i.len())", "usize", "r.left()", None),
  ("ignore", "Ignore", "u32", "0", None), ("default", "Default", "Option<u8>", "None", None), ("ignvec", "Ignore", "Vec<u8>", "vec![]", None), ("parse", "Parse = \"u16::parse_le\"", "u16", "r.g(L)?", None), ("parsec", "Parse = \"{ |i| u24_be(i) }\"", "u32", "{ let a = r.g::<u8>(B)? as u32; let b = r.g::<u8>(B)? as u32; a }", None) if 0 else ("digit", "Parse(digit)", "u8", "o_digit(r)?", None),
  ("fatal", "Parse(fatal)", "u8", "o_fatal(r)?", None), ("unk", "Parse = \"unknown\"", "u8", "o_unknown(r)?", None), ("copt", "Parse = \"nom::combinator::opt(u32::parse_be)\"", "Option<u32>", "{ Some(r.g(B)?) }", None), ("pcomp", "Parse = \"nom::combinator::complete(u32::parse_be)\"", "u32", "r.complete(|r| r.g(B))?", None),
  ("pmany", "Parse = \"nom::multi::many0(nom::combinator::complete(u16::parse_be))\"", "Vec<u16>", "r.many(|r| r.g(B))?", 8), ("pstr", "Parse = \"nom::bytes::streaming::take_while(|c| c == 1u8)\"", "&'a [u8]", "{ let s = r.pos; while r.left() > 0 && r.rest()[0] == 1 { r.pos += 1 } if r.left() == 0 { return Err(F::Inc(1)) } &r.all[s..r.pos] }", 6),
  ("map", "Map = \"|x: u32| x ^ 1\"", "u32", "r.g::<u32>(e)? ^ 1", None), ("into", "Into, Parse = \"u16::parse_be\"", "Wrap", "Wrap(r.g::<u16>(B)? as u32 + 1)", None), ("verify", "Verify(*v != 3)", "u32", "r.verify(|r| r.g(e), |v: &u32| *v != 3)?", None),
  ("vcount", "Verify(v.len() != 1), Count = \"h & 1\"", "Vec<u16>", None, None), ("mapcount", "Count = \"2\", Map = \"|x: u16| x ^ h as u16\", Parse = \"u16::parse_be\"", "Vec<u16>", "r.count(2, |r| Ok(r.g::<u16>(B)? ^ h as u16))?", None), ("cverify", "Cond = \"h > 3\", Verify(*v != 3)", "Option<u16>", "r.cond(h > 3, |r| r.verify(|r| r.g(e), |v: &u16| *v != 3))?", None),
  ("cpar", "Cond = \"h > 3\", Parse = \"fatal\"", "Option<u8>", "r.cond(h > 3, o_fatal)?", None)]
pe = lambda t: "" if t == "f32" else None
nz = ("tag", "pstr")
def fld(at, x):
    return "#[nom(%s)] " % at if at else ""
for j, (nm, at, t, o, n) in enumerate(KINDS):
    if o is None: continue
    nm = "".join(c if c.isalnum() else "_" for c in nm)
    bits = (["v"], ["h", "z"]) if t == "f32" else None
    j2 = lambda *l: ", ".join(x for x in l if x)
    N = lambda k: n + k if n else None
    # marked field
    end = at.split(" ")[0].split("(")[0] in ("Take", "Tag", "Parse", "Value", "Ignore", "Default") or "Parse" in at
    forms = [j2("Complete", at)] + ([] if end or not at else [j2(at, "Complete")] if at.split("(")[0] in ("BigEndian", "LittleEndian") else [])
    for k, f in enumerate(forms):
        g.st(("x_" if nm in ("vec", "pmany") else "") + "f%d_%s" % (k, nm), "pub h: u8, #[nom(%s)] pub v: %s, pub z: u16" % (f, t), "let h: u8 = r.g(e)?; let v = %s; @ { h, v, z: r.g(e)? }" % (C % o), N(3), bits=bits)
    if at: g.st("g_%s" % nm, "pub h: u8, #[nom(Complete)] #[nom(%s)] pub v: %s" % (at, t), "let h: u8 = r.g(e)?; let v = %s; @ { h, v }" % (C % o), N(1), bits=bits and (["v"], ["h"]))
    # marked type: alone, the other fields, tuple
    if nm != "valuei": g.st(("x_" if nm in ("vec", "pmany") else "") + "t_%s" % nm, "pub h: u8, %s pub v: %s, pub z: u16" % (fld(at, t), t), "let h: u8 = %s; let v = %s; @ { h, v, z: %s }" % (C % "r.g(e)?", C % o, C % "r.g(e)?"), N(3), tl="#[nom(Complete)]", bits=bits)
    if not bits and "Verify" not in at:
        a2 = at.replace("h ", "_0 ").replace('"h"', '"_0"').replace("(h", "(_0").replace("+ _0 ", "+ _0 ")
        g.st("u_%s" % nm, "(pub u8, %s pub %s)" % (fld(a2, t), t), "let h: u8 = %s; let v = %s; @(h, v)" % (C % "r.g(e)?", C % o), N(1), tl="#[nom(Complete)]")
    # directives around a marked field: they are not covered; around any field of a marked type: covered
    ds = [("SkipBefore", "h & 3", "r.skip((h & 3) as usize)?;", ""), ("SkipAfter", "h", "", "r.skip(h as usize)?;"), ("AlignBefore", "4", "r.align(4)?;", ""), ("AlignAfter", "8", "", "r.align(8)?;"), ("Move", "h as i8", "r.mv(h as i8 as isize)?;", ""), ("MoveAbs", "h", "r.mvabs(h as usize)?;", ""), ("ErrorIf", "h == 3", "r.error_if(h == 3)?;", "")]
    for k in range(3):
        d, x, b, a = ds[(j * 3 + k) % 7]
        mx = (n or 5) + 2 if b.startswith("r.mv") else N(5)
        nv = 'x_' if (nm in ('pmany',) or 'i128' in nm or nm == 'u64') else ''
        s = lambda q: q and C % ("{ %s }" % q) + ";"
        ff = ['%s = "%s"' % (d, x), "Complete"][:: 1 if k % 2 else -1]
        g.st(nv + "d%d_%s" % (k, nm), "pub h: u8, #[nom(%s)] pub v: %s, pub z: u8" % (", ".join(ff + ([at] if at else [])), t), "let h: u8 = r.g(e)?; %s let v = %s; %s @ { h, v, z: r.g(e)? }" % (b, C % o, a), mx, bits=bits)
        g.st(nv + "e%d_%s" % (k, nm), "pub h: u8, #[nom(%s = \"%s\"%s)] pub v: %s, pub z: u8" % (d, x, ", " + at if at else "", t), "let h: u8 = %s; %s let v = %s; %s @ { h, v, z: %s }" % (C % "r.g(e)?", s(b), C % o, s(a), C % "r.g(e)?"), mx, tl="#[nom(Complete)]", bits=bits)
    # in a variant
    if not bits:
        tag = "tag" in nm or "take" in nm
        g.st("v_%s" % nm, '#[nom(Selector = "0")] A { h: u8, #[nom(Complete%s)] v: %s, z: u8 }, #[nom(Selector = "1")] B(u8, u16), #[nom(Selector = "_")] C { x: u32, #[nom(Complete)] y: u32 }' % (", " + at if at else "", t),
             "match s { 0 => { let h: u8 = r.g(e)?; let v = %s; @::A { h, v, z: r.g(e)? } } 1 => @::B(r.g(e)?, r.g(e)?), _ => { let x = r.g(e)?; @::C { x, y: %s } } }" % (C % o, C % "r.g(e)?"), N(3), tl='#[nom(Selector = "u8")]', extra="s: u8 = a as u8", enum=True)
        g.st("w_%s" % nm, '#[nom(Selector = "0")] A { h: u8, %s v: %s, z: u8 }, #[nom(Selector = "1")] B(u8, u16), #[nom(Selector = "2", Parse = "u16::parse_le")] U, #[nom(Selector = "3", SkipBefore(3), AlignAfter(8))] V, #[nom(Selector = "4", Move(2), Parse = "digit", SkipAfter(1))] W' % (fld(at, t), t),
             "match s { 0 => { let h: u8 = %s; let v = %s; @::A { h, v, z: %s } } 1 => @::B(%s, %s), 2 => { r.complete(|r| r.g::<u16>(L))?; @::U } 3 => { r.complete(|r| r.skip(3))?; r.complete(|r| r.align(8))?; @::V } 4 => { r.complete(|r| r.mv(2))?; r.complete(o_digit)?; r.complete(|r| r.skip(1))?; @::W } _ => return r.err(ErrorKind::Switch).map(|_: ()| unreachable!()) }" % (C % "r.g(e)?", C % o, C % "r.g(e)?", C % "r.g(e)?", C % "r.g(e)?"), N(3), tl='#[nom(Selector = "u8", Complete)]', extra="s: u8 = a as u8", enum=True)
# ---- position of Complete in a chain decides where the error is located
CH = [("Complete, Count = \"2\"", "Vec<u16>", C % "r.count(2, |r| r.g(e))?"), ("Count = \"2\", Complete", "Vec<u16>", "r.count(2, |r| r.complete(|r| r.g(e)))?"), ("Count = \"h & 3\", Complete, Parse = \"In::parse_le\"", "Vec<In>", "r.count((h & 3) as usize, |r| r.complete(|r| r.g(L)))?"),
  ("Cond(h > 3), Complete", "Option<u32>", "r.cond(h > 3, |r| r.complete(|r| r.g(e)))?"), ("Complete, Cond(h > 3)", "Option<u32>", "r.complete(|r| r.cond(h > 3, |r| r.g(e)))?"), ("Verify(*v > 3), Complete", "u32", "r.verify(|r| r.complete(|r| r.g(e)), |v: &u32| *v > 3)?"), ("Complete, Verify(*v > 3)", "u32", "r.complete(|r| r.verify(|r| r.g(e), |v: &u32| *v > 3))?"),
  ("Map = \"|x: u16| x + (x < 9) as u16\", Complete", "u16", "{ let x: u16 = r.complete(|r| r.g(e))?; x + (x < 9) as u16 }"), ("Into, Complete, Parse = \"u16::parse_be\"", "Wrap", "Wrap(r.complete(|r| r.g::<u16>(B))? as u32 + 1)"), ("Complete, Complete", "u32", C % "r.g(e)?"), ("Complete, Cond(h > 1), Complete, Parse(digit)", "Option<u8>", "r.cond(h > 1, |r| r.complete(o_digit))?"),
  ("LengthCount = \"u16::parse_le\", Complete", "Vec<u16>", "{ let n = r.g::<u16>(L)?; r.count(n as usize, |r| r.complete(|r| r.g(e)))? }"), ("Complete, LengthCount = \"u16::parse_le\"", "Vec<u16>", "r.complete(|r| { let n = r.g::<u16>(L)?; r.count(n as usize, |r| r.g(e)) })?"), ("Count = \"2\", Complete, Verify(*v > 3)", "Vec<u16>", "r.count(2, |r| r.complete(|r| r.verify(|r| r.g(e), |v: &u16| *v > 3)))?"), ("Debug, Complete", "u32", C % "r.g(e)?") if 0 else ("BigEndian, Complete", "u32", C % "r.g(B)?")]
for j, (at, t, o) in enumerate(CH):
    n = 9 if "Length" in at else None
    g.st("ch%d" % j, "pub h: u8, #[nom(%s)] pub v: %s, pub z: u16" % (at, t), "let h: u8 = r.g(e)?; let v = %s; @ { h, v, z: r.g(e)? }" % o, n)
    g.st("cht%d" % j, "pub h: u8, #[nom(%s)] pub v: %s, pub z: u16" % (at, t), "let h: u8 = %s; let v = %s; @ { h, v, z: %s }" % (C % "r.g(e)?", C % o, C % "r.g(e)?"), n, tl="#[nom(Complete)]")
# ---- sequences of directives of a marked type: located at the directive that falls short
D = [("SkipBefore", "h", "r.skip(h as usize)"), ("AlignBefore", "4", "r.align(4)"), ("Move", "3", "r.mv(3)"), ("MoveAbs", "h", "r.mvabs(h as usize)")]
A = [("SkipAfter", "h >> 4", "r.skip((h >> 4) as usize)"), ("AlignAfter", "8", "r.align(8)")]
k = 0
for x in D:
    for y in D:
        for z in A[(k % 2):] + A[:(k % 2)]:
            if x is y: continue
            g.st("q%d" % k, "pub h: u8, #[nom(%s)] pub v: u16, pub z: u8" % ", ".join('%s = "%s"' % w[:2] for w in (x, y, z)), "let h: u8 = %s; %s let v = %s; %s @ { h, v, z: %s }" % (C % "r.g(e)?", " ".join("r.complete(|r| %s)?;" % w[2] for w in (x, y)), C % "r.g(e)?", "r.complete(|r| %s)?;" % z[2], C % "r.g(e)?"), 18, tl="#[nom(Complete)]")
            k += 1
# ---- other type-level attributes next to Complete
TL = ["Complete", "Complete, Exact", "Exact, Complete", "Complete, GenericErrors", "InputName(dat), Complete", 'Complete, PreExec = "let w = 3u8;"', "Complete, ExtraArgs(k: u8)"]
for j, tl in enumerate(TL):
    for der, E in (("Nom", "e"), ("NomBE", "B"), ("NomLE", "L")):
        g.st("tl%d_%s" % (j, der.lower()), "pub a: u32, #[nom(SkipBefore(1), AlignAfter(2))] pub b: u16, #[nom(LittleEndian)] pub c: Option<u16>", "let a = %s; %s; let b = %s; %s; let c = r.g(L)?; %s @ { a, b, c }" % (C % ("r.g(%s)?" % E), C % "r.skip(1)?", C % ("r.g(%s)?" % E), C % "r.align(2)?", "r.exact()?;" if "Exact" in tl else ""), tl="#[nom(%s)]" % tl, der=der, extra="k: u8 = a as u8" if "Extra" in tl else None)
# ---- marked enum: Exact, tuple and unit variants, nested
g.st("ee", '#[nom(Selector = "1")] A(u16, u32), #[nom(Selector = "2")] B { x: In, y: Ic, z: Option<u64> }, #[nom(Selector = "3")] U, #[nom(Selector = "4")] V(#[nom(Take(3))] &\'a [u8])' , 
     "let v = match s { 1 => @::A(%s, %s), 2 => @::B { x: %s, y: %s, z: %s }, 3 => @::U, 4 => @::V(%s), _ => return r.err(ErrorKind::Switch).map(|_: ()| unreachable!()) }; r.exact()?; v" % (C % "r.g(e)?", C % "r.g(e)?", C % "r.g(e)?", C % "r.g(e)?", C % "r.g(e)?", C % "r.take(3)?"), tl='#[nom(Selector = "u8", Complete, Exact)]', extra="s: u8 = a as u8", enum=True)
# ---- attributes of every kind combined at random, each definition with one of these
import genmix
genmix.mix(["Complete", "TL:Complete"], 50)
