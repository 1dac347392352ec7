import os
from genlib import G
DEEP = os.environ.get("VERIF_TIER") == "thorough"
g = G()
def at(k, a, x):
    return ('%s = "%s"' % (a, x.replace('\\', '\\\\').replace('"', '\\"'))) if k % 2 else "%s(%s)" % (a, x)
D = ["AlignBefore", "AlignAfter", "SkipBefore", "SkipAfter"]
def op(d, o):
    return "r.%s(%s)?;" % ("align" if d.startswith("Al") else "skip", o)
def field(ds, read):
    """oracle of a field with directives [(directive, oracle value)] around the statement `read`"""
    return " ".join(op(d, o) for d, o in ds if d.endswith("Before")) + " " + read + " " + " ".join(op(d, o) for d, o in ds if d.endswith("After"))
# ---- every directive with every kind of expression
EX = [("u8", "1"), ("u8", "2"), ("u8", "4"), ("u8", "3"), ("u8", "8"), ("u8", "7u64"), ("u8", "h"), ("u8", "h & 3"), ("u8", "h & 7"), ("u16", "h"), ("u32", "h"), ("u64", "h"), ("i8", "h"), ("i32", "h"), ("i64", "h"), ("u128", "h"),
      ("u8", "h as usize + 1"), ("u8", "1 << (h & 3)"), ("u8", "if h > 9 { 2 } else { 4u16 }"), ("u8", "K + 1"), ("u8", "2 * K - 1"), ("u8", "{ let q = h & 1; q + 2 }"), ("u8", "usize::from(h) % 5"), ("u8", "h % 4 + 1"), ("u8", "i.len() / 2"), ("u8", "h as u16 * 256 | 2"), ("u8", "usize::MAX"), ("u8", "isize::MAX as usize"), ("u8", "!0u64 >> 1"),
      ("u8", "0"), ("u8", "core::mem::size_of::<u32>()"), ("u8", "4 - (h & 3)"), ("u8", "h ^ 2"), ("u8", "-1i8")]
for j, (t, x) in enumerate(EX):
    big = x in ("usize::MAX", "isize::MAX as usize", "!0u64 >> 1", "-1i8")
    for k, d in enumerate(D):
        o = "(%s) as usize" % x.replace("i.len()", "r.left()")
        ft = ["u8", "u16", "In", "u8"][(j + k) % 4]
        g.st(("x_" if big else "") + "e%d_%d" % (j, k), "pub h: %s, pub m: u8, #[nom(%s)] pub v: %s, pub z: u8" % (t, at(j + k, d, x), ft),
             "let h: %s = r.g(e)?; let m: u8 = r.g(e)?; %s @ { h, m, v, z: r.g(e)? }" % (t, field([(d, o)], "let v = r.g(e)?;")), (16 + 2 if t == "u128" else 22 if x == "h" else 14) if x != "h" or t != "u128" else 26)
# ---- every ordered pair, and some longer sequences, in one or several lists
V = [("h & 3", "(h & 3) as usize"), ("4", "4"), ("2", "2"), ("1", "1"), ("3", "3"), ("h >> 6", "(h >> 6) as usize")]
n = 0
for j, d1 in enumerate(D):
    for k, d2 in enumerate(D):
        for w in range(2):
            (x, o), (y, p) = V[(n + w) % 6], V[(n * 5 + 1 + j + w * 2) % 6]
            sep = ")] #[nom(" if n % 3 == 1 else ", "
            ft = ["u8", "u16", "Option<u16>", "[u8; 3]"][n % 4]
            g.st("p%d" % n, "pub h: u8, #[nom(%s%s%s)] pub v: %s, pub z: u8" % (at(n, d1, x), sep, at(n // 2, d2, y), ft),
                 "let h: u8 = r.g(e)?; %s @ { h, v, z: r.g(e)? }" % field([(d1, o), (d2, p)], "let v = r.g(e)?;"), 16)
            n += 1
import itertools
for n, c in enumerate(itertools.product(range(4), repeat=3)):
    if n % 3:
        continue
    ds = [(D[c[0]], *V[n % 6]), (D[c[1]], *V[(n + 2) % 6]), (D[c[2]], *V[(n + 3) % 6])]
    g.st("q%d" % n, "pub h: u8, #[nom(%s)] pub v: u8, #[nom(%s)] pub w: u16, pub z: u8" % (", ".join(at(n + i, d, x) for i, (d, x, o) in enumerate(ds)), at(n, D[n % 4], "h & 1")),
         "let h: u8 = r.g(e)?; %s %s @ { h, v, w, z: r.g(e)? }" % (field([(d, o) for d, x, o in ds], "let v = r.g(e)?;"), field([(D[n % 4], "(h & 1) as usize")], "let w = r.g(e)?;")), 18)
# ---- around every kind of field
FT = [("u32", "", "r.g(e)?"), ("Option<u16>", "", "r.g(e)?"), ("Al", "", "r.g(e)?"), ("Sk", "", "r.g(e)?"), ("[Af; 2]", "", "r.g(e)?"), ("Option<Al>", "", "r.g(e)?"), ("PhantomData<u32>", "", "PhantomData"), ("u32", "Ignore", "0"), ("u8", "Value(h / 2)", "h / 2"), ("usize", "Value(i.len())", "r.left()"),
      ("&'a [u8]", "Take(h & 1)", "r.take((h & 1) as usize)?"), ("&'a [u8]", 'Tag(b"AB")', 'r.tag(b"AB")?'), ("Vec<u16>", "Count(h & 1)", "r.count((h & 1) as usize, |r| r.g(e))?"), ("Option<Al>", "Cond(h > 9)", "r.cond(h > 9, |r| r.g(e))?"), ("u16", 'Parse = "u16::parse_le"', "r.g(L)?"), ("u16", "Map = \"|x: u16| x ^ 1\"", "r.g::<u16>(e)? ^ 1"),
      ("u16", "Verify(*v != 3)", "r.verify(|r| r.g(e), |v: &u16| *v != 3)?"), ("u16", "BigEndian", "r.g(B)?"), ("u16", "Complete", "r.complete(|r| r.g(e))?"), ("Vec<Af>", "Count(h & 1)", "r.count((h & 1) as usize, |r| r.g(e))?"), ("Vec<Al>", 'LengthCount = "u8::parse"', "{ let n = r.g::<u8>(B)?; r.count(n as usize, |r| r.g(e))? }")]
for j, (t, a, o) in enumerate(FT):
    d1, d2 = D[j % 4], D[(j * 3 + 1) % 4]
    if a == "Complete":
        d1, d2 = "SkipAfter", "AlignAfter"
    l = [x for x in (at(j, d1, "2"), a, at(j // 2, d2, "(h & 1) * 2 + 1")) if x]
    if j % 2 and a not in ("Complete",):
        l = l[1:] + l[:1]
    g.st("f%d" % j, "pub h: u8, #[nom(%s)] pub v: %s, pub z: u8" % (", ".join(l), t), "let h: u8 = r.g(e)?; %s @ { h, v, z: r.g(e)? }" % field([(d1, "2"), (d2, "((h & 1) * 2 + 1) as usize")] if not (j % 2 and a not in ("Complete",)) else [(d2, "((h & 1) * 2 + 1) as usize"), (d1, "2")] , "let v = %s;" % o), 14)
    g.st("g%d" % j, "pub h: u8, #[nom(%s)] pub v: %s, #[nom(%s)] pub w: u8, pub z: u8" % (", ".join(x for x in (a, at(j, "AlignAfter", "4")) if x), t, at(j, "AlignBefore", "8")), "let h: u8 = r.g(e)?; let v = %s; r.align(4)?; r.align(8)?; @ { h, v, w: r.g(e)?, z: r.g(e)? }" % o, 19)
# a greedy vector followed by directives
for k, d in enumerate(D):
    g.st("gv%d" % k, "pub h: u8, #[nom(%s)] pub v: Vec<u16>" % at(k, d, "h & 1"), "let h: u8 = r.g(e)?; %s @ { h, v }" % field([(d, "(h & 1) as usize")], "let v = r.g(e)?;"), 8)
    g.st("only%d" % k, "#[nom(%s)] pub v: u16" % at(k, d, "4"), "%s @ { v }" % field([(d, "4")], "let v = r.g(e)?;"), 9)
    g.st("last%d" % k, "pub a: u8, #[nom(%s)] pub v: u16" % at(k, d, "5"), "let a = r.g(e)?; %s @ { a, v }" % field([(d, "5")], "let v = r.g(e)?;"), 14)
    g.st("tup%d" % k, "(pub u8, #[nom(%s)] pub u16, #[nom(%s)] pub u8)" % (at(k, d, "_0 & 3"), at(k, D[3 - k], "2")), "let h: u8 = r.g(e)?; %s %s @(h, v, w)" % (field([(d, "(h & 3) as usize")], "let v = r.g(e)?;"), field([(D[3 - k], "2")], "let w = r.g(e)?;")), 14)
    g.st("xa%d" % k, "pub h: u8, #[nom(%s)] pub v: u16, pub z: u8" % at(k, d, "k"), "let h: u8 = r.g(e)?; %s @ { h, v, z: r.g(e)? }" % field([(d, "k")], "let v = r.g(e)?;"), 16, tl="#[nom(ExtraArgs(k: usize))]", extra="k: usize = a as usize")
    g.st("in%d" % k, "pub h: u8, #[nom(%s)] pub v: u16, #[nom(%s)] pub z: u8" % (at(k, d, "4"), at(k + 1, d, "dat.len() & 1 | 2")), "let h: u8 = r.g(e)?; %s %s @ { h, v, z }" % (field([(d, "4")], "let v = r.g(e)?;"), field([(d, "r.left() & 1 | 2")], "let z = r.g(e)?;")), 16, tl="#[nom(InputName(dat))]")
    g.st("be%d" % k, "pub h: u16, #[nom(%s)] pub v: u16, pub z: u16" % at(k, d, "3"), "let h: u16 = r.g(L)?; %s @ { h, v, z: r.g(L)? }" % field([(d, "3")], "let v = r.g(L)?;"), 14, der="NomLE")
    # fields with the names used inside the generated code
    for nm in ("align", "skip", "offset", "pos", "start", "take", "count", "new_offset", "o"):
        g.st("nm%d_%s" % (k, nm), "pub %s: u8, #[nom(%s)] pub v: u8, #[nom(%s)] pub z: u8" % (nm, at(k, d, nm + " & 7"), at(k + 1, D[(k + 1) % 4], "(%s & 1) + 2" % nm)),
             "let q: u8 = r.g(e)?; %s %s @ { %s: q, v, z }" % (field([(d, "(q & 7) as usize")], "let v = r.g(e)?;"), field([(D[(k + 1) % 4], "((q & 1) + 2) as usize")], "let z = r.g(e)?;"), nm), 18)
# ---- far from the start of the input: no bound on the length
def far(nm, fields, body, **k):
    g.st("far_" + nm, fields, body, **k)
FAR = [255, 256, 257, 300, 65535, 65536, 70001, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 3]
ALN = [2, 3, 4, 7, 8, 10, 16, 100, 256, 257, 1000, 4096, 65537, 2 ** 32 + 2]
for j, f in enumerate(FAR):
    for k in range(4):
        a = ALN[(j * 4 + k * 3) % len(ALN)]
        d = D[(j + k) % 2]
        far("c%d_%d" % (j, k), "#[nom(SkipBefore(%d_u64))] pub h: u8, #[nom(%s)] pub v: u8, pub z: u8" % (f, at(j + k, d, "%d_u64" % a)),
            "r.skip(%d)?; let h: u8 = r.g(e)?; %s @ { h, v, z: r.g(e)? }" % (f, field([(d, str(a))], "let v = r.g(e)?;")))
    if not DEEP and j not in (0, 3, 6):
        continue
    far("s%d" % j, "pub h: u8, #[nom(SkipBefore(%d_u64), %s)] pub v: u8, pub z: u8" % (f, at(j, D[j % 2], "h")),
        "let h: u8 = r.g(e)?; r.skip(%d)?; %s @ { h, v, z: r.g(e)? }" % (f, field([(D[j % 2], "h as usize")], "let v = r.g(e)?;")))
for t in ("u8", "u16", "u32"):
    for j, a in enumerate((2, 4, 8, 256, 4096, 65536) if t != "u8" else (2, 3, 4, 7, 8, 16, 32, 100, 255)):
        d = D[j % 2]
        far("v%s_%d" % (t, a), "pub h: %s, #[nom(SkipBefore(h))] pub a: u8, #[nom(%s)] pub v: u8, pub z: u8" % (t, at(j, d, str(a) + "_u32")),
            "let h: %s = r.g(e)?; r.skip(h as usize)?; let a = r.g(e)?; %s @ { h, a, v, z: r.g(e)? }" % (t, field([(d, str(a))], "let v = r.g(e)?;")))
for t in ("u16", "u32", "u64", "usize::MAX", "i32"):
    for k in (2, 3):
        if t[0] in "ui" and "::" not in t:
            far("k%s%d" % (t, k), "pub h: %s, #[nom(%s)] pub v: u8, pub z: u8" % (t, at(k, D[k], "h")), "let h: %s = r.g(e)?; %s @ { h, v, z: r.g(e)? }" % (t, field([(D[k], "h as usize")], "let v = r.g(e)?;")))
# nested at any offset
for j, t in enumerate(("Al", "Af", "Sk", "Option<Al>", "[Al; 2]", "Vec<Af>", "Vec<Al>")):
    z = "" if t.startswith("Vec") else ", #[nom(AlignBefore(4))] pub y: Al, pub z: u8"
    zo = "" if t.startswith("Vec") else ", y: { r.align(4)?; r.g(e)? }, z: r.g(e)?"
    g.st("n%d" % j, "pub h: u8, #[nom(SkipBefore = \"h & 3\")] pub v: %s%s" % (t, z), "let h: u8 = r.g(e)?; r.skip((h & 3) as usize)?; @ { h, v: r.g(e)?%s }" % zo, 12 if z == "" else 26)
    g.st("nn%d" % j, "pub h: u16, pub k: Nn, pub v: %s" % t if 0 else "pub h: u16, pub k: Al, pub v: %s" % t, "@ { h: r.g(e)?, k: r.g(e)?, v: r.g(e)? }", 20)
print("#[derive(Nom, PartialEq)] pub struct Deep { pub a: u8, pub b: Mid, #[nom(AlignBefore(4))] pub c: u8 }\n#[derive(Nom, PartialEq)] pub struct Mid { pub a: u8, #[nom(AlignAfter(4))] pub b: Al, #[nom(SkipBefore(1), AlignAfter(3))] pub c: u8 }\nr!(Mid, |r, e| { let a = r.g(e)?; let b = r.g(e)?; r.align(4)?; r.skip(1)?; let c = r.g(e)?; r.align(3)?; Mid { a, b, c } });\nt!(deep_n24, Deep, |r, e| { let a = r.g(e)?; let b = r.g(e)?; r.align(4)?; Deep { a, b, c: r.g(e)? } });")
# enums: inside variants, on unit variants, own start = start of the enum
g.st("en", '#[nom(Selector = "0")] A { a: u8, #[nom(AlignBefore(4))] b: u16 }, #[nom(Selector = "1")] B(#[nom(SkipAfter(2))] u8, #[nom(AlignAfter(8))] u16), #[nom(Selector = "2", SkipBefore(3))] U, #[nom(Selector = "3", SkipAfter = "1", AlignAfter(4))] V, #[nom(Selector = "4", SkipBefore(1), AlignAfter(4), Parse = "u16::parse_le")] W, #[nom(Selector = "_")] D { #[nom(SkipBefore = "selector & 3")] x: u8, #[nom(AlignBefore = "selector >> 4")] y: u8 }',
     "match s { 0 => { let a = r.g(e)?; r.align(4)?; @::A { a, b: r.g(e)? } } 1 => { let a = r.g(e)?; r.skip(2)?; let b = r.g(e)?; r.align(8)?; @::B(a, b) } 2 => { r.skip(3)?; @::U } 3 => { r.skip(1)?; r.align(4)?; @::V } 4 => { r.skip(1)?; r.g::<u16>(L)?; r.align(4)?; @::W } s => { r.skip((s & 3) as usize)?; let x = r.g(e)?; r.align((s >> 4) as usize)?; @::D { x, y: r.g(e)? } } }", 22,
     tl='#[nom(Selector = "u8")]', extra="s: u8 = a as u8", enum=True)
g.st("enp", "pub h: u8, #[nom(Parse = \"{ |i| Ea::parse_be(i, h & 3) }\")] pub v: Ea, #[nom(AlignBefore(4))] pub z: u8", "let h: u8 = r.g(e)?; let v = r.nest(|r| Ok(match h & 3 { 0 => { let a: u8 = r.g(B)?; r.align(4)?; Ea::A(a, r.g(B)?) } 1 => { r.align(2)?; r.skip(2)?; Ea::U } _ => return Err(F::Err(ErrorKind::Switch, r.pos)) }))?; r.align(4)?; @ { h, v, z: r.g(e)? }", 14)
print('#[derive(Nom, PartialEq)] #[nom(Selector = "u8")] pub enum Ea { #[nom(Selector = "0")] A(u8, #[nom(AlignBefore(4))] u8), #[nom(Selector = "1", AlignBefore(2), SkipBefore(2))] U }')
# Complete types: truncated directives are errors (see also C14)
for k, d in enumerate(D):
    g.st("co%d" % k, "pub h: u8, #[nom(%s)] pub v: u16, pub z: u8" % at(k, d, "h & 3"), "let h: u8 = r.complete(|r| r.g(e))?; %s @ { h, v, z: r.complete(|r| r.g(e))? }" % field([(d, "(h & 3) as usize")], "let v = r.complete(|r| r.g(e))?;").replace("r.align((h & 3) as usize)?", "r.complete(|r| r.align((h & 3) as usize))?").replace("r.skip((h & 3) as usize)?", "r.complete(|r| r.skip((h & 3) as usize))?"), 9, tl="#[nom(Complete)]")
# top-level statements that move the input: offsets still count from the start of the element's own input
for k, (inp, pre, rpre) in enumerate((("i", "let (i, p) = u8::parse(i)?;", "let p: u8 = r.g(B)?;"), ("i", "let i = if i.len() > 2 { &i[2..] } else { i }; let p = 0u8;", "if r.left() > 2 { r.skip(2)?; } let p = 0u8;"),
                                      ("data", "let (data, p) = u8::parse(data)?;", "let p: u8 = r.g(B)?;"))):
    tl = "#[nom(PreExec(%s), PostExec(let (%s, _) = u8::parse(%s)?;)%s)]" % (pre, inp, inp, "" if inp == "i" else ", InputName(%s)" % inp)
    for j, (d, x) in enumerate((("AlignBefore", "4"), ("AlignAfter", "4"), ("SkipBefore", "2"), ("SkipAfter", "p & 3"), ("AlignBefore", "p & 7"), ("AlignAfter", "3"))):
        g.st("tp%d_%d" % (k, j), "pub h: u8, #[nom(%s)] pub v: u16, #[nom(AlignBefore(2))] pub z: u8" % at(j + k, d, x),
             "%s let h = r.g(e)?; %s r.align(2)?; let z = r.g(e)?; r.skip(1)?; @ { h, v, z }" % (rpre, field([(d, "(%s) as usize" % x)], "let v = r.g(e)?;")), tl=tl)
    tl = tl.replace("#[nom(", '#[nom(Selector = "u8", ')
    g.st("te%d" % k, '#[nom(Selector = "0")] A { a: u8, #[nom(AlignBefore(4))] b: u16 }, #[nom(Selector = "1")] B(#[nom(AlignAfter(4))] u8, #[nom(SkipBefore(1), AlignBefore(8))] u8), #[nom(Selector = "2", AlignBefore(4))] U, #[nom(Selector = "3", SkipAfter(1), AlignAfter(8))] V, #[nom(Selector = "_")] W { #[nom(Value(p))] q: u8, #[nom(AlignBefore(p & 7))] b: u8 }',
         rpre + " let v = match s { 0 => { let a = r.g(e)?; r.align(4)?; @::A { a, b: r.g(e)? } } 1 => { let a = r.g(e)?; r.align(4)?; r.skip(1)?; r.align(8)?; @::B(a, r.g(e)?) } 2 => { r.align(4)?; @::U } 3 => { r.skip(1)?; r.align(8)?; @::V } _ => { r.align((p & 7) as usize)?; @::W { q: p, b: r.g(e)? } } }; r.skip(1)?; v",
         tl=tl, extra="s: u8 = a as u8", enum=True)
# ---- attributes of every kind combined at random, each definition with one of these
import genmix
genmix.mix(["AlignBefore", "AlignAfter", "SkipBefore", "SkipAfter"], 60)
