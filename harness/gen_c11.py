from genlib import G
g = G()
def at(k, a, x):
    return ('%s = "%s"' % (a, x.replace('\\', '\\\\').replace('"', '\\"'))) if k % 2 else "%s(%s)" % (a, x)
D = ["Move", "MoveAbs"]
def op(d, x, sub=lambda s: s):
    x = sub(x)
    return {"Move": "r.mv((%s) as isize)?;", "MoveAbs": "r.mvabs((%s) as usize)?;", "SkipBefore": "r.skip((%s) as usize)?;", "AlignBefore": "r.align((%s) as usize)?;", "ErrorIf": "r.error_if(%s)?;", "PreExec": "%s"}[d] % x
inp = lambda s: s.replace("orig_i.len()", "r.own()").replace("i.len()", "r.left()")
# ---- every width of value, constants and extremes
EX = [(t, "h") for t in ("u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128")]
EX += [("u8", x) for x in ("0", "1", "2", "5", "-1", "-2", "-3", "-4", "isize::MAX", "isize::MIN", "isize::MIN + 1", "isize::MAX - 1", "usize::MAX", "i64::MIN as i128", "u64::MAX - h as u64", "h as isize - 2", "2 - h as isize", "-(h as isize)", "(h & 7) as i8 - 4", "if h > 9 { 1 } else { -1 }", "{ let q = h & 3; q + 1 }", "K - 1", "K * 2",
       "-K", "h as i8", "h >> 5", "1 << (h & 3)", "i.len() / 2", "orig_i.len()", "i.len()", "-(i.len() as isize)", "orig_i.len() - 1", "h as u16 * 2", "h ^ 1", "!h", "!0i8", "i64::MAX - h as i64", "i64::MIN + h as i64", "(h as i64) << 56", "(h as u64) << 57")]
for j, (t, x) in enumerate(EX):
    for k, d in enumerate(D):
        if k and x[0] == "-" and x[1:].isdigit():
            continue
        z = x in ("-3", "-4", "isize::MAX", "isize::MIN", "isize::MIN + 1", "isize::MAX - 1", "usize::MAX", "i64::MIN as i128", "u64::MAX - h as u64", "i64::MAX - h as i64", "i64::MIN + h as i64") or x in ("i.len()", "orig_i.len()", "-(i.len() as isize)", "orig_i.len() - 1", "-K") or d == "MoveAbs" and x[0] == "-" or "!0i8" == x and k
        ft = ["u8", "u16", "In"][(j + k) % 3]
        w = int(t[1:]) // 8
        g.st(("x_" if z else "") + "e%d_%d" % (j, k), "pub h: %s, pub m: u8, #[nom(%s)] pub v: %s" % (t, at(j + k, d, x), ft), "let h: %s = r.g(e)?; let m: u8 = r.g(e)?; %s @ { h, m, v: r.g(e)? }" % (t, op(d, x, inp)), w + (11 if x in ("5", "K * 2") else 7))
# ---- to the very end, before the start
for k, d in enumerate(D):
    g.st("end%d" % k, "pub h: i8, #[nom(%s)] pub p: PhantomData<u8>, pub q: Option<u8>" % at(k, d, "h"), "let h: i8 = r.g(e)?; %s @ { h, p: PhantomData, q: r.g(e)? }" % op(d, "h"), 6)
    g.st("vec%d" % k, "pub h: i8, #[nom(%s)] pub v: Vec<u16>" % at(k, d, "h"), "let h: i8 = r.g(e)?; %s @ { h, v: r.g(e)? }" % op(d, "h"), 6)
    g.st("first%d" % k, "#[nom(%s)] pub v: u16, #[nom(%s)] pub w: u16" % (at(k, d, "2"), at(k + 1, d, "1")), "%s let v = r.g(e)?; %s @ { v, w: r.g(e)? }" % (op(d, "2"), op(d, "1")), 9)
    g.st("only%d" % k, "#[nom(%s)] pub v: PhantomData<u16>" % at(k, d, "3"), "%s @ { v: PhantomData }" % op(d, "3"), 6)
    g.st("ign%d" % k, "pub h: i8, #[nom(%s, Ignore)] pub v: u32, #[nom(%s, Value(i.len()))] pub w: usize, #[nom(Take(1), %s)] pub t: &'a [u8]" % (at(k, d, "h"), at(k + 1, d, "1"), at(k, d, "2")), "let h: i8 = r.g(e)?; %s %s let w = r.left(); %s @ { h, v: 0, w, t: r.take(1)? }" % (op(d, "h"), op(d, "1"), op(d, "2")), 9)
    g.st("tup%d" % k, "(pub i8, #[nom(%s)] pub u8, #[nom(%s)] pub u8)" % (at(k, d, "_0"), at(k, d, "_1 & 3")), "let h: i8 = r.g(e)?; %s let v: u8 = r.g(e)?; %s @(h, v, r.g(e)?)" % (op(d, "h"), op(d, "v & 3")), 8)
    g.st("xa%d" % k, "pub h: u8, #[nom(%s)] pub v: u8, #[nom(%s)] pub w: u8" % (at(k, d, "k"), at(k + 1, d, "l")), "let h: u8 = r.g(e)?; %s let v = r.g(e)?; %s @ { h, v, w: r.g(e)? }" % (op(d, "k"), op(d, "l")), 8, tl="#[nom(ExtraArgs(k: i64, l: u64))]", extra="k: i64 = a as i64, l: u64 = b")
    g.st("in%d" % k, "pub h: i8, #[nom(%s)] pub v: u8, #[nom(%s)] pub w: u8" % (at(k, d, "h"), at(k, d, "orig_dat.len() - dat.len()")), "let h: i8 = r.g(e)?; %s let v = r.g(e)?; %s @ { h, v, w: r.g(e)? }" % (op(d, "h"), op(d, "r.own() - r.left()")), 7, tl="#[nom(InputName(dat))]")
    g.st("co%d" % k, "pub h: i8, #[nom(%s)] pub v: u16" % at(k, d, "h"), "let h: i8 = r.complete(|r| r.g(e))?; r.complete(|r| { %s Ok(()) })?; @ { h, v: r.complete(|r| r.g(e))? }" % op(d, "h"), 7, tl="#[nom(Complete)]")
    g.st("ex%d" % k, "pub h: i8, #[nom(%s)] pub v: u16" % at(k, d, "h"), "let h: i8 = r.g(e)?; %s let v = r.g(e)?; r.exact()?; @ { h, v }" % op(d, "h"), 7, tl="#[nom(Exact)]")
    g.st("ln%d" % k, "pub h: i8, #[nom(%s)] pub v: u16, #[nom(Cond(h > 0), %s)] pub o: Option<u16>" % (at(k, d, "h"), at(k, d, "1")), "let h: i8 = r.g(L)?; %s let v = r.g(L)?; %s @ { h, v, o: r.cond(h > 0, |r| r.g(L))? }" % (op(d, "h"), op(d, "1")), 7, der="NomLE")
    for j, (fa, ft, fo) in enumerate([("Verify(*v != 3)", "u8", "r.verify(|r| r.g(e), |v: &u8| *v != 3)?"), ("Count(h & 1)", "Vec<u8>", "r.count((h & 1) as usize, |r| r.g(e))?"), ("Cond(h > 1)", "Option<u16>", "r.cond(h > 1, |r| r.g(e))?"), ('Tag(b"AB")', "&'a [u8]", 'r.tag(b"AB")?'), ("Take(h & 3)", "&'a [u8]", "r.take((h & 3) as usize)?"), ("Parse(u16::parse_le)", "u16", "r.g(L)?"), ("Map = \"|x: u8| x ^ 1\"", "u8", "r.g::<u8>(e)? ^ 1"), ("SkipAfter(1)", "u8", "{ let v = r.g(e)?; r.skip(1)?; v }"), ("AlignAfter(2)", "u8", "{ let v = r.g(e)?; r.align(2)?; v }"), ("LittleEndian", "u16", "r.g(L)?"), ('LengthCount = "u8::parse"', "Vec<u8>", "{ let n = r.g::<u8>(B)?; r.count(n as usize, |r| r.g(e))? }")]):
        a1, a2 = at(j, d, "h"), fa
        if j % 2: a1, a2 = a2, a1
        if fa in ("LittleEndian",): pass
        g.st("f%d_%d" % (k, j), "pub h: i8, #[nom(%s, %s)] pub v: %s" % (a1, a2, ft), "let h: i8 = r.g(e)?; %s @ { h, v: %s }" % (op(d, "h"), fo), 6)
    for nm in ("offset", "start", "pos", "new_offset", "offset_u", "o", "align"):
        g.st("nm%d_%s" % (k, nm), "pub %s: i8, #[nom(%s)] pub v: u8, #[nom(%s)] pub z: u8" % (nm, at(k, d, nm), at(k + 1, d, "(%s & 3) - 1" % nm)), "let q: i8 = r.g(e)?; %s let v = r.g(e)?; %s @ { %s: q, v, z: r.g(e)? }" % (op(d, "q"), op(d, "(q & 3) - 1"), nm), 6)
# ---- sequences on one field, and mixed with the other directives, in order of appearance
n = 0
S = [("Move", "-1"), ("MoveAbs", "3"), ("Move", "(h & 7) as i8 - 3"), ("MoveAbs", "h & 7"), ("SkipBefore", "1"), ("AlignBefore", "4"), ("ErrorIf", "i.len() == 3"), ("Move", "2"), ("PreExec", "let h = h ^ 1;")]
for j in range(9):
    for k in range(9):
        if j == k or (j > 3 and k > 3 and j != 7 and k != 7) :
            continue
        l = [S[j], S[k]] + ([S[(j * k + 2) % 8]] if (j + k) % 3 == 0 else [])
        bind = ""
        g.st("s%d" % n, "pub h: u8, pub b: u8, #[nom(%s)] pub v: u8, pub z: u8" % (")] #[nom(" if n % 4 == 0 else ", ").join(("%s(%s)" % (d, x) if d == "PreExec" else at(n + i, d, x)) for i, (d, x) in enumerate(l)),
             "let g: u8 = r.g(e)?; let h = g; let b = r.g(e)?; %s @ { h, b, v: r.g(e)?, z: r.g(e)? }" % " ".join(op(d, x, inp) for d, x in l), 12)
        n += 1
# ---- nested: relative to the own start of the nested element
for j, t in enumerate(("Mv", "Ma", "Mb", "Option<Mv>", "Option<Ma>", "[Mv; 2]", "[Ma; 2]")):
    g.st("n%d" % j, "pub h: u8, #[nom(SkipBefore(h & 1))] pub v: %s, #[nom(Move = \"-1\")] pub z: u8" % t, "let h: u8 = r.g(e)?; r.skip((h & 1) as usize)?; let v = r.g(e)?; r.mv(-1)?; @ { h, v, z: r.g(e)? }", 8)
    g.st("nb%d" % j, "pub h: i8, #[nom(Move(h))] pub v: %s" % t, "let h: i8 = r.g(e)?; r.mv(h as isize)?; @ { h, v: r.g(e)? }", 6)
g.st("ncount", "pub h: u8, #[nom(Count(h & 3))] pub v: Vec<Ma>, #[nom(MoveAbs(1))] pub z: u8", "let h: u8 = r.g(e)?; let v = r.count((h & 3) as usize, |r| r.g(e))?; r.mvabs(1)?; @ { h, v, z: r.g(e)? }", 6)
# ---- enums
g.st("en", '#[nom(Selector = "0")] A { a: i8, #[nom(Move(a))] b: u16 }, #[nom(Selector = "1")] B(i8, #[nom(MoveAbs(_0))] u8), #[nom(Selector = "2", Move(3))] U, #[nom(Selector = "3", MoveAbs = "orig_i.len()")] V, #[nom(Selector = "4", Move(2), Move(-1), Parse = "u16::parse_le")] W, #[nom(Selector = "_")] D { #[nom(Move = "selector as i8")] x: u8, #[nom(MoveAbs = "selector >> 5")] y: u8 }',
     "match s { 0 => { let a: i8 = r.g(e)?; r.mv(a as isize)?; @::A { a, b: r.g(e)? } } 1 => { let a: i8 = r.g(e)?; r.mvabs(a as usize)?; @::B(a, r.g(e)?) } 2 => { r.mv(3)?; @::U } 3 => { r.mvabs(r.own())?; @::V } 4 => { r.mv(2)?; r.mv(-1)?; r.g::<u16>(L)?; @::W } s => { r.mv(s as i8 as isize)?; let x = r.g(e)?; r.mvabs((s >> 5) as usize)?; @::D { x, y: r.g(e)? } } }", 10,
     tl='#[nom(Selector = "u8")]', extra="s: u8 = a as u8", enum=True)
# top-level statements that move the input: positions still count from the start of the element's own input
for k, (inp, pre, rpre) in enumerate((("i", "let (i, p) = i8::parse(i)?;", "let p: i8 = r.g(B)?;"), ("i", "let i = if i.len() > 2 { &i[2..] } else { i }; let p = -1i8;", "if r.left() > 2 { r.skip(2)?; } let p = -1i8;"),
                                      ("data", "let (data, p) = i8::parse(data)?;", "let p: i8 = r.g(B)?;"))):
    tl = "#[nom(PreExec(%s), PostExec(let (%s, _) = u8::parse(%s)?;)%s)]" % (pre, inp, inp, "" if inp == "i" else ", InputName(%s)" % inp)
    for j, (d, x) in enumerate((("MoveAbs", "1"), ("Move", "p"), ("Move", "-2"), ("MoveAbs", "p & 7"), ("Move", "1"))):
        g.st("tp%d_%d" % (k, j), "pub h: u8, #[nom(%s)] pub v: u8, #[nom(MoveAbs(3))] pub z: u8" % at(j + k, d, x),
             "%s let h = r.g(e)?; %s let v = r.g(e)?; r.mvabs(3)?; let z = r.g(e)?; r.skip(1)?; @ { h, v, z }" % (rpre, op(d, x)), 9, tl=tl)
    tl = tl.replace("#[nom(", '#[nom(Selector = "u8", ')
    g.st("te%d" % k, '#[nom(Selector = "0")] A { a: u8, #[nom(MoveAbs(0))] b: u16 }, #[nom(Selector = "1")] B(#[nom(Move(p))] u8), #[nom(Selector = "2", Move(-1))] U, #[nom(Selector = "3", MoveAbs(2))] V, #[nom(Selector = "_")] W { #[nom(Value(p))] q: i8, #[nom(MoveAbs(p))] b: u8 }',
         rpre + " let v = match s { 0 => { let a = r.g(e)?; r.mvabs(0)?; @::A { a, b: r.g(e)? } } 1 => { r.mv(p as isize)?; @::B(r.g(e)?) } 2 => { r.mv(-1)?; @::U } 3 => { r.mvabs(2)?; @::V } _ => { r.mvabs(p as usize)?; @::W { q: p, b: r.g(e)? } } }; r.skip(1)?; v",
         9, tl=tl, extra="s: u8 = a as u8", enum=True)
# ---- attributes of every kind combined at random, each definition with one of these
import genmix
genmix.mix(["Move", "MoveAbs"], 50)
