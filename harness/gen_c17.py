import os, random
DEEP = os.environ.get("VERIF_TIER") == "thorough"
R = random.Random(17)
k = 0
def eqimpl(S, lt, gen, kind, names, variants=None):
    """impl Eqv<SP> for SG"""
    L = "<'a>" if lt else ""
    if gen:
        h = "impl<%sA, T: Eqv<A>> Eqv<%sP<%sA>> for %sG<%sT>" % ("'a, " if lt else "", S, "'a, " if lt else "", S, "'a, " if lt else "")
        o = "%sP<%sA>" % (S, "'a, " if lt else "")
    else:
        h, o = "impl%s Eqv<%sP%s> for %sG%s" % (L, S, L, S, L), "%sP%s" % (S, L)
    if variants is None:
        b = " && ".join(["true"] + ["self.%s.eqv(&o.%s)" % (n, n) for n in names])
    else:
        arms = []
        for v, kd, ns in variants:
            l, r = ["x%d" % j for j in range(len(ns))], ["y%d" % j for j in range(len(ns))]
            if kd == "u": arms.append("(%sG::%s, %sP::%s) => true" % (S, v, S, v))
            elif kd == "t": arms.append("(%sG::%s(%s), %sP::%s(%s)) => %s" % (S, v, ", ".join(l), S, v, ", ".join(r), " && ".join(["true"] + ["%s.eqv(%s)" % p for p in zip(l, r)])))
            else: arms.append("(%sG::%s { %s }, %sP::%s { %s }) => %s" % (S, v, ", ".join("%s: %s" % p for p in zip(ns, l)), S, v, ", ".join("%s: %s" % p for p in zip(ns, r)), " && ".join(["true"] + ["%s.eqv(%s)" % p for p in zip(l, r)])))
        b = "match (self, o) { %s, #[allow(unreachable_patterns)] _ => false }" % ", ".join(arms)
    print("%s { #[inline(always)] fn eqv(&self, o: &%s) -> bool { %s } }" % (h, o, b))
def pair(fields, n=None, tl="", der="Nom", name=None, args=None, tup=False, more="", gen=False, h=True, x=False, inst=None):
    """fields: [(name, attributes, type)]; % in a type or attribute stands for the suffix of the twin (P or G)"""
    global k
    k += 1
    S = name or "X%d" % k
    body = [("#[nom(%s)] " % a if a else "") + "pub " + ("" if tup else f + ": ") + t for f, a, t in fields]
    lt = any("'a" in b for b in body)
    par = ", ".join((["'a"] if lt else []) + (["T"] if gen else []))
    par = "<%s>" % par if par else ""
    for s in "PG":
        l = ", ".join(z for z in (tl, "GenericErrors" if s == "G" else "") if z)
        print(("#[allow(dead_code, unused_variables)] #[derive(%s)] %s %s pub struct %s%s%s %s" % (der, "#[nom(%s)]" % l if l else "", more, S, s, par, "(%s);" % ", ".join(body) if tup else "{ %s }" % ", ".join(body) if body else ";")).replace("%", s))
    eqimpl(S, lt, gen, None, ["%d" % j if tup else f for j, (f, _, _) in enumerate(fields)])
    harness(S, "<'a>" if lt and not gen else "", n, args, h, x, inst, lt)
    return S
def harness(S, L, n, args, h, x, inst=None, lt=False):
    if not h: return
    global k
    ge, gx = ("gy", "gz") if x else ("ge", "gx")
    for j, g in enumerate(inst or [None]):
        LL = "<%s%s>" % ("'a, " if lt else "", g) if g else L
        nm = "%sx%d%s%s" % ("x_" if x else "", k, "i%d" % j if g else "", "_n%d" % n if n else "")
        if args: print(gx + "!(%s, %sP%s, %sG%s, |a, b| (%s));" % (nm, S, LL.replace("%", "P"), S, LL.replace("%", "G"), args))
        else: print(ge + "!(%s, %sP%s, %sG%s);" % (nm, S, LL.replace("%", "P"), S, LL.replace("%", "G")))
def epair(variants, n=None, tl="", der="Nom", name=None, args=None, more="", h=True, x=False, lt=False, plain=False):
    """variants: [(name, attributes, kind, [(field, attributes, type)])]; plain: fieldless"""
    global k
    k += 1
    S = name or "X%d" % k
    L = "<'a>" if lt else ""
    out = []
    for v, a, kd, fs in variants:
        b = [("#[nom(%s)] " % y if y else "") + ("" if kd == "t" else f + ": ") + t for f, y, t in fs]
        out.append(("#[nom(%s)] " % a if a else "") + v + ("" if kd == "u" else "(%s)" % ", ".join(b) if kd == "t" else " { %s }" % ", ".join(b)))
    for s in "PG":
        l = ", ".join(z for z in (tl, "GenericErrors" if s == "G" else "") if z)
        print(("#[allow(dead_code, unused_variables)] #[derive(%s)] %s %s pub enum %s%s%s { %s }" % (der, "#[nom(%s)]" % l if l else "", more, S, s, L, ", ".join(out))).replace("%", s))
    eqimpl(S, lt, False, None, None, [(v.split(" ")[0], kd, [f for f, _, _ in fs]) for v, _, kd, fs in variants])
    harness(S, L, n, args, h, x)
    return S
# ---- the parts other definitions are made of
pair([("a", "", "u8"), ("b", "", "u16")], name="In", more="#[derive(Clone, Copy, Default, Debug, PartialEq)]")
pair([("a", "", "u16"), ("b", 'ErrorIf = "a & 3 == 1", Verify = "*b != a"', "u16")], name="Ie", more="#[derive(Clone, Copy, Default, Debug, PartialEq)]")
pair([("a", "", "u8"), ("b", "", "u16")], name="Il", tl="LittleEndian", more="#[derive(Clone, Copy, Default, Debug, PartialEq)]")
pair([("a", "", "u8"), ("b", "", "u16")], name="Ic", tl="Complete", more="#[derive(Clone, Copy, Default, Debug, PartialEq)]")
pair([("n", "", "u8"), ("s", 'Take = "n"', "&'a [u8]")], name="Lf", more="#[derive(Clone, Copy)]")
epair([("A = 0x0102", "", "u", []), ("B = 0x0201", "", "u", []), ("C = 7", "", "u", [])], name="K", more="#[repr(u16)] #[derive(Clone, Copy, Debug, PartialEq)]")
for r in ("u8", "u32", "u64", "i8", "i16", "i32", "i64"):
    epair([("A = 1", "", "u", []), ("B = 2", "", "u", []), ("C = 100", "", "u", [])], more="#[repr(%s)] #[derive(Clone, Copy, Debug, PartialEq)]" % r, der={"u32": "NomLE", "i16": "NomBE"}.get(r, "Nom"), tl={"u64": "Complete", "i32": "LittleEndian"}.get(r, ""))
SEL = "s: u8 = a as u8"
epair([("A", 'Selector = "0"', "t", [("f", "", "u16"), ("g", "", "In%")]), ("B", 'Selector = "1"', "s", [("a", "", "u8"), ("b", 'ErrorIf = "a == 9"', "u32")]), ("U", 'Selector = "2", SkipAfter(3)', "u", []), ("V", 'Selector = "3", Parse = "digit"', "u", []), ("D", 'Selector = "x if x > 200"', "t", [("f", 'Count = "selector & 1"', "Vec<u16>")])], tl='Selector = "u8"', name="En", args=SEL, more="#[derive(Clone, Debug, PartialEq)]")
epair([("A", 'Selector = "0"', "t", [("f", "", "u16")]), ("Z", 'Selector = "_"', "t", [("f", "", "u32")])], tl='Selector = "u8", LittleEndian', name="Eo", args=SEL, more="#[derive(Clone, Copy, Debug, PartialEq)]")
epair([("A", 'Selector = "0"', "s", [("n", "", "u8"), ("s", 'Take = "n"', "&'a [u8]")]), ("Z", 'Selector = "1..=9"', "t", [("f", 'Tag(b"TG")', "&'a [u8]")])], tl='Selector = "u8"', name="El", args=SEL, lt=True)
epair([("A", 'Selector = "0"', "t", [("f", "", "u16")]), ("Z", 'Selector = "1"', "t", [("f", 'Verify = "*_0 > k"', "u8") if 0 else ("f", 'Cond = "k > 3"', "Option<u16>")]), ("Y", 'Selector = "k2 if k2 == k"', "s", [("v", 'Count = "k & 1"', "Vec<u16>"), ("w", 'ErrorIf = "v.len() as u8 == k"', "u8")])], tl='Selector = "u8", ExtraArgs(k: u8)', args="s: u8 = a as u8, k: u8 = b as u8")
epair([("A", 'Selector = "(0, true)"', "t", [("f", "", "u16")]), ("Z", 'Selector = "(x, _) if x > 3"', "t", [("f", 'SkipBefore = "p"', "u16"), ("g", 'Value = "q"', "u16")])], tl='Selector = "(u8, bool)", ExtraArgs(p: u8, q: u16)', args="s: (u8, bool) = (a as u8, a & 256 != 0), p: u8 = b as u8, q: u16 = (b >> 8) as u16")
epair([("A", 'Selector = "0"', "t", [("f", "", "u16")]), ("Z", 'Selector = "1"', "t", [("f", "", "Vec<In%>")])], tl='Selector = "u8", Complete, PreExec(let (i, _) = u8::parse(i)?;), PostExec(let (i, _) = u16::parse(i)?;)', args=SEL, n=10)
epair([("A", 'Selector = "0"', "t", [("f", "", "u16")]), ("Z", 'Selector = "1"', "t", [("f", "", "String")])], tl='Selector = "u8"', args=SEL, n=8) if 0 else None
epair([("A", 'Selector = "0"', "t", [("f", "", "u16")]), ("Z", 'Selector = "1"', "s", [("a", 'SetEndian = "if selector > s2 { Endianness::Big } else { Endianness::Little }"', "u16"), ("b", "", "u32")])], tl='Selector = "u8", ExtraArgs(s2: u8)', args="s: u8 = a as u8, s2: u8 = b as u8", der="Nom")
epair([("A", 'Selector = "0"', "t", [("f", "", "u16")]), ("Z", 'Selector = "1"', "t", [("f", "", "u32")])], tl='Selector = "u8"', args=SEL, der="NomLE")
epair([("A", 'Selector = "0"', "t", [("f", "", "u16")]), ("Z", 'Selector = "1"', "t", [("f", "", "u32")])], tl='Selector = "u8", ExtraArgs(a: u8)', args="s: u8 = a as u8, a: u8 = b as u8", der="NomBE")
# ---- one field of every kind, every top-level attribute
PRIM = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64"]
for t in PRIM: pair([("a", "", t), ("z", "", t)])
for t, n in [("String", 9), ("Option<u32>", None), ("Option<In%>", None), ("Option<Ie%>", None), ("Option<Ic%>", None), ("Vec<u16>", 8), ("Vec<In%>", 9), ("Vec<Ie%>", 9), ("PU", None), ("PhantomData<u8>", None), ("In%", None), ("Ie%", None), ("Il%", None), ("Ic%", None), ("K%", None), ("Option<K%>", None), ("Vec<K%>", 8)]:
    z = "Option<u16>" if "Vec" in t else "u16"
    pair([("h", "", "u8"), ("a", "", t), ("z", "", z)], n)
    pair([("h", "", "u8"), ("a", "", t), ("z", "", z)], n, tup=True, der="NomLE")
    pair([("h", "", "u8"), ("a", "", t), ("z", "", z)], n, tl="Complete, Exact", x=True)
FL = [("be", "BigEndian", "u32"), ("le", "LittleEndian", "In%"), ("bei", "BigEndian", "In%"), ("lf", 'Parse = "Lf%::parse_le"', "Lf%<'a>"), ("take", 'Take = "@"', "&'a [u8]"), ("take3", "Take(3)", "&'a [u8]"), ("ct", 'Cond = "@ > 3", Take = "@ >> 4"', "Option<&'a [u8]>"), ("tag", 'Tag(b"TAG")', "&'a [u8]"), ("ctag", 'Cond = "@ > 3", Tag(b"TAG")', "Option<&'a [u8]>"), ("count", 'Count = "@ & 3"', "Vec<u16>"), ("counti", "Count(2)", "Vec<In%>"), ("counte", 'Count = "@ & 1", Parse = "{ |i| En%::parse_le(i, @) }"', "Vec<En%>"),
  ("lc", 'LengthCount = "lead"', "Vec<u16>"), ("lcp", 'LengthCount = "lead", Parse = "fatal"', "Vec<u8>"), ("lci", 'LengthCount = "lead"', "Vec<Ie%>"), ("cond", 'Cond = "@ > 9"', "Option<u32>"), ("condi", 'Cond = "@ > 9"', "Option<In%>"), ("condv", 'Cond = "@ & 1 == 1", Verify = "*$ > 3"', "Option<u16>"), ("ignore", "Ignore", "u32"), ("value", 'Value = "@ ^ 1"', "u8"), ("digit", "Parse(digit)", "u8"), ("fatal", "Parse(fatal)", "u8"), ("unk", "Parse(unknown)", "u8"), ("cunk", "Complete, Parse(unknown)", "u8"), ("en", 'Parse = "{ |i| En%::parse_be(i, @) }"', "En%"), ("eo", 'Parse = "{ |i| Eo%::parse_be(i, @) }"', "Eo%"), ("el", 'Parse = "{ |i| El%::parse_be(i, @) }"', "El%<'a>"),
  ("map", 'Map = "|x: u16| x ^ 1"', "u16"), ("mapp", 'Map = "|x: u8| x ^ 1", Parse = "digit"', "u8"), ("into", 'Into, Parse = "u16::parse_be"', "Wrap"), ("verify", 'Verify(*$ != 3)', "u16"), ("verifyi", 'Verify($.a != 3)', "In%"), ("debug", "Debug", "u16") if 0 else ("verify2", 'Verify(*$ > @ as u16), Complete', "u16"), ("comp", "Complete", "u32"), ("compi", "Complete", "In%"), ("errif", 'ErrorIf = "@ == 3"', "u16"),
  ("skb", 'SkipBefore = "@"', "u16"), ("ska", 'SkipAfter = "@"', "u8"), ("alb", "AlignBefore(4)", "u8"), ("ala", "AlignAfter(8)", "u16"), ("mv", 'Move = "@ as i8"', "u8"), ("mva", 'MoveAbs = "@"', "u16"), ("mvb", "Move(-1)", "u8"), ("pre", 'PreExec(let (i, _) = u8::parse(i)?;)', "u8"), ("post", 'PostExec(let (i, _) = u16::parse(i)?;)', "u8"), ("setend", 'SetEndian = "if @ > 5 { Endianness::Big } else { Endianness::Little }"', "u32"), ("rest", 'Parse = "nom::combinator::rest"', "&'a [u8]"), ("many", 'Parse = "nom::multi::many0(nom::combinator::complete(u16::parse_be))"', "Vec<u16>"), ("alt", 'Parse = "{ |i| nom::Parser::parse(&mut nom::branch::alt((digit, u8::parse)), i) }"', "u8")]
FL += [("conds", 'Cond = "@ > 9"', "Option<String>"), ("cnts", "Count(1)", "Vec<String>"), ("lcs", 'LengthCount = "lead"', "Vec<String>"), ("maps", 'Map = "|s: String| s.len()"', "usize") if 0 else ("maps", 'Map = "|s: String| { let mut s = s; s.push_str(\\"!\\"); s }"', "String"), ("intos", "Into", "String"), ("comps", "Complete", "String"), ("vers", 'Verify = "{ let s: &String = $; s.len() != 1 }"', "String")]
TLS = ["", "", "LittleEndian", "BigEndian", "Complete", "Exact", 'SetEndian = "if i.len() > 9 { Endianness::Big } else { Endianness::Little }"', 'PreExec = "let (i, w) = <u16>::parse_be(i)?;"', 'PostExec = "let (i, _) = <u16>::parse_be(i)?;"', "InputName(inp)", "Complete, LittleEndian, Exact"]
def isvec(fs): return any(("Vec" in t or t == "String") for _, _, t in fs)
def fix(fs, tup, u0="7", names=None):
    out, u8s = [], [u0]
    for q, (nm, at, t) in enumerate(fs):
        f = "_%d" % q if tup else (names[q] if names else "f%d" % q)
        out.append((f, at.replace("@", u8s[-1]).replace("$", f), t))
        if t == "u8": u8s.append(f)
    return out
NEST = ("En%", "Eo%", "El%")  # functions of selector enums want a Debug error type, which an impl of Parse does not promise
for f in FL:
    if any(z in f[1] for z in NEST): continue
    tup = False
    v = f[0] in ("rest", "many")  # nothing is left behind it
    pair(fix([("u8", "", "u8"), f, ("u16", "", "u16")], tup), 9 if isvec([f]) else 14, x=v)
    if "Verify" not in f[1]: pair(fix([("u8", "", "u8"), f, ("u16", "", "u16")], True), 9 if isvec([f]) else 14, tup=True, tl="LittleEndian", x=v)
ALLF = FL + [(t, "", t) for t in ("u8", "u8", "u8", "u16", "u32", "i64", "In%", "Ie%", "Il%", "Ic%", "K%", "PU", "Option<u16>", "Option<Ie%>", "Vec<u16>", "Vec<Ie%>", "PhantomData<u8>", "String")]
for j in range(500 if DEEP else 90):
    fs = [("u8", "", "u8")] + [R.choice([f for f in ALLF if not any(z in f[1] for z in NEST)]) for _ in range(R.choice([2, 3, 3]))]
    tup = not any("Verify" in f[1] for f in fs) and R.random() < .3
    tl = R.choice(TLS)
    if "SetEndian" in tl or any("SetEndian" in f[1] for f in fs): fs = [f for f in fs if "String" not in f[2]]  # not supported together with generic errors (does not compile)
    if "InputName" in tl: fs = [(a, b if not (" i" in b or "(i" in b or "fn " in b or "$" in b) or "|" in b else "", c) if 0 else (a, b, c) for a, b, c in fs if "parse(i)" not in b]
    pair(fix(fs, tup), 8 if isvec(fs) else 12, tl, R.choice(["Nom", "NomLE", "NomBE"]) if tl in ("", "Exact", "Complete") else "Nom", x=True, tup=tup)
# ---- generic parameters
pair([("n", "", "u8"), ("t", "", "T"), ("z", "", "u16")], gen=True, inst=["u32", "In%", "Ie%", "Option<u16>"] )
pair([("n", "", "u8"), ("t", "", "Option<T>"), ("v", 'Count = "n & 1"', "Vec<T>")], 10, gen=True, inst=["u16", "In%", "Ie%"])
pair([("n", "", "u8"), ("t", "", "T"), ("s", 'Take = "n"', "&'a [u8]")], gen=True, inst=["u16", "Ie%"])
pair([("n", "", "u8"), ("t", 'Cond = "n > 3"', "Option<T>"), ("z", "", "u8")], gen=True, inst=["u16", "Il%"], tup=False)
# ---- extra arguments: twins
ARGS = [("k: u8", "k: u8 = a as u8"), ("k: u8, q: u8", "k: u8 = a as u8, q: u8 = (a >> 8) as u8"), ("k: u8, q: u8, w: u16", "k: u8 = a as u8, q: u8 = (a >> 8) as u8, w: u16 = b as u16"), ("k: u8, q: u8, w: u8, y: u8", "k: u8 = a as u8, q: u8 = (a >> 8) as u8, w: u8 = (a >> 16) as u8, y: u8 = (a >> 24) as u8")]
for f in FL:
    if "String" in f[2]: continue  # functions outside of an impl of Parse do not promise the conversion a String needs
    d, a = R.choice(ARGS)
    pair(fix([("u16", "", "u16"), f, ("u16", "", "u16")], False, "k"), 9 if isvec([f]) else 14, tl="ExtraArgs(%s)" % d, args=a, x=True)
for j in range(300 if DEEP else 60):
    d, a = R.choice(ARGS)
    fs = [R.choice(ALLF) for _ in range(R.choice([2, 3, 3]))]
    fs = [f for f in fs if "String" not in f[2]]
    tup = not any("Verify" in f[1] for f in fs) and R.random() < .3
    tl = R.choice([t for t in TLS if "Input" not in t])
    pair(fix(fs, tup, "k"), 8 if isvec(fs) else 12, ", ".join(R.sample([z for z in (tl, "ExtraArgs(%s)" % d) if z], 2 if tl else 1)), R.choice(["Nom", "NomLE", "NomBE"]) if tl in ("", "Exact", "Complete") else "Nom", x=True, tup=tup, args=a)
# ---- extra arguments against the reference: which value reaches which expression
def ex(fields, args, body, n=None, tl="", der="Nom", tup=False, ge=False):
    global k
    k += 1
    S = "X%d" % k
    decl = ", ".join("%s: %s" % (a, t) for a, t, _ in args)
    lt = "<'a>" if "'a" in fields else ""
    print("#[allow(dead_code, unused_variables)] #[derive(%s, PartialEq)] #[nom(%s)] pub struct %s%s %s" % (der, ", ".join(z for z in (tl, "ExtraArgs(%s)" % decl, "GenericErrors" if ge else "") if z), S, lt, "(%s);" % fields if tup else "{ %s }" % fields))
    print("hx!(x%d%s, %s%s, |a, b| (%s), |r, e| { %s });" % (k, "_n%d" % n if n else "", S, lt, ", ".join("%s: %s = %s" % z for z in args), body.replace("@", S)))
W8 = lambda names: [(nm, "u8", "(a >> %d) as u8" % (8 * j)) for j, nm in enumerate(names)]
EXP = [  # (attributes, type, oracle with X for the argument)
  ('Take = "X"', "&'a [u8]", "r.take(X as usize)?"), ('Count = "X & 3"', "Vec<u16>", "r.count((X & 3) as usize, |r| r.g(e))?"), ('Cond = "X > 9"', "Option<u16>", "r.cond(X > 9, |r| r.g(e))?"), ('If = "X & 1 == 1"', "Option<u32>", "r.cond(X & 1 == 1, |r| r.g(e))?"), ('Value = "X"', "u8", "X"), ('Map = "|v: u16| v ^ X as u16"', "u16", "r.g::<u16>(e)? ^ X as u16"), ('Verify = "*f > X as u16"', "u16", "r.verify(|r| r.g::<u16>(e), |f| *f > X as u16)?"), ('ErrorIf = "X > 100"', "u8", "{ r.error_if(X > 100)?; r.g(e)? }"),
  ('SkipBefore = "X"', "u16", "{ r.skip(X as usize)?; r.g(e)? }"), ('SkipAfter = "X"', "u16", "{ let f = r.g(e)?; r.skip(X as usize)?; f }"), ('AlignBefore = "X & 15"', "u16", "{ r.align((X & 15) as usize)?; r.g(e)? }"), ('Move = "X as i8"', "u16", "{ r.mv(X as i8 as isize)?; r.g(e)? }"), ('MoveAbs = "X"', "u16", "{ r.mvabs(X as usize)?; r.g(e)? }"), ('SetEndian = "if X > 3 { Endianness::Big } else { Endianness::Little }"', "u32", "r.g::<u32>(if X > 3 { B } else { L })?"), ('PreExec(let (i, _) = nom::Parser::parse(&mut nom::bytes::streaming::take(X as usize), i)?;)', "u16", "{ r.skip(X as usize)?; r.g(e)? }"), ('PostExec(let f = f ^ X;)', "u8", "r.g::<u8>(e)? ^ X"), ('Parse = "{ |i| nom::Parser::parse(&mut nom::bytes::streaming::take(X), i) }"', "&'a [u8]", "r.take(X as usize)?"), ('LengthCount = "{ |i| { let (i, n) = u8::parse(i)?; Ok((i, n & X & 3)) } }"', "Vec<u16>", "{ let n = r.g::<u8>(e)? & X & 3; r.count(n as usize, |r| r.g(e))? }"), ('Tag([X])', "&'a [u8]", "r.tag(&[X])?"), ('Into, Parse = "{ |i| { let (i, v) = u16::parse(i)?; Ok((i, v ^ X as u16)) } }"', "Wrap", "Wrap((r.g::<u16>(B)? ^ X as u16) as u32 + 1)"), ('Parse = "{ |i| EnP::parse_be(i, X) }"', "EnP", "r.nest(|r| o_en(r, B, X))?")]
print('''pub fn o_en(r: &mut Rd, e: E, s: u8) -> R<EnP> { Ok(match s { 0 => EnP::A(r.g(e)?, InP { a: r.g(e)?, b: r.g(e)? }), 1 => { let a = r.g(e)?; r.error_if(a == 9u8)?; let b = r.g(e)?; EnP::B { a, b } }, 2 => { r.skip(3)?; EnP::U }, 3 => { o_digit(r)?; EnP::V }, s if s > 200 => EnP::D(r.count((s & 1) as usize, |r| r.g(e))?), _ => return r.err(ErrorKind::Switch) }) }''')
NAMES = [["k"], ["k", "q"], ["q", "k", "w"], ["w", "q", "y", "k"]]
for j, (at, t, o) in enumerate(EXP):
    for q, ns in enumerate(NAMES):
        if not DEEP and (q + j) % 2 and q < 3: continue
        X = ns[(j + q) % len(ns)]
        Y = ns[(j + q + 1) % len(ns)]
        n = 7 if "Vec" in t or "Align" in at else None
        de, der, tl = [("e", "Nom", ""), ("L", "NomLE", ""), ("B", "NomBE", ""), ("L", "Nom", "LittleEndian")][(j + q) % 4]
        if "AlignB" in at or "LengthCount" in at or "o_en" in o or "Into" in at: de, der, tl = "e", "Nom", ""
        f = '#[nom(%s)] pub f: %s' % (at.replace("X", X), t)
        b = "%s pub y0: u8" % ('#[nom(Value = "%s")]' % Y)
        dz = "if %s > 3 { B } else { L }" % X if "SetEndian" in at else de
    ex("pub h: u8, %s, %s, pub z: u16" % (f, b), W8(ns), "let h = r.g(@E@)?; let f = %s; @ { h, f, y0: %s, z: r.g(@Z@)? }".replace("@E@", de).replace("@Z@", dz).replace("%s", "\x01", 1).replace("%s", "\x02").replace("\x01", o.replace("X", X).replace("(e)", "(%s)" % de)).replace("\x02", Y), n, tl, der)
# types of arguments other than integers: bool, tuple, Endianness, a slice, an array, a closure, references
ex("#[nom(Cond = \"c\")] pub a: Option<u16>, #[nom(Cond = \"!c && d\")] pub b: Option<u32>, #[nom(Value = \"t.1\")] pub v: u16, #[nom(SkipBefore = \"t.0\")] pub z: u8", [("c", "bool", "a & 1 == 1"), ("d", "bool", "a & 2 == 2"), ("t", "(u8, u16)", "((a >> 8) as u8, b as u16)")], "@ { a: r.cond(c, |r| r.g(e))?, b: r.cond(!c && d, |r| r.g(e))?, v: t.1, z: { r.skip(t.0 as usize)?; r.g(e)? } }")
ex("pub a: u16, #[nom(BigEndian)] pub b: u16, #[nom(SetEndian(f))] pub c: u16, pub d: u32", [("e0", "Endianness", "if a & 1 == 1 { Endianness::Big } else { Endianness::Little }"), ("f", "Endianness", "if a & 2 == 2 { Endianness::Big } else { Endianness::Little }")], "let e0 = if e0 == Endianness::Big { B } else { L }; let f = if f == Endianness::Big { B } else { L }; @ { a: r.g(e0)?, b: r.g(B)?, c: r.g(f)?, d: r.g(f)? }", tl="SetEndian(e0)")
ex("pub a: u16, #[nom(Take = \"m\")] pub s: &'a [u8], #[nom(Move = \"d\")] pub b: u8, #[nom(MoveAbs = \"m\")] pub c: u8", [("m", "usize", "a as usize"), ("d", "isize", "b as isize")], "@ { a: r.g(e)?, s: r.take(m)?, b: { r.mv(d)?; r.g(e)? }, c: { r.mvabs(m)?; r.g(e)? } }")
ex("#[nom(Tag(t))] pub s: &'a [u8], pub b: u8", [("t", "[u8; 3]", "[a as u8, (a >> 8) as u8, b as u8]")], "@ { s: r.tag(&t)?, b: r.g(e)? }")
ex("#[nom(Map(f))] pub s: u8, #[nom(Verify(g(*b)))] pub b: u8", [("f", "fn(u8) -> u8", "if a & 1 == 1 { |x: u8| x ^ 1 } else { |x: u8| !x }"), ("g", "fn(u8) -> bool", "|x: u8| x > 3")], "@ { s: f(r.g(e)?), b: r.verify(|r| r.g(e), |b| g(*b))? }") if 0 else None
# a marked, exact, pre/post executed element sees its arguments everywhere
ex("pub a: u16, #[nom(Cond = \"k > n\")] pub o: Option<u32>", W8(["n", "k"]), "r.skip(n as usize)?; let a = r.complete(|r| r.g(e))?; let o = r.complete(|r| r.cond(k > n, |r| r.g(e)))?; r.skip(k as usize)?; r.exact()?; @ { a, o }", tl="Complete, PreExec(let (i, _) = nom::Parser::parse(&mut nom::bytes::streaming::take(n as usize), i)?;), PostExec(let (i, _) = nom::Parser::parse(&mut nom::bytes::streaming::take(k as usize), i)?;), Exact")
ex("pub u8, #[nom(Count = \"k & 1\")] pub Vec<u16>, #[nom(Value = \"n\")] pub u8, #[nom(ErrorIf = \"_0 == n\")] pub u16", W8(["n", "k"]), "let a = r.g::<u8>(L)?; let v = r.count((k & 1) as usize, |r| r.g(L))?; r.error_if(a == n)?; let z = r.g(L)?; @(a, v, n, z)", 9, tup=True, der="NomLE") if 0 else None
# an argument that shares its name with a later field is shadowed by it, and not before
ex("#[nom(Value = \"k\")] pub a: u8, pub k: u8, #[nom(Take = \"k\")] pub s: &'a [u8]", W8(["k"]), "let k: u8 = r.g(e)?; @ { a: kk, k, s: r.take(k as usize)? }".replace("let k:", "let kk = k; let k:"))
# passed down by hand to a nested element
print('''#[allow(dead_code)] #[derive(Nom, PartialEq, Debug, Clone)] #[nom(ExtraArgs(lo: u8, hi: u8))] pub struct Dn { #[nom(Verify = "*a >= lo && *a <= hi")] pub a: u8, #[nom(Cond = "hi > 200")] pub b: Option<u16> }
pub fn o_dn(r: &mut Rd, e: E, lo: u8, hi: u8) -> R<Dn> { Ok(Dn { a: r.verify(|r| r.g(e), |a| *a >= lo && *a <= hi)?, b: r.cond(hi > 200, |r| r.g(e))? }) }''')
ex("pub h: u8, #[nom(Parse = \"{ |i| Dn::parse_le(i, p, q) }\")] pub d: Dn, #[nom(Count(2), Parse = \"{ |i| Dn::parse_be(i, q, h) }\")] pub v: Vec<Dn>, #[nom(Cond = \"p > q\", Parse = \"{ |i| Dn::parse(i, h, p) }\")] pub o: Option<Dn>", W8(["p", "q"]), "let h: u8 = r.g(e)?; let d = r.nest(|r| o_dn(r, L, p, q))?; let v = r.count(2, |r| r.nest(|r| o_dn(r, B, q, h)))?; @ { h, d, v, o: r.cond(p > q, |r| r.nest(|r| o_dn(r, B, h, p)))? }")
# selectors and extra arguments: selector first, then the arguments in order
def exe(variants, args, arms, n=None, tl="", der="Nom", lt="", sel="u8", selv="a as u8"):
    global k
    k += 1
    S = "X%d" % k
    decl = ", ".join("%s: %s" % (a, t) for a, t, _ in args)
    print("#[allow(dead_code, unused_variables)] #[derive(%s, PartialEq)] #[nom(%s)] pub enum %s%s { %s }" % (der, ", ".join(R.sample(['Selector = "%s"' % sel, "ExtraArgs(%s)" % decl] + ([tl] if tl else []), 3 if tl else 2)), S, lt, variants))
    print("hx!(x%d%s, %s%s, |a, b| (%s), |r, e| { match s0 { %s, _ => return r.err(ErrorKind::Switch) } });" % (k, "_n%d" % n if n else "", S, lt, ", ".join("%s: %s = %s" % z for z in [("s0", sel, selv)] + args), arms.replace("@", S)))
exe('#[nom(Selector = "0")] A(u16, #[nom(Cond = "p > q")] Option<u8>), #[nom(Selector = "1")] B { a: u8, #[nom(Take = "q")] s: &\'a [u8], #[nom(Value = "p ^ selector")] v: u8 }, #[nom(Selector = "x if x == p", SkipAfter = "q")] C', [("p", "u8", "(a >> 8) as u8"), ("q", "u8", "(a >> 16) as u8")], "0 => @::A(r.g(e)?, r.cond(p > q, |r| r.g(e))?), 1 => @::B { a: r.g(e)?, s: r.take(q as usize)?, v: p ^ s0 }, x if x == p => { r.skip(q as usize)?; @::C }", lt="<'a>")
exe('#[nom(Selector = "0")] A(u16, #[nom(Verify = "*_1 > p")] u16), #[nom(Selector = "1")] B(#[nom(Count = "q & 3")] Vec<u8>)'.replace('#[nom(Verify = "*_1 > p")]', '#[nom(ErrorIf = "p > 3")]'), [("p", "u8", "(a >> 8) as u8"), ("q", "u16", "b as u16")], "0 => @::A(r.g(L)?, { r.error_if(p > 3)?; r.g(L)? }), 1 => @::B(r.count((q & 3) as usize, |r| r.g(L))?)", der="NomLE", n=8)
exe('#[nom(Selector = "0")] A { #[nom(SetEndian = "if p { Endianness::Big } else { Endianness::Little }")] a: u16, b: u32 }, #[nom(Selector = "2..=3")] B(u64)', [("p", "bool", "b & 1 == 1")], "0 => { let x = if p { B } else { L }; @::A { a: r.g(x)?, b: r.g(x)? } }, 2..=3 => @::B(r.g(e)?)")
# a mutable argument, a borrowed one, one that is a pattern-free struct
ex('pub a: u16, #[nom(Take = "k")] pub s: &\'a [u8], #[nom(Value = "q")] pub y: u8', [("mut k", "u8", "a as u8"), ("q", "u8", "b as u8")], "r.skip(1)?; let k = k & 7; let a = r.g(e)?; @ { a, s: r.take(k as usize)?, y: q }", tl="PreExec(k &= 7; let (i, _) = u8::parse(i)?;)") if 0 else None
ex('pub a: u16, #[nom(Tag(k))] pub s: &\'a [u8], #[nom(Value = "k.len() as u8")] pub y: u8, #[nom(Cond = "k[0] > q")] pub z: Option<u16>', [("k", "&[u8]", "&[a as u8, (a >> 8) as u8]"), ("q", "u8", "b as u8")], "let a = r.g(e)?; let s = r.tag(k)?; @ { a, s, y: 2, z: r.cond(k[0] > q, |r| r.g(e))? }")
print("#[derive(Clone, Copy, PartialEq)] pub struct Cx { pub n: u8, pub big: bool, pub w: (u16, i8) }")
ex('#[nom(Take = "c.n & 7")] pub s: &\'a [u8], #[nom(SetEndian = "if c.big { Endianness::Big } else { Endianness::Little }")] pub a: u16, #[nom(Cond = "c.w.0 > a")] pub b: Option<u32>, #[nom(Move = "c.w.1")] pub d: u8', [("c", "Cx", "Cx { n: a as u8, big: a & 256 != 0, w: (b as u16, (b >> 16) as i8) }")], "let s = r.take((c.n & 7) as usize)?; let x = if c.big { B } else { L }; let a = r.g(x)?; let b = r.cond(c.w.0 > a, |r| r.g(x))?; r.mv(c.w.1 as isize)?; @ { s, a, b, d: r.g(e)? }")
