import os, random
DEEP = os.environ.get("VERIF_TIER") == "thorough"
R = random.Random(15)
# (weight, attributes, type) ; @ = an earlier u8 field, or a constant if there is none; ? = bounded
F = [(t, "", t) for t in ("u8", "u16", "u32", "i64", "u128", "In", "K", "PU", "Al", "PhantomData<u8>", "S2")] + [("lf", 'Parse = "Lf::parse_le"', "Lf<'a>"), ("ld", 'Parse = "LengthDataU16::parse_le"', "LengthDataU16<'a>")]
F += [("be", "BigEndian", "u32"), ("le", "LittleEndian", "In"), ("take", 'Take = "@"', "&'a [u8]"), ("take5", "Take(5)", "&'a [u8]"), ("tag", 'Tag(b"TAG")', "&'a [u8]"), ("tag1", 'Tag(b"\\x01\\x02")', "&'a [u8]"), ("count", 'Count = "@ & 3"', "Vec<u16>"), ("counti", 'Count(2)', "Vec<In>"), ("counte", 'Count = "@ & 1", Parse = "{ |i| En::parse_le(i, @) }"', "Vec<En>"), ("lc", 'LengthCount = "lead"', "Vec<u16>"), ("lcp", 'LengthCount = "lead", Parse = "fatal"', "Vec<u8>"),
  ("cond", 'Cond = "@ > 9"', "Option<u32>"), ("if", 'If(@ & 1 == 0)', "Option<In>"), ("condp", 'Cond = "@ > 9", Parse = "fatal"', "Option<u8>"), ("condv", 'Cond = "@ & 1 == 1", Verify = "*$ > 3"', "Option<u16>"), ("value", "Value(7)", "u8"), ("ignore", "Ignore", "u32"), ("parse", "Parse(u16::parse_le)", "u16"), ("digit", "Parse(digit)", "u8"), ("fatal", "Parse(fatal)", "u8"), ("en", 'Parse = "{ |i| En::parse_be(i, @) }"', "En"),
  ("map", 'Map = "|x: u16| x ^ 1"', "u16"), ("into", 'Into, Parse = "u16::parse_be"', "Wrap"), ("verify", 'Verify(*$ != 3)', "u16"), ("verifyu", 'Verify = "*$ > 3"', "u8"), ("skb", 'SkipBefore = "@"', "u16"), ("ska", 'SkipAfter = "@"', "u8"), ("alb", "AlignBefore(4)", "u8"), ("ala", "AlignAfter(8)", "u16"), ("alv", 'AlignBefore = "@"', "u8"), ("mvf", 'Move = "@ & 7"', "u8"), ("mva", 'MoveAbs = "@"', "u16"), ("mvb", "Move(-1)", "u8"), ("errif", 'ErrorIf = "@ == 3"', "u16"), ("pre", 'PreExec(let (i, _) = u8::parse(i)?;)', "u8"), ("post", 'PostExec(let (i, _) = u16::parse(i)?;)', "u8"), ("setend", 'SetEndian = "if @ > 5 { Endianness::Big } else { Endianness::Little }"', "u32"), ("tw", 'Parse = "nom::bytes::streaming::take_while(|c| c == 1u8)"', "&'a [u8]")]
LONG = ("tw",)
print("#[derive(Nom, PartialEq, Clone, Copy, Debug)] pub struct S2 { pub a: In, #[nom(SkipBefore(2), Verify(*b != 1))] pub b: u16 }")
k = 0
SEEK = ("skb", "ska", "take", "mva", "alb", "ala", "en", "lf", "ld", "LengthDataU8", "Al", "mvf", "tw", "counte", "mvb")
def thin(fs):
    """at most two fields that move by a distance taken from the data, by few bytes: longer chains are slow to decide"""
    out, k = [], 0
    for f in fs:
        if f[0] in SEEK:
            k += 1
            if k > 2: f = ("u16", "", "u16")
            elif f[0] in ("skb", "ska", "take", "mva"): f = (f[0], f[1].replace('"@"', '"@ & 7"'), f[2])
        out.append(f)
    return out
def struct(fs, tl="", der="Nom", args="", tuple_=False):
    global k
    k += 1
    out, u8s = [], []
    for j, (nm, at, t) in enumerate(fs):
        f = "_%d" % j if tuple_ else "f%d" % j
        v = u8s[-1] if u8s else "(%d)" % (j + 3)
        at = at.replace("@", v).replace("$", f)
        out.append(("#[nom(%s)] " % at if at else "") + "pub " + ("" if tuple_ else f + ": ") + t)
        if t == "u8" and nm != "value": u8s.append(f)
    lt = "<'a>" if any("'a" in o for o in out) else ""
    n = "X%d" % k
    body = "(%s);" if tuple_ else "{ %s }"
    print("#[allow(dead_code, unused_variables)] #[derive(%s, PartialEq)] %s pub struct %s%s %s" % (der, tl, n, lt, body % ", ".join(out)))
    # bounded when something loops over the input
    long_ = [f[0] for f in fs if f[0] in LONG]
    bnd = 8 if long_ else None
    if not bnd and sum(f[0] in ("counte", "lc", "lcp", "count", "en") for f in fs) > 1: bnd = 14
    if not bnd and len(fs) > 2 and any(f[0] == "ld" for f in fs): bnd = 9
    if not bnd and len(fs) > 2 and (sum(f[0] in SEEK for f in fs) > 1 or any(f[0] == "Al" for f in fs)): bnd = 13
    s = "_n%d" % bnd if bnd else ""
    x = "x_" if bnd or sum(f[0] in ("tag", "tag1", "errif") for f in fs) or any("mv" in f[0] for f in fs) else ""
    tag = "tag" in "".join(f[0] for f in fs)
    print("%s!(%ss%d%s, %s%s%s);" % ("sq" if tag else "st", x, k, s, n, lt, args))
    if not any(f[0] in ("mvb", "mva", "tw") for f in fs):
        print("ti!(%st%d%s, %s%s%s);" % (x, k, s, n, lt, args))
u8 = ("u8", "", "u8")
RF = [f for f in F if f[0] != "alv"]   # run-time divisors of symbolic offsets are slow to decide: on their own only
for f in F:
    struct([u8, f])
    struct([f, ("u16", "", "u16")], der="NomLE")
    if "Verify" not in f[1]: struct([u8, f, u8], tuple_=True)
for j in range(300 if DEEP else 90):
    n = R.choice([2, 3, 3, 4])
    fs = [u8] + [R.choice(RF) for _ in range(n)]
    fs = thin(fs)
    if sum(f[0] in LONG for f in fs) > 1: continue
    tl = R.choice(["", "", "", "#[nom(LittleEndian)]", "#[nom(BigEndian)]", '#[nom(PreExec = "let (i, w) = u16::parse_be(i)?;")]', '#[nom(PostExec = "let (i, _) = u16::parse_be(i)?;")]', "#[nom(InputName(i))]", '#[nom(SetEndian = "Endianness::Big")]'])
    t = not any("Verify" in f[1] for f in fs) and R.random() < .3
    struct(fs, tl, R.choice(["Nom", "Nom", "NomLE", "NomBE"]) if not tl else "Nom", tuple_=t)
# enums: every selector value
for j in range(100 if DEEP else 30):
    vs, kk = [], 0
    lt = False
    bnd = x = None
    for sel in ("0", "1..=9", "x if x & 1 == 1", "_")[: R.choice([2, 3, 4])]:
        kind = R.choice(["named", "tuple", "unit"])
        if kind == "unit":
            vs.append('#[nom(Selector = "%s"%s)] V%d' % (sel, R.choice(["", ", SkipBefore(2)", ', Parse = "u16::parse_le"', ", SkipAfter(1), AlignBefore(4)", ", Move(3)", ', Parse = "digit"']), kk))
        else:
            fs = [u8] + [R.choice(RF) for _ in range(R.choice([1, 2]))]
            fs = thin(fs)
            if kind == "tuple": fs = [f for f in fs if "Verify" not in f[1]]
            o, u8s = [], []
            for q, (nm, at, t) in enumerate(fs):
                f = "_%d" % q if kind == "tuple" else "f%d" % q
                at = at.replace("@", u8s[-1] if u8s else "selector").replace("$", f)
                o.append(("#[nom(%s)] " % at if at else "") + ("" if kind == "tuple" else f + ": ") + t)
                if t == "u8" and nm != "value": u8s.append(f)
                if nm in LONG: bnd = 8
            if any("'a" in y for y in o): lt = True
            vs.append('#[nom(Selector = "%s")] V%d%s' % (sel, kk, ("(%s)" if kind == "tuple" else " { %s }") % ", ".join(o)))
        kk += 1
    L = "<'a>" if lt else ""
    s = "_n8" if bnd else "_n14"
    print("#[allow(dead_code, unused_variables)] #[derive(Nom, PartialEq)] #[nom(Selector = \"u8\")] pub enum E%d%s { %s }" % (j, L, ", ".join(vs)))
    print("%s!(x_e%d%s, E%d%s, s: u8 = |b| b as u8);" % ("sq" if any("Tag" in v for v in vs) else "st", j, s, j, L))
