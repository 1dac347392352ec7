import os, random
DEEP = os.environ.get("VERIF_TIER") == "thorough"
R = random.Random(16)
k = 0
def st(fields, n=None, tl="", der="Nom", args="", x=False, tup=False):
    """fields: [(name, attributes, type)]"""
    global k
    k += 1
    S = "X%d" % k
    out = [("#[nom(%s)] " % a if a else "") + "pub " + ("" if tup else f + ": ") + t for f, a, t in fields]
    lt = "<'a>" if any("'a" in o for o in out) else ""
    br = [("%d" % j if tup else f) for j, (f, a, t) in enumerate(fields) if t == "&'a [u8]"]
    chk = "{ %s }" % " ".join("inside(i, v.%s);" % b for b in br)
    for j, (f, a, t) in enumerate(fields):
        if t == "Option<&'a [u8]>": chk = chk[:-1] + "if let Some(s) = v.%s { inside(i, s) } }" % (j if tup else f)
        if t == "Lf<'a>": chk = chk[:-1] + "inside(i, v.%s.s); }" % (j if tup else f)
    print("#[allow(dead_code, unused_variables)] #[derive(%s)] %s pub struct %s%s %s" % (der, tl, S, lt, ("(%s);" if tup else "{ %s }") % ", ".join(out)))
    print("tot!(%sx%d%s, %s%s, |v, i| %s%s);" % ("x_" if x else "", k, "_n%d" % n if n else "", S, lt, chk, args))
# ---- every attribute that takes a number x every integer type x expressions at the extremes
T = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128"]
A = ["SkipBefore", "SkipAfter", "AlignBefore", "AlignAfter", "Move", "MoveAbs", "Take", "Count", "LengthCount"]
for t in T:
    for j, a in enumerate(A):
        w = int(t[1:]) // 8
        if a == "LengthCount":
            st([("v", 'LengthCount = "|i: &\'nom [u8]| -> IResult<&\'nom [u8], u64> { let (i, x) = <%s>::parse(i)?; Ok((i, x as u64)) }"' % t, "Vec<u16>")] if 0 else [("v", "LengthCount = \"%s::parse_be\"" % t, "Vec<u16>")], w + 4) if t[0] == "u" and w <= 8 else None
            continue
        ft = {"Take": "&'a [u8]", "Count": "Vec<u16>"}.get(a, "u16")
        # run-time alignments: the address arithmetic is decided for short inputs
        n = w + 4 if a == "Count" else w + 8 if "Align" in a else None
        st([("h", "", t), ("v", '%s = "h"' % a, ft), ("z", "", "u8")], n)
EXT = ["usize::MAX", "u64::MAX - 1", "isize::MAX as usize", "isize::MIN", "-1isize", "i64::MIN + 1", "u128::MAX", "i128::MIN", "1u64 << 63", "(1u64 << 63) + 3", "u32::MAX as u64 + 1", "0", "1u64 << 32", "usize::MAX / 2 + 1", "usize::MAX - i.len()", "usize::MAX - (orig_i.len() - i.len())", "i.len() + 1"]
for j, x in enumerate(EXT):
    for a in A[:8]:
        if a == "Count" and x.startswith("(i.as_ptr") : continue
        ft = {"Take": "&'a [u8]", "Count": "Vec<u16>"}.get(a, "u16")
        st([("h", "", "u8"), ("v", '%s = "%s"' % (a, x), ft), ("z", "", "u8")], 8, x=True)
# two in a row, the second one from where the first one leads
for j, (a, b) in enumerate([(a, b) for a in A[:6] for b in A[:7]]):
    ft = {"Take": "&'a [u8]"}.get(b, "u8")
    st([("h", "", "i16"), ("g", "", "u8"), ("v", '%s = "h"' % a, "u8"), ("w", '%s = "g"' % b, ft), ("z", "", "u8")], 9, x=True)
    if a != b: st([("h", "", "i32"), ("v", '%s = "h", %s = "!h"' % (a, b if b != "Take" else "Move"), "u8"), ("z", "", "u8")], 9, x=True)
# ---- random definitions over everything else
F = [(t, "", t) for t in ("u8", "u16", "u32", "i64", "In", "K", "PU", "Al", "Mv", "PhantomData<u8>", "Option<u16>", "Option<In>", "Option<Mv>", "[u16; 2]", "Vec<u16>", "Vec<In>")]
F += [("be", "BigEndian", "u32"), ("le", "LittleEndian", "In"), ("lf", 'Parse = "Lf::parse_le"', "Lf<'a>"), ("take", 'Take = "@"', "&'a [u8]"), ("ct", 'Cond = "@ > 3", Take = "@ >> 4"', "Option<&'a [u8]>"), ("tag", 'Tag(b"TAG")', "&'a [u8]"), ("count", 'Count = "@"', "Vec<u16>"), ("counti", 'Count(2)', "Vec<In>"), ("counte", 'Count = "@ & 1", Parse = "{ |i| En::parse_le(i, @) }"', "Vec<En>"), ("lc", 'LengthCount = "lead"', "Vec<u16>"), ("lcp", 'LengthCount = "u8::parse", Parse = "fatal"', "Vec<u8>"), ("cnto", 'Count = "@ & 3"', "Vec<Option<u16>>"),
  ("cond", 'Cond = "@ > 9"', "Option<u32>"), ("condv", 'Cond = "@ & 1 == 1", Verify = "*$ > 3"', "Option<u16>"), ("ignore", "Ignore", "u32"), ("digit", "Parse(digit)", "u8"), ("fatal", "Parse(fatal)", "u8"), ("en", 'Parse = "{ |i| En::parse_be(i, @) }"', "En"), ("map", 'Map = "|x: u16| x ^ 1"', "u16"), ("into", 'Into, Parse = "u16::parse_be"', "Wrap"), ("verify", 'Verify(*$ != 3)', "u16"),
  ("skb", 'SkipBefore = "@"', "u16"), ("ska", 'SkipAfter = "@"', "u8"), ("alb", "AlignBefore(4)", "u8"), ("ala", "AlignAfter(8)", "u16"), ("mv", 'Move = "@ as i8"', "u8"), ("mva", 'MoveAbs = "@"', "u16"), ("mvb", "Move(-1)", "u8"), ("errif", 'ErrorIf = "@ == 3"', "u16"), ("pre", 'PreExec(let (i, _) = u8::parse(i)?;)', "u8"), ("post", 'PostExec(let (i, _) = u16::parse(i)?;)', "u8"), ("setend", 'SetEndian = "if @ > 5 { Endianness::Big } else { Endianness::Little }"', "u32"), ("rest", 'Parse = "nom::combinator::rest"', "&'a [u8]"), ("valen", 'Value(i.len())', "usize"), ("comp", "Complete", "u32"), ("many", 'Parse = "nom::multi::many0(nom::combinator::complete(u16::parse_be))"', "Vec<u16>")]
for j in range(600 if DEEP else 220):
    fs = [("u8", "", "u8")] + [R.choice(F) for _ in range(R.choice([2, 3, 3]))]
    tup = not any("Verify" in f[1] for f in fs) and R.random() < .3
    tl = R.choice(["", "", "", "#[nom(LittleEndian)]", "#[nom(Complete)]", "#[nom(Exact)]", '#[nom(PreExec = "let (i, w) = u16::parse_be(i)?;")]', '#[nom(PostExec = "let (i, _) = u16::parse_be(i)?;")]', '#[nom(SetEndian = "Endianness::Big")]'])
    out, u8s = [], []
    for q, (nm, at, t) in enumerate(fs):
        f = "_%d" % q if tup else "f%d" % q
        out.append((f, at.replace("@", u8s[-1] if u8s else "7").replace("$", f), t))
        if t == "u8": u8s.append(f)
    st(out, 8 if any("Vec" in t for _, _, t in fs) else 12, tl, R.choice(["Nom", "NomLE", "NomBE"]) if tl == "" else "Nom", x=True, tup=tup)
