import os, random, re
DEEP = os.environ.get("VERIF_TIER") == "thorough"
R = random.Random(18)
k = 0
# A definition is data; it is printed in several styles.  In expressions @1 is field 1, @@ the last u8 field, $I the input.
NAMES = ["align", "offset", "start", "pos", "skip", "new_offset", "offset_u", "struct_def", "enum_def", "selector", "input", "orig_input", "rem", "res", "e", "r#type", "r#match", "parse", "take", "nom", "parser", "n", "x", "data", "len", "count", "sz", "value", "__endian", "_x", "_0", "_1", "i", "orig_i", "a", "b", "s", "v", "r#fn", "tag", "complete", "cond", "map", "verify", "big", "le", "parse_be", "parse_le", "u", "digit_", "error", "kind", "needed", "idx", "buf", "self_", "name", "end"]
class St:
    """a style"""
    def __init__(s, **kw):
        s.spell, s.alias, s.group, s.inp, s.names, s.debug, s.tdebug, s.tup, s.rnd = kw.get("spell", "s"), kw.get("alias", 0), kw.get("group", "one"), kw.get("inp", "i"), kw.get("names"), kw.get("debug", 0), kw.get("tdebug", 0), kw.get("tup", False), kw.get("rnd")
        s.dd = kw.get("dd", 0)
PLAIN = St()
STMT = ("PreExec", "PostExec")
def one(a, st):
    """print one attribute (name, argument)"""
    n, x = a
    if st.alias: n = {"Cond": "If", "If": "Cond", "Ignore": "Default", "Default": "Ignore"}.get(n, n)
    if x is None: return n
    sp = st.spell if st.spell != "r" else R.choice("sp")
    if n == "ExtraArgs": return "%s(%s)" % (n, x)
    if sp == "p": return "%s(%s)" % (n, x)
    return '%s = "%s"' % (n, x.replace("\\", "\\\\").replace('"', '\\"'))
def lists(attrs, st):
    l = [one(a, st) for a in attrs]
    if not l: return ""
    g = st.group
    if g == "one": return "#[nom(%s)] " % ", ".join(l)
    if g == "each": return "".join("#[nom(%s)] " % z for z in l)
    if g == "comma": return "#[nom(%s,)] " % ", ".join(l)
    if g == "empty": return "#[nom()] #[nom(%s)] #[allow(unused)] #[nom()] " % ", ".join(l)
    out, cur = [], [l[0]]
    for z in l[1:]:
        if R.random() < .5: out.append(cur); cur = [z]
        else: cur.append(z)
    out.append(cur)
    if g == "rnd" and R.random() < .3: out.insert(R.randrange(len(out) + 1), [])
    return "".join("/** doc */ " * (R.random() < .2) + "#[nom(%s)] " % ", ".join(c) for c in out)
END = ("Tag", "Take", "Value", "Parse", "Ignore")
def render(t, f, st, fields, j):
    u8s = [q for q in range(j) if fields[q][1] == "u8" and not any(a[0] == "Verify" for a in []) ]
    t = t.replace("@@", "@%d" % u8s[-1] if u8s else "7")
    t = re.sub(r"@(\d+)", lambda m: f[int(m.group(1))], t)
    return t.replace("orig_$I", "orig_" + st.inp).replace("$I", st.inp)
def fnames(fields, st):
    if st.tup: return ["_%d" % q for q in range(len(fields))]
    return st.names[:len(fields)] if st.names else ["f%d" % q for q in range(len(fields))]
def fieldlist(fields, st, pub="pub "):
    f = fnames(fields, st)
    out = []
    for j, (at, ty) in enumerate(fields):
        a = [(n, None if x is None else render(x, f, st, fields, j + (n in ("Verify", "PostExec", "SkipAfter", "AlignAfter") and 1))) for n, x in at]
        if st.debug and not st.tup:
            ends = [q for q, z in enumerate(a) if z[0] in END] or [len(a)]
            for _ in range(st.debug): a.insert(R.randrange(ends[0] + 1), ("Debug", None))
        out.append(lists(a, st) + pub + ("" if st.tup else f[j] + ": ") + ty)
    return f, ("(%s)" if st.tup else "{ %s }") % ", ".join(out)
def emit(S, tl, fields, der, st, extra):
    tl = [(n, None if x is None else x.replace("$I", st.inp)) for n, x in tl]
    if st.inp != "i": tl.insert(R.randrange(len(tl) + 1), ("InputName", st.inp))
    if st.tdebug and not st.tup: tl.insert(R.randrange(len(tl) + 1), ("Debug", None))
    if st.dd: tl.insert(len(tl) // 2, ("DebugDerive", None))
    lt = "<'a>" if any("'a" in t for _, t in fields) else ""
    f, body = fieldlist(fields, st)
    # the input name takes no string
    tls = lists(tl, st)
    print("#[allow(dead_code, unused_variables, unused_braces, unused_parens, non_camel_case_types)] #[derive(%s)] %s pub struct %s%s %s%s" % (der, tls, S, lt, body, ";" if st.tup else ""))
    return f, lt
def twins(fields, styles, n=None, tl=(), der="Nom", args=None, x=False):
    global k
    k += 1
    P = "X%d" % k
    f0, lt = emit(P, list(tl), fields, der, PLAIN, args)
    nv = any(a[0] == "Verify" for at, _ in fields for a in at)
    for q, st in enumerate(styles):
        if st.tup and nv: continue
        G = "%sv%d" % (P, q)
        f1, _ = emit(G, list(tl), fields, der, st, args)
        acc = [("%d" % j if st.tup else z) for j, z in enumerate(f1)]
        print("impl%s Eqv<%s%s> for %s%s { #[inline(always)] fn eqv(&self, o: &%s%s) -> bool { %s } }" % (lt, P, lt, G, lt, P, lt, " && ".join(["true"] + ["self.%s.eqv(&o.%s)" % z for z in zip(acc, f0)])))
        print("%s!(%sx%dv%d%s, %s%s%s, %s%s%s);" % ("t1" if x else "tw", "x_" if x else "", k, q, "_n%d" % (n or 24), R.choice(["parse_le, ", "parse_be, ", "parse_le, ", "parse, "]) if x else "", P, lt, G, lt, ", |a, b| (%s)" % args if args else ""))
def names(n, inp):
    z = [m for m in NAMES if m not in (inp, "orig_" + inp)]
    return R.sample(z, n)
def rndstyle(n):
    inp = R.choice(["i", "i", "inp", "data", "rest_", "input", "r", "__inp", "buf"])
    return St(spell="r", alias=R.random() < .5, group=R.choice(["one", "each", "rnd", "rnd", "comma", "empty"]), inp=inp, names=names(n, inp) if R.random() < .7 else None, debug=R.choice([0, 0, 1, 2]), tdebug=R.random() < .3, tup=R.random() < .15)
def all_styles(n):
    return [St(spell="p"), St(alias=1, group="each"), St(inp="data", names=["i"] + names(n - 1, "data")[:n - 1] if 0 else None), St(inp="zz", names=(["i", "orig_i"] + ["f%d" % q for q in range(9)])[:n]), St(names=names(n, "i")), St(debug=1), St(tdebug=1, spell="p"), St(tup=True, group="rnd"), rndstyle(n)]
F = [([("BigEndian", None)], "u32"), ([("LittleEndian", None)], "In"), ([("Take", "@@")], "&'a [u8]"), ([("Take", "3")], "&'a [u8]"), ([("Take", "@@ as usize * 2 + 1")], "&'a [u8]"), ([("Cond", "@@ > 3"), ("Take", "@@ >> 4")], "Option<&'a [u8]>"), ([("Tag", 'b"TAG"')], "&'a [u8]"), ([("Tag", "[0x81u8, 0]")], "&'a [u8]"), ([("Count", "@@ & 3")], "Vec<u16>"), ([("Count", "2")], "Vec<In>"), ([("Count", "if @@ > 128 { 1 } else { 2 }")], "Vec<u16>"), ([("Count", "@@ & 1"), ("Parse", "{ |__x| En::parse_le(__x, @@) }")], "Vec<En>"),
  ([("LengthCount", "lead")], "Vec<u16>"), ([("LengthCount", "lead"), ("Parse", "fatal")], "Vec<u8>"), ([("LengthCount", "u8::parse"), ("Complete", None)], "Vec<u16>"), ([("Cond", "@@ > 9")], "Option<u32>"), ([("If", "@@ == 1 || @@ == 2")], "Option<u16>"), ([("Cond", "matches!(@@, 1 | 5..=9)")], "Option<In>"), ([("Cond", "@@ & 1 == 1"), ("Verify", "*@J > 3")], "Option<u16>"), ([("If", "@@ > 1"), ("If", "@@ < 9")], "Option<Option<u8>>"), ([("Ignore", None)], "u32"), ([("Default", None)], "Option<u8>"), ([("Default", None)], "Vec<u8>"), ([("Ignore", None)], "Wrap"), ([("Value", "@@ ^ 1")], "u8"), ([("Value", "$I.len()")], "usize"), ([("Value", "orig_$I.len() - $I.len()")], "usize"), ([("Parse", "digit")], "u8"), ([("Parse", "nom::number::streaming::le_u16")], "u16"), ([("Parse", "{ |__x| En::parse_be(__x, @@) }")], "En"),
  ([("Parse", "nom::combinator::map(u16::parse_le, inv)")], "u16"), ([("Map", "|x: u16| x ^ 1")], "u16"), ([("Map", "inv")], "u16"), ([("Map", "|x| x + 1"), ("Parse", "digit")], "u8"), ([("Into", None), ("Parse", "u16::parse_be")], "Wrap"), ([("Into", None), ("Map", "inv"), ("Parse", "u16::parse_le")], "Wrap"), ([("Verify", "*@J != 3")], "u16"), ([("Verify", "@J.a != 3 && @J.b > 9")], "In"), ([("Verify", "let z = *@J; z > @@ as u32")], "u32") if 0 else ([("Verify", "{ let z = *@J; z > @@ as u32 }")], "u32"), ([("Complete", None)], "u32"), ([("Complete", None), ("Count", "2")], "Vec<u16>"), ([("ErrorIf", "@@ == 3")], "u16"), ([("ErrorIf", "@@ > 3 && $I.len() > 2")], "u16"), ([("ErrorIf", "@@ == 3"), ("ErrorIf", "@@ == 4"), ("Cond", "@@ > 5")], "Option<u16>"),
  ([("SkipBefore", "@@")], "u16"), ([("SkipAfter", "@@")], "u16"), ([("SkipAfter", "@J")], "u8"), ([("SkipBefore", "1"), ("SkipAfter", "2")], "u8"), ([("AlignBefore", "4")], "u8"), ([("AlignAfter", "8")], "u16"), ([("AlignBefore", "@@ & 3")], "u8"), ([("Move", "@@ as i8")], "u8"), ([("Move", "-1")], "u8"), ([("MoveAbs", "@@")], "u16"), ([("MoveAbs", "1"), ("SkipBefore", "1"), ("Move", "-2"), ("SkipAfter", "1")], "u8"), ([("PreExec", "let ($I, _) = u8::parse($I)?;")], "u8"), ([("PreExec", "let w1 = $I.len();"), ("Value", "w1")], "usize"), ([("PostExec", "let ($I, _) = u16::parse($I)?;")], "u8"), ([("PostExec", "let @J = @J ^ 0x55;")], "u16"), ([("PostExec", "let @J = @J + 1;"), ("PostExec", "let @J = @J * 2;")], "u64") if 0 else ([("PostExec", "let @J = @J ^ 1;"), ("PostExec", "let @J = @J << 2;")], "u64"),
  ([("SetEndian", "if @@ > 5 { Endianness::Big } else { Endianness::Little }")], "u32"), ([("SetEndian", "Endianness::Little")], "In"), ([("SetEndian", "if @@ > 5 { Endianness::Big } else { Endianness::Little }"), ("Cond", "@@ > 1")], "Option<u16>"), ([("Parse", "nom::combinator::rest")], "&'a [u8]"), ([("Parse", "nom::multi::many0(nom::combinator::complete(u16::parse_be))")], "Vec<u16>")]
PLAINF = [([], t) for t in ("u8", "u8", "u8", "u16", "u32", "i64", "In", "K", "PhantomData<u8>", "Option<u16>", "Option<In>", "[u16; 2]", "Vec<u16>")]
def at(f, j): return ([(n, None if x is None else x.replace("@J", "@%d" % j)) for n, x in f[0]], f[1])
def isvec(fs): return any("Vec" in t for _, t in fs)
TL = [[], [], [("LittleEndian", None)], [("BigEndian", None)], [("Complete", None)], [("Exact", None)], [("SetEndian", "if $I.len() > 9 { Endianness::Big } else { Endianness::Little }")], [("PreExec", "let ($I, w) = <u16>::parse_be($I)?;")], [("PostExec", "let ($I, _) = <u16>::parse_be($I)?;")], [("Complete", None), ("Exact", None), ("LittleEndian", None)], [("PreExec", "let w = $I.len();"), ("PreExec", "let ($I, _) = <u8>::parse($I)?;"), ("PostExec", "let ($I, _) = <u16>::parse_be($I)?;"), ("Exact", None)], [("PostExec", "let ($I, _) = <u16>::parse_be($I)?;"), ("Exact", None), ("Complete", None)]]
# ---- every attribute on its own in every style
for f in F:
    fs = [([], "u8"), at(f, 1), ([], "Option<u16>" if isvec([f]) or f[1].startswith("&") else "u16")]
    twins(fs, all_styles(3), 9 if isvec(fs) else 13, x=True)
# ---- every top-level attribute in every style
for t in TL[2:]:
    for der in ("Nom", "NomLE", "NomBE"):
        if der != "Nom" and any(a[0] in ("BigEndian", "LittleEndian", "SetEndian") for a in t): continue
        fs = [([], "u8"), ([], "u16"), ([("Cond", "@0 > 3")], "Option<u32>"), ([], "Vec<u16>") if der == "Nom" else ([], "In")]
        twins(fs, all_styles(4), 11 if isvec(fs) else None, tl=t, der=der, x=any(a[0] in ('Exact', 'PostExec') for a in t))
# ---- the derive macro may be asked to print what it generates
twins([([], "u8"), ([("Cond", "@0 > 3")], "Option<u16>"), ([], "u32")], [St(dd=1), St(dd=1, group="each", inp="data")])
twins([([], "u8"), ([("Take", "@0")], "&'a [u8]")], [St(dd=1)], tl=[("Exact", None)], der="NomLE", x=True)
twins([([], "u8"), ([("Take", "xa")], "&'a [u8]")], [St(dd=1)], tl=[("ExtraArgs", "xa: u8, xb: u8")], args="xa: u8 = a as u8, xb: u8 = (a >> 8) as u8")
# ---- random definitions, random styles
for q in range(400 if DEEP else 110):
    fs = [([], "u8")]
    for j in range(R.choice([2, 3, 3, 4])): fs.append(at(R.choice(F + PLAINF), len(fs)))
    tl = R.choice(TL)
    args = None
    if R.random() < .2:
        tl = tl + [("ExtraArgs", "xa: u8, xb: u8")]; R.shuffle(tl)
        args = "xa: u8 = a as u8, xb: u8 = (a >> 8) as u8"
        fs = [([(n, None if z is None else z.replace("@@", R.choice(["xa", "xb"]))) for n, z in a_], t) for a_, t in fs]
    der = R.choice(["Nom", "NomLE", "NomBE"]) if not any(a[0] in ("BigEndian", "LittleEndian", "SetEndian") for a in tl) and not any(a[0] in ("BigEndian", "LittleEndian", "SetEndian") for z in fs for a in z[0]) else "Nom"
    twins(fs, [rndstyle(len(fs)), rndstyle(len(fs))], 8 if isvec(fs) else 12, tl=tl, der=der, args=args, x=True)
# ---- selector enums
def enums(variants, styles, tl=(), der="Nom", sel="u8", selv="a as u8", n=None, args=None, lt="", x=False):
    """variants: [(name, selector, [(attributes, type)], attributes of a unit variant)]"""
    global k
    k += 1
    P = "X%d" % k
    def pr(S, st):
        t = [("Selector", sel)] + [(n_, None if z is None else z.replace("$I", st.inp)) for n_, z in tl]
        if st.group == "rnd": R.shuffle(t) if len({a[0] for a in t}) == len(t) else None
        if st.inp != "i": t.insert(R.randrange(len(t) + 1), ("InputName", st.inp))
        if st.dd: t.append(("DebugDerive", None))
        vs, shapes = [], []
        for v, s, fs, ua in variants:
            va = [("Selector", s)] + [(n_, None if z is None else z.replace("$I", st.inp)) for n_, z in ua]
            if st.group in ("rnd", "each", "comma"): va = va[1:] + va[:1]  # the selector is found wherever it stands
            tup = st.tup or (fs and fs[0] == "t")
            s2 = St(**{**st.__dict__, "tup": tup})
            if fs == [] : vs.append(lists(va, s2) + v); shapes.append((v, "u", []))
            else:
                g = fs[1:] if fs[0] == "t" else fs
                f, b = fieldlist(g, s2, "")
                vs.append(lists(va, s2) + v + " " + b); shapes.append((v, "t" if tup else "s", f))
        print("#[allow(dead_code, unused_variables, unused_braces, unused_parens)] #[derive(%s)] %s pub enum %s%s { %s }" % (der, lists(t, st), S, lt, ", ".join(vs)))
        return shapes
    a0 = pr(P, PLAIN)
    for q, st in enumerate(styles):
        G = "%sv%d" % (P, q)
        a1 = pr(G, st)
        arms = []
        def pat(S, sh, c):
            v, kd, f = sh
            if kd == "u": return "%s::%s" % (S, v)
            if kd == "t": return "%s::%s(%s)" % (S, v, ", ".join("%s%d" % (c, j) for j in range(len(f))))
            return "%s::%s { %s }" % (S, v, ", ".join("%s: %s%d" % (z, c, j) for j, z in enumerate(f)))
        for x0, x1 in zip(a0, a1):
            arms.append("(%s, %s) => %s" % (pat(G, x1, "p"), pat(P, x0, "q"), " && ".join(["true"] + ["p%d.eqv(q%d)" % (j, j) for j in range(len(x0[2]))])))
        print("impl%s Eqv<%s%s> for %s%s { #[inline(always)] fn eqv(&self, o: &%s%s) -> bool { match (self, o) { %s, #[allow(unreachable_patterns)] _ => false } } }" % (lt, P, lt, G, lt, P, lt, ", ".join(arms)))
        print("tw!(%sx%dv%d%s, %s%s, %s%s, |a, b| (%s));" % ("x_" if x else "", k, q, "_n%d" % (n or 24), P, lt, G, lt, ", ".join(["s0: %s = %s" % (sel, selv)] + ([args] if args else []))))
def est(n=4): return [St(spell="p"), St(group="each", alias=1), St(inp="data"), St(inp="zz", names=["i", "orig_i", "f2", "f3"]), St(names=[z for z in names(6, "i") if z != "selector"]), St(debug=1), St(spell="r", group="rnd", debug=1, inp="r"), St(spell="r", group="comma", alias=1, names=[z for z in names(6, "i") if z != "selector"])]
enums([("A", "0", ["t", ([], "u16"), ([], "In")], []), ("Bb", "1", [([], "u8"), ([("ErrorIf", "@0 == 9")], "u32"), ([("Cond", "@0 > 3")], "Option<u16>")], []), ("U", "2", [], [("SkipAfter", "3")]), ("V", "3", [], [("Parse", "digit")]), ("D", "x if x > 200", ["t", ([("Count", "selector & 1")], "Vec<u16>")], [])], est() + [St(dd=1)])
enums([("A", "0", [([], "u16")], []), ("Bb", "1..=9", [([("Take", "selector")], "&'a [u8]"), ([("Tag", 'b"T"')], "&'a [u8]")], []), ("Z", "_", ["t", ([], "u32")], [])], est(), lt="<'a>")
enums([("Z", "_", [([], "u32")], []), ("A", "0 | 7", [([("SetEndian", "if selector > 3 { Endianness::Big } else { Endianness::Little }")], "u16"), ([], "u32")], [])], est(), tl=[("Exact", None), ("PreExec", "let ($I, _) = u8::parse($I)?;")] if 0 else [("PreExec", "let ($I, _) = u8::parse($I)?;"), ("PostExec", "let ($I, _) = u8::parse($I)?;"), ("Exact", None)])
enums([("A", "(0, true)", [([], "u16")], []), ("Bb", "(x, _) if x > 3 && x < 9", [([], "u8"), ([("Verify", "*@1 > @0")], "u8")], [])], est(), sel="(u8, bool)", selv="(a as u8, a & 256 != 0)", tl=[("LittleEndian", None)])
enums([("A", "-1", [([("Move", "selector")], "u16")], []), ("Bb", "-128..=-100", [([("MoveAbs", "-selector")] if 0 else [("AlignAfter", "4")], "u8")], []), ("C", "i8::MAX", [], [("Move", "2")])], est(), sel="i8", selv="a as i8", tl=[("Complete", None)])
print("#[derive(Clone, Copy, PartialEq, Eq)] pub struct Msg(pub u8); #[derive(Clone, Copy, PartialEq, Eq)] pub enum Kd { One, Two { n: u8 } } pub const SEVEN: u8 = 7;")
enums([("A", "Msg(0)", [([], "u16")], []), ("Bb", "Msg(SEVEN)", [([], "u8"), ([("SkipBefore", "@0 & 3")], "u8")], []), ("C", "Msg(x) if x == 5 || (x > 10 && x < 20)", ["t", ([], "u8")], [])], est(), sel="Msg", selv="Msg(a as u8)", der="NomLE")
enums([("A", "Kd::One", [([], "u16")], []), ("Bb", "Kd::Two { n: 3 }", [([], "u8")], []), ("C", "Kd::Two { n } if n > 9", [([("Count", "n & 1")], "Vec<u16>")], []), ("D", "Kd::Two { .. }", [], [])], est(), sel="Kd", selv="if a & 256 == 0 { Kd::One } else { Kd::Two { n: a as u8 } }", n=8)
enums([("A", '"ab"', [([], "u16")], []), ("Bb", '"b\\"c"', [([], "u8")], []), ("C", "x if x.len() == 1", ["t", ([], "u32")], [])], est(), sel="&'static str", selv='match a & 3 { 0 => "ab", 1 => "b\\"c", 2 => "x", _ => "" }')
enums([("A", "b'a'", [([], "u16")], []), ("Bb", "b'\\''", [([], "u8")], []), ("C", "b'b'..=b'z'", ["t", ([("Value", "selector")], "u8")], [])], est())
enums([("A", "0", [([("Value", "xa")], "u8"), ([("SkipBefore", "xb")], "u16")], []), ("Bb", "x if x == xa", ["t", ([("Cond", "xb > 3")], "Option<u16>")], [])], est(), tl=[("ExtraArgs", "xa: u8, xb: u8")], args="xa: u8 = (a >> 8) as u8, xb: u8 = b as u8")
# ---- fieldless enums
for q, (r, der, tl) in enumerate([("u8", "Nom", []), ("u16", "Nom", []), ("u16", "NomLE", []), ("u32", "NomBE", []), ("i16", "Nom", [("LittleEndian", None)]), ("u64", "Nom", [("Complete", None)]), ("u16", "Nom", [("PreExec", "let ($I, _) = u8::parse($I)?;"), ("PostExec", "let ($I, _) = u8::parse($I)?;"), ("Exact", None)])]):
    k += 1
    S = "X%d" % k
    for v, st in enumerate([PLAIN, St(spell="p", group="each"), St(inp="selector_"), St(inp="zz", group="rnd"), St(tdebug=1, group="empty"), St(inp="data", tdebug=1, spell="r")] + [St(dd=1)] * (q in (0, 3))):
        t = [(n_, None if z is None else z.replace("$I", st.inp)) for n_, z in tl]
        if st.inp != "i": t.append(("InputName", st.inp))
        if st.tdebug: t.insert(0, ("Debug", None))
        if st.dd: t.append(("DebugDerive", None))
        G = S if v == 0 else "%sv%d" % (S, v)
        print("#[derive(%s, Clone, Copy)] %s #[repr(%s)] pub enum %s { A = 1, Bb = 2, C = 100 }" % (der, lists(t, st), r, G))
        if v:
            print("impl Eqv<%s> for %s { fn eqv(&self, o: &%s) -> bool { *self as u64 == *o as u64 } }" % (S, G, S))
            print("tw!(x%dv%d, %s, %s);" % (k, v, S, G))
