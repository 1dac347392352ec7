# type-level declaration x field-level declaration x element form
TYPES = [("n", "Nom", ""), ("b", "Nom", "#[nom(BigEndian)]"), ("l", "Nom", "#[nom(LittleEndian)]"), ("nb", "NomBE", ""), ("nl", "NomLE", ""),
         ("bb", "NomBE", "#[nom(BigEndian)]"), ("ll", "NomLE", "#[nom(LittleEndian)]"), ("x", "NomBE", "#[nom(LittleEndian)]"), ("y", "NomLE", "#[nom(BigEndian)]")]
TE = dict(n="e", b="B", l="L", nb="B", nl="L", bb="B", ll="L")
# name: (field type, attributes, oracle expression with {E})
F = {
 "u16": ("u16", "", "r.g::<u16>({E})?"),
 "i64": ("i64", "", "r.g::<i64>({E})?"),
 "u128": ("u128", "", "r.g::<u128>({E})?"),
 "opt": ("Option<u32>", "", "r.g::<Option<u32>>({E})?"),
 "oarr": ("Option<[u16; 2]>", "", "r.g::<Option<[u16; 2]>>({E})?"),
 "arr": ("[u32; 2]", "", "r.g::<[u32; 2]>({E})?"),
 "arrp": ("[PU; 2]", "", "r.g::<[PU; 2]>({E})?"),
 "pair": ("PU", "", "r.g::<PU>({E})?"),
 "cond": ("Option<u32>", 'Cond = "k > 3"', "r.cond(k > 3, |r| r.g::<u32>({E}))?"),
 "ifi": ("Option<In>", 'If(k > 3)', "r.cond(k > 3, |r| r.g::<In>({E}))?"),
 "count": ("Vec<u16>", 'Count = "2"', "r.count(2, |r| r.g::<u16>({E}))?"),
 "counti": ("Vec<In>", 'Count(2usize)', "r.count(2, |r| r.g::<In>({E}))?"),
 "counto": ("Vec<PU>", 'Count = "2"', "r.count(2, |r| r.g::<PU>({E}))?"),
 "lcount": ("Vec<u16>", 'LengthCount = "small"', "{{ let n = r.g::<u8>(B)? & 3; r.count(n as usize, |r| r.g::<u16>({E}))? }}"),
 "cc": ("Option<Vec<u16>>", 'Cond = "k > 3", Count = "2"', "r.cond(k > 3, |r| r.count(2, |r| r.g::<u16>({E})))?"),
 "kc": ("Vec<Option<u16>>", 'Count = "2", Cond = "k > 3"', "r.count(2, |r| r.cond(k > 3, |r| r.g::<u16>({E})))?"),
 "map": ("u32", 'Map = "|v: u32| v ^ 5"', "r.g::<u32>({E})? ^ 5"),
 "into": ("u32", 'Into', "r.g::<u32>({E})?"),
 "ver": ("u16", 'Verify = "*{F} != 0x0102"', "r.verify(|r| r.g::<u16>({E}), |v| *v != 0x0102)?"),
 "comp": ("u32", 'Complete', "r.complete(|r| r.g::<u32>({E}))?"),
 "vc": ("u32", 'Verify(*{F} > 9), Complete', "r.verify(|r| r.complete(|r| r.g::<u32>({E})), |v| *v > 9)?"),
 "mc": ("Vec<u16>", 'Map = "|mut v: Vec<u16>| {{ v.reverse(); v }}", Count = "2"', "{{ let mut v = r.count(2, |r| r.g::<u16>({E}))?; v.reverse(); v }}"),
 "in": ("In", "", "r.g::<In>({E})?"),
 "inl": ("InL", "", "r.g::<InL>({E})?"),
 "inb": ("InB", "", "r.g::<InB>({E})?"),
 "kd": ("Kd", "", "r.g::<Kd>({E})?"),
 "tri": ("Tri", "", "r.g::<Tri>({E})?"),
 "otri": ("Option<Tri>", "", "r.g::<Option<Tri>>({E})?"),
 "ctri": ("Vec<Tri>", 'Count = "2"', "r.count(2, |r| r.g::<Tri>({E}))?"),
 "itri": ("Tri", 'Into', "r.g::<Tri>({E})?"),
 "ktri": ("Option<Tri>", 'Cond(k > 3), Verify({F}.v != 3)', "r.cond(k > 3, |r| r.verify(|r| r.g::<Tri>({E}), |v| v.v != 3))?"),
 "ltri": ("Vec<Tri>", 'LengthCount = "small"', "{{ let n = r.g::<u8>(B)? & 3; r.count(n as usize, |r| r.g::<Tri>({E}))? }}"),
 "mtri": ("Tri", 'Map = "|mut t: Tri| {{ t.v ^= 1; t }}", Complete', "{{ let mut t = r.complete(|r| r.g::<Tri>({E}))?; t.v ^= 1; t }}"),
 "dbg_n9": ("u16", 'Debug', "r.g::<u16>({E})?"),
 "dtri_n9": ("Vec<Tri>", 'Debug, Count = "1"', "r.count(1, |r| r.g::<Tri>({E}))?"),
 "okd": ("Option<Kd>", "", "r.g::<Option<Kd>>({E})?"),
}
print("pub fn small(i: &[u8]) -> IResult<&[u8], u8> { let (i, n) = <u8>::parse(i)?; Ok((i, n & 3)) }")
def attr(fe, at, k):
    l = [x for x in ([fe] if fe else []) + ([at] if at else [])]
    if not l:
        return ""
    if k % 3 == 0 or len(l) == 1:
        return "#[nom(%s)]" % ", ".join(l)
    if k % 3 == 1:
        return "#[nom(%s)]" % ", ".join(reversed(l)) if "," not in at else "#[nom(%s)] #[nom(%s)]" % (l[1], l[0])
    return " ".join("#[nom(%s)]" % x for x in l)
k = 0
for tn, der, ta in TYPES:
    if tn not in TE:
        continue
    for fn, (ty, at, orc) in F.items():
        k += 1
        if tn in ("bb", "ll") and k % 4:
            continue
        n = "%s_%s" % (tn, fn)
        S = "X_" + n
        fs, os = [], []
        for j, (fe, E) in enumerate((("", TE[tn]), ("BigEndian", "B"), ("LittleEndian", "L"))):
            fname = "f%d" % j
            fs.append("%s pub %s: %s" % (attr(fe, at.replace("{F}", fname).replace("{{", "{").replace("}}", "}"), k + j), fname, ty))
            os.append("%s: %s" % (fname, orc.format(E=E)))
        # a plain field at the end: declarations on the fields before it must not leak
        print("#[allow(non_camel_case_types)] #[derive(%s, PartialEq)] %s pub struct %s { pub k: u8, %s, pub z: u16 }" % (der, ta, S, ", ".join(fs)))
        print("t!(%s, %s, |r, e| { let k: u8 = r.g(e)?; %s { k, %s, z: r.g(%s)? } });" % (n, S, S, ", ".join(os), TE[tn]))
    # tuple struct
    S = "T_" + tn
    print("#[allow(non_camel_case_types)] #[derive(%s, PartialEq)] %s pub struct %s(pub u16, #[nom(BigEndian)] pub u32, #[nom(LittleEndian)] pub Option<u16>, pub [u16; 2], #[nom(LittleEndian)] pub [u16; 2], #[nom(BigEndian)] pub PU);" % (der, ta, S))
    t = TE[tn]
    print("t!(tup_%s, %s, |r, e| %s(r.g(%s)?, r.g(B)?, r.g(L)?, r.g(%s)?, r.g(L)?, r.g(B)?));" % (tn, S, S, t, t))
    # vectors are greedy: one field each
    for fe, E in (("", t), ("#[nom(BigEndian)]", "B"), ("#[nom(LittleEndian)]", "L")):
        for vn, vt in (("u", "u16"), ("i", "In"), ("l", "InL")):
            q = "%s_%s%s" % (tn, {"": "d", "B": "b", "L": "l"}.get(fe[6:7] if fe else "", "d"), vn)
            print("#[allow(non_camel_case_types)] #[derive(%s, PartialEq)] %s pub struct V_%s { pub k: u16, %s pub v: Vec<%s> }" % (der, ta, q, fe, vt))
            print("t!(v_%s_n8, V_%s, |r, e| V_%s { k: r.g(%s)?, v: r.g(%s)? });" % (q, q, q, t, E))
    # selector enum
    S = "E_" + tn
    print("""#[allow(non_camel_case_types)] #[derive(%(der)s, PartialEq)] %(ta)s #[nom(Selector = "u8")] pub enum %(S)s {
  #[nom(Selector = "0")] A { a: u16, #[nom(BigEndian)] b: u32, #[nom(LittleEndian)] c: u32, d: Option<u16> },
  #[nom(Selector = "1")] B(#[nom(LittleEndian)] u16, u32, #[nom(BigEndian)] PU, #[nom(LittleEndian, Count = "2")] Vec<u16>),
  #[nom(Selector = "2")] C(In),
  #[nom(Selector = "3")] D(#[nom(LittleEndian)] In),
  #[nom(Selector = "4")] F(#[nom(BigEndian)] In, InL),
  #[nom(Selector = "_")] G { #[nom(Cond = "selector > 100")] a: Option<u64>, b: [u16; 2] },
}
hx!(en_%(tn)s, %(S)s, |a, b| (s: u8 = a as u8), |r, e| match s {
  0 => %(S)s::A { a: r.g(%(t)s)?, b: r.g(B)?, c: r.g(L)?, d: r.g(%(t)s)? },
  1 => %(S)s::B(r.g(L)?, r.g(%(t)s)?, r.g(B)?, r.count(2, |r| r.g(L))?),
  2 => %(S)s::C(r.g(%(t)s)?),
  3 => %(S)s::D(r.g(L)?),
  4 => %(S)s::F(r.g(B)?, r.g(%(t)s)?),
  _ => %(S)s::G { a: r.cond(s > 100, |r| r.g(%(t)s))?, b: r.g(%(t)s)? },
});""" % dict(der=der, ta=ta, S=S, tn=tn, t=t))
    # fieldless enums
    for rp, vals in (("u16", (0x0102, 0x0201, 7)), ("u32", (1, 0x01000000, 0x7fff0000)), ("i16", (-2, 256, -257)), ("u64", (1, 2**40, 2**56)), ("i32", (-1, 5, 0x05000000)), ("u8", (1, 2, 255)), ("i64", (-5, 1, 2**60)), ("i8", (-5, 1, 100))):
        S = "K_%s_%s" % (tn, rp)
        print("#[allow(non_camel_case_types)] #[derive(%s, PartialEq, Debug, Clone, Copy)] %s #[repr(%s)] pub enum %s { P = %d, Q = %d, R = %d }" % (der, ta, rp, S, *vals))
        print("t!(k_%s_%s, %s, |r, e| { let p = r.pos; match r.g::<%s>(%s)? { %d => %s::P, %d => %s::Q, %d => %s::R, _ => return Err(F::Err(ErrorKind::Switch, p)) } });" % (tn, rp, S, rp, t, vals[0], S, vals[1], S, vals[2], S))
    # floats
    S = "Fl_" + tn
    print("#[allow(non_camel_case_types)] #[derive(%s)] %s pub struct %s { pub a: f32, #[nom(BigEndian)] pub b: f64, #[nom(LittleEndian)] pub c: f32, pub d: f64 }" % (der, ta, S))
    print("bits_eq!(%s; a b c d);" % S)
    print("t!(fl_%s, %s, |r, e| %s { a: r.g(%s)?, b: r.g(B)?, c: r.g(L)?, d: r.g(%s)? });" % (tn, S, S, t, t))
# ---- attributes of every kind combined at random, each definition with one of these
import genmix
genmix.mix(["endian"], 50)
