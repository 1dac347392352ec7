F = [
 ("u16", "", "r.g::<u16>({E})?"), ("i64", "", "r.g::<i64>({E})?"), ("Option<u32>", "", "r.g::<Option<u32>>({E})?"), ("[u16; 2]", "", "r.g::<[u16; 2]>({E})?"),
 ("PU", "", "r.g::<PU>({E})?"), ("In", "", "r.g::<In>({E})?"), ("InL", "", "r.g::<InL>({E})?"), ("Kd", "", "r.g::<Kd>({E})?"),
 ("Option<u32>", 'Cond = "k > 3"', "r.cond(k > 3, |r| r.g::<u32>({E}))?"),
 ("Vec<u16>", 'Count = "2"', "r.count(2, |r| r.g::<u16>({E}))?"),
 ("Vec<In>", 'Count(2u8)', "r.count(2, |r| r.g::<In>({E}))?"),
 ("Vec<u16>", 'LengthCount = "small"', "{{ let n = r.g::<u8>(B)? & 3; r.count(n as usize, |r| r.g::<u16>({E}))? }}"),
 ("Option<Vec<u16>>", 'If = "k > 3", Count = "2"', "r.cond(k > 3, |r| r.count(2, |r| r.g::<u16>({E})))?"),
 ("u32", 'Map = "|v: u32| v ^ 5"', "r.g::<u32>({E})? ^ 5"),
 ("u32", 'Into', "r.g::<u32>({E})?"),
 ("u16", 'Verify = "*{N} != 0x0102"', "r.verify(|r| r.g::<u16>({E}), |v| *v != 0x0102)?"),
 ("u32", 'Complete', "r.complete(|r| r.g::<u32>({E}))?"),
 ("i16", 'Complete, Verify(*{N} > 9)', "r.complete(|r| r.verify(|r| r.g::<i16>({E}), |v| *v > 9))?"),
 ("u128", "", "r.g::<u128>({E})?"), ("Option<[u16; 3]>", "", "r.g::<Option<[u16; 3]>>({E})?"),
]
def body(der, ta, S, at, pos):
    """four fields, SetEndian on number pos (None: on the type)"""
    base = {"Nom": "e", "NomBE": "B", "NomLE": "L"}[der]
    fs, os = ["pub k: u8"], []
    for j in range(4):
        ty, att, orc = F[(at + j) % len(F)]
        att = att.replace("{N}", "f%d" % j)
        l = []
        E = "x" if pos is None or j >= pos else base
        if pos == j:
            l.append("SetEndian(s)" if at % 2 else 'SetEndian = "s"')
        elif at % 4 == 1 and j == 2:
            l.append("BigEndian"); E = "B"
        elif at % 4 == 3 and j == 3:
            l.append("LittleEndian"); E = "L"
        if att:
            l.insert(0 if at % 3 else len(l), att)
        fs.append("%s pub f%d: %s" % ("#[nom(%s)]" % ", ".join(l) if l else "", j, ty))
        os.append("f%d: %s" % (j, orc.format(E=E)))
    print("#[allow(non_camel_case_types)] #[derive(%s, PartialEq)] %s pub struct %s { %s }" % (der, ta, S, ", ".join(fs)))
    print("hx!(%s, %s, |a, b| (s: Endianness = en(a)), |r, e| { let x = oe(s); let k: u8 = r.g(B)?; %s { k, %s } });" % (S.lower(), S, S, ", ".join(os)))
for at in range(len(F)):
    body("Nom", "#[nom(ExtraArgs(s: Endianness), SetEndian(s))]" if at % 2 else '#[nom(SetEndian = "s")] #[nom(ExtraArgs(s: Endianness))]', "T%d" % at, at, None)
    body(["Nom", "NomBE", "NomLE"][at % 3], "#[nom(ExtraArgs(s: Endianness))]", "F%d" % at, at, at % 4)
    body(["Nom", "NomBE", "NomLE"][(at + 1) % 3], "#[nom(ExtraArgs(s: Endianness))]", "H%d" % at, at, (at + 2) % 4)
for j, (vt, o) in enumerate((("u16", "u16"), ("In", "In"), ("Kd", "Kd"), ("[u16; 2]", "[u16; 2]"))):
    print("#[derive(Nom, PartialEq)] #[nom(ExtraArgs(s: Endianness), SetEndian(s))] pub struct V%d { pub h: u16, pub v: Vec<%s> }" % (j, vt))
    print("hx!(v%d_n9, V%d, |a, b| (s: Endianness = en(a)), |r, e| { let x = oe(s); V%d { h: r.g(x)?, v: r.g(x)? } });" % (j, j, j))
# ---- attributes of every kind combined at random, each definition with one of these
import genmix
genmix.mix(["SetEndian"], 50)
