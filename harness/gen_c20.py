"""the user's parsers in every position where a derived parser or a provided one calls an element"""
U = ("OnlyP", "NoLe", "NoBe")
print("pub fn small(i: &[u8]) -> IResult<&[u8], u8> { let (i, n) = <u8>::parse(i)?; Ok((i, n & 3)) }")
for u in U:
    n = u.lower()
    print("pub type Pr%s = (%s, u16);" % (u, u))
    for nm, t in (("", "%s"), ("o", "Option<%s>"), ("v_n7", "Vec<%s>"), ("p", "(%s, u16)"), ("q", "(u8, %s)"), ("a", "[%s; 2]"), ("oo", "Option<Option<%s>>"), ("vo_n6", "Vec<(%s, u8)>")):
        print("h3!(c_%s%s, %s);" % (n, nm, t % u))
CTX = {
 "f": ("{U}", "", "r.g::<{U}>({E})?"),
 "o": ("Option<{U}>", "", "r.g::<Option<{U}>>({E})?"),
 "a": ("[{U}; 2]", "", "r.g::<[{U}; 2]>({E})?"),
 "p": ("Pr{U}", "", "r.g::<({U}, u16)>({E})?"),
 "c": ("Vec<{U}>", 'Count = "2"', "r.count(2, |r| r.g::<{U}>({E}))?"),
 "k": ("Option<{U}>", 'Cond(k > 3)', "r.cond(k > 3, |r| r.g::<{U}>({E}))?"),
 "l": ("Vec<{U}>", 'LengthCount = "small"', "{ let n = r.g::<u8>(B)? & 3; r.count(n as usize, |r| r.g::<{U}>({E}))? }"),
 "i": ("{U}", 'Into', "r.g::<{U}>({E})?"),
 "m": ("{U}", 'Map(|t: {U}| {U}(t.0, t.1 ^ 5))', "{ let t: {U} = r.g({E})?; {U}(t.0, t.1 ^ 5) }"),
 "v": ("{U}", 'Verify({F}.1 != 3)', "r.verify(|r| r.g::<{U}>({E}), |v| v.1 != 3)?"),
 "x": ("{U}", 'Complete', "r.complete(|r| r.g::<{U}>({E}))?"),
 "d": ("{U}", 'Debug', "r.g::<{U}>({E})?"),
}
TY = [("n", "Nom", "", "e"), ("b", "NomBE", "", "B"), ("l", "NomLE", "", "L"), ("s", "Nom", "#[nom(LittleEndian)]", "L"), ("t", "Nom", "#[nom(BigEndian)]", "B")]
for u in U:
    for tn, der, ta, TE in TY:
        for cn, (ty, at, orc) in CTX.items():
            if tn in "st" and cn not in "focm":
                continue
            S = "%s_%s_%s" % (u, tn, cn)
            fs, os = [], []
            for j, (fe, E) in enumerate((("", TE), ("BigEndian", "B"), ("LittleEndian", "L"))):
                f = "f%d" % j
                sub = lambda x: x.replace("{U}", u).replace("{E}", E).replace("{F}", f)
                l = ", ".join(x for x in (fe, sub(at)) if x)
                fs.append("%s pub %s: %s" % ("#[nom(%s)]" % l if l else "", f, sub(ty)))
                os.append("%s: %s" % (f, sub(orc)))
            print("#[allow(non_camel_case_types)] #[derive(%s, PartialEq)] %s pub struct %s { pub k: u8, %s, pub z: u16 }" % (der, ta, S, ", ".join(fs)))
            print("t!(%s, %s, |r, e| { let k: u8 = r.g(e)?; %s { k, %s, z: r.g(%s)? } });" % (S.lower(), S, S, ", ".join(os), TE))
        # tuple struct, newtype, vector at the end, variants of a selector enum
        S = "%s_%s" % (u, tn)
        d = "#[allow(non_camel_case_types)] #[derive(%s, PartialEq)] %s " % (der, ta)
        print(d + "pub struct N%s(pub %s);" % (S, u))
        print("t!(n%s, N%s, |r, e| N%s(r.g(%s)?));" % (S.lower(), S, S, TE))
        print(d + "pub struct V%s { pub h: u8, pub v: Vec<%s> }" % (S, u))
        print("t!(v%s_n6, V%s, |r, e| V%s { h: r.g(e)?, v: r.g(%s)? });" % (S.lower(), S, S, TE))
        print(d + '#[nom(Selector = "u8")] pub enum E%s { #[nom(Selector = "1")] A(%s), #[nom(Selector = "2")] B { x: u16, #[nom(LittleEndian)] y: %s }, #[nom(Selector = "_")] C(#[nom(BigEndian)] %s, Option<%s>) }' % (S, u, u, u, u))
        print("hx!(e%s, E%s, |a, b| (s: u8 = a as u8), |r, e| match s { 1 => E%s::A(r.g(%s)?), 2 => E%s::B { x: r.g(%s)?, y: r.g(L)? }, _ => E%s::C(r.g(B)?, r.g(%s)?) });" % (S.lower(), S, S, TE, S, TE, S, TE))
    # run-time endianness
    print('#[allow(non_camel_case_types)] #[derive(Nom, PartialEq)] pub struct Se_%s { pub h: u8, pub a: %s, #[nom(SetEndian = "if h & 1 == 0 { nom::number::Endianness::Big } else { nom::number::Endianness::Little }")] pub b: %s, #[nom(BigEndian)] pub c: %s, pub d: Option<%s>, #[nom(Count = "2")] pub f: Vec<%s> }' % (u, u, u, u, u, u))
    print("t!(se_%s, Se_%s, |r, e| { let h: u8 = r.g(e)?; let x = if h & 1 == 0 { B } else { L }; Se_%s { h, a: r.g(e)?, b: r.g(x)?, c: r.g(B)?, d: r.g(x)?, f: r.count(2, |r| r.g(x))? } });" % (u.lower(), u, u))
