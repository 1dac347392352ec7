import random
rng = random.Random(12)
# (pattern, condition on s) for u8
P8 = [("0", "s == 0"), ("1", "s == 1"), ("0x10", "s == 16"), ("255", "s == 255"), ("b'A'", "s == 65"), ("2..=9", "(2..=9).contains(&s)"), ("5..=20", "s >= 5 && s <= 20"), ("200..", "s >= 200"), ("..=3", "s <= 3"), ("x if x & 1 == 1", "s & 1 == 1"), ("x if even(x)", "s & 1 == 0"),
      ("_ if k > 7", "k > 7"), ("x @ 30..=60 if x != 40", "s >= 30 && s <= 60 && s != 40"), ("C1", "s == 1"), ("consts::C2", "s == 2"), ("consts::LO..=consts::HI", "s >= 100 && s <= 110"), ("(3 | 4)", "s == 3 || s == 4"), ("n if n as u16 > k", "s as u16 > k"), ("(0 | 255)", "s == 0 || s == 255"), ("7u8", "s == 7"), ("y if y == 9 && k == 0", "s == 9 && k == 0")]
B = [("named", "{{ a: u8, b: u16 }}", "{E}::{V} {{ a: r.g({e})?, b: r.g({e})? }}"), ("tuple", "(u16, u8)", "{E}::{V}(r.g({e})?, r.g({e})?)"), ("unit", "", "{E}::{V}"), ("attr", "{{ n: u8, #[nom(Count = \"n & 1\")] v: Vec<u16> }}", "{{ let n: u8 = r.g({e})?; {E}::{V} {{ n, v: r.count((n & 1) as usize, |r| r.g({e}))? }} }}"),
     ("nest", "(In)", "{E}::{V}(r.g({e})?)"), ("opt", "(u8, Option<u16>)", "{E}::{V}(r.g({e})?, r.g({e})?)"), ("le", "{{ #[nom(LittleEndian)] a: u16, b: u16 }}", "{E}::{V} {{ a: r.g(L)?, b: r.g({e})? }}"), ("be", "(#[nom(BigEndian)] u32)", "{E}::{V}(r.g(B)?)"), ("sel", "{{ #[nom(Value(selector))] s: u8, t: u8 }}", "{E}::{V} {{ s, t: r.g({e})? }}"),
     ("skip", "(#[nom(SkipBefore(1))] u8, #[nom(AlignAfter(4))] u8)", "{{ r.skip(1)?; let a = r.g({e})?; let b = r.g({e})?; r.align(4)?; {E}::{V}(a, b) }}"), ("ver", "{{ #[nom(Verify(*a != 3))] a: u8, #[nom(ErrorIf(a == 9))] z: u8 }}", "{{ let a: u8 = r.verify(|r| r.g({e}), |a: &u8| *a != 3)?; r.error_if(a == 9)?; {E}::{V} {{ a, z: r.g({e})? }} }}"),
     ("unitp", "!digit", "{{ o_digit(r)?; {E}::{V} }}"), ("xarg", "(#[nom(Cond = \"k > 100\")] Option<u8>)", "{E}::{V}(r.cond(k > 100, |r| r.g({e}))?)"), ("ign", "{{ #[nom(Ignore)] x: u32, y: i8 }}", "{E}::{V} {{ x: 0, y: r.g({e})? }}"), ("empty", "()", "{E}::{V}()")]
for n in range(48):
    nv = 1 + n % 9
    wild = n % 3 != 0
    pats = rng.sample(P8, nv)
    vs = [(p, c) for p, c in pats]
    if wild:
        vs.insert([0, len(vs), len(vs) // 2, 1][n // 3 % 4], ("_", "true"))
    der, e = [("Nom", "e"), ("NomBE", "B"), ("NomLE", "L")][n % 3 if n > 20 else 0]
    E = "G%d" % n
    out, arms, last = [], [], None
    for j, (p, c) in enumerate(vs):
        nm, body, orc = B[(n * 5 + j * 3) % len(B)]
        V = "V%d" % j
        par = ""
        if body.startswith("!"):
            par, body = ', Parse = "%s"' % body[1:], ""
        sp = 'Selector = "%s"' % p if (n + j) % 2 or p == "_" and n % 2 else "Selector(%s)" % (p.strip("()") if "|" in p else p)
        par = par[2:]
        at = "#[nom(%s)]" % sp if not par else ["#[nom(%s, %s)]" % (sp, par), "#[nom(%s, %s)]" % (par, sp), "#[nom(%s)] #[nom(%s)]" % (par, sp), "#[nom()] #[nom(%s)] #[nom(%s)]" % (sp, par)][(n + j) % 4]
        out.append("%s %s%s" % (at, V, " " + body.format() if body.startswith("{") else body))
        o = orc.format(E=E, V=V, e=e)
        if p == "_":
            last = o
        else:
            arms.append("if %s { %s }" % (c, o))
    arms.append("{ %s }" % (last or "sw!(r)"))
    tl = ["Selector = \"u8\", ExtraArgs(k: u16)", "ExtraArgs(k: u16), Selector(u8)", "ExtraArgs(k: u16))] #[nom(Selector = \"u8\""][n % 3]
    print("#[allow(dead_code, unreachable_patterns, unused_variables)] #[derive(%s, PartialEq)] #[nom(%s)] pub enum %s { %s }" % (der, tl, E, ", ".join(out)))
    print("hx!(%sg%d_n12, %s, |a, b| (s: u8 = a as u8, k: u16 = b as u16), |r, e| %s);" % ("", n, E, " else ".join(arms)))
# wider and signed selectors, many variants
for t, ps in (("u16", ["0", "300", "0xffff", "1000..=2000", "x if x & 0xff == 7", "_"]), ("u32", ["0x01020304", "x if x >> 24 == 9", "7..=9", "_"]), ("u64", ["1 ", "0xffff_ffff_ffff_ffff", "5"]), ("i8", ["-1", "-128..=-100", "x if x < 0", "127", "_"]), ("i16", ["-300", "i16::MIN..=-1000", "0", "x if x % 2 == 0"]), ("i32", ["-1", "0", "1", "_"]), ("i64", ["-1", "x if x > 5"]), ("u128", ["3", "_"]), ("char", ["'a'", "'b'..='f'", "'\\u{e9}'", "_"])):
    S = "W" + t
    cs = []
    for j, p in enumerate(ps):
        if p != "_":
            cs.append("if matches!(s, %s) { %s::V%d(r.g(e)?) }" % (p, S, j))
    cs.append("{ %s }" % ("%s::V%d(r.g(e)?)" % (S, len(ps) - 1) if ps[-1] == "_" else "sw!(r)"))
    print("#[derive(Nom, PartialEq)] #[nom(Selector = \"%s\")] pub enum %s { %s }" % (t, S, ", ".join('#[nom(Selector = "%s")] V%d(%s)' % (p.replace("\\", "\\\\"), j, ["u8", "u16", "i32", "In"][j % 4]) for j, p in enumerate(ps))))
    cast = "a as %s" % t if t not in ("char", "u128") else "(a as u8) as char" if t == "char" else "(a as u128) << 64 | b as u128"
    print("hx!(w_%s, %s, |a, b| (s: %s = %s), |r, e| %s);" % (t, S, t, cast, " else ".join(cs)))
# one long enum, wildcard first / in the middle
for w in (0, 11, 23):
    S = "Lg%d" % w
    order = list(range(24))
    vs = []
    for j in order:
        if j == w:
            vs.append('#[nom(Selector = "_")] D(u16)')
        else:
            vs.append('#[nom(Selector = "%s")] V%d(%s)' % ("x if x %% 24 == %d" % j if j % 5 == 0 else "%d..=%d" % (j * 7, j * 7 + 9), j, "u8" if j % 2 else "In"))
    cs = ["if %s { %s::V%d(r.g(e)?) }" % ("s %% 24 == %d" % j if j % 5 == 0 else "s >= %d && s <= %d" % (j * 7, j * 7 + 9), S, j) for j in order if j != w] + ["{ %s::D(r.g(e)?) }" % S]
    print("#[derive(Nom, PartialEq)] #[nom(Selector = \"u8\")] pub enum %s { %s }" % (S, ", ".join(vs)))
    print("hx!(lg%d, %s, |a, b| (s: u8 = a as u8), |r, e| %s);" % (w, S, " else ".join(cs)))
# the selector is found wherever it stands among the attributes of a variant
print("""#[derive(Nom, PartialEq)] #[nom(Selector = "u8")] pub enum Anyw { #[nom(SkipBefore(1), Selector = "0")] A, #[nom(Parse = "digit", Selector = "3")] B, #[nom(PreExec = "let (i, _) = u16::parse(i)?;")] #[nom(Selector = "7")] C, #[nom(SkipAfter(2))] #[nom(SkipBefore(1), Selector(9))] D, #[nom(Parse(digit))] #[nom(SkipAfter(1))] #[nom(Selector = "x if x > 99")] F, #[nom(Move(1), Selector(_), SkipAfter(1))] G }
hx!(anyw, Anyw, |a, b| (s: u8 = a as u8), |r, e| match s { 0 => { r.skip(1)?; Anyw::A } 3 => { o_digit(r)?; Anyw::B } 7 => { r.skip(2)?; Anyw::C } 9 => { r.skip(1)?; r.skip(2)?; Anyw::D } x if x > 99 => { o_digit(r)?; r.skip(1)?; Anyw::F } _ => { r.mv(1)?; r.skip(1)?; Anyw::G } });""")
# ---- attributes of every kind combined at random, each definition with one of these
import genmix
genmix.mix(["Selector"], 50)
