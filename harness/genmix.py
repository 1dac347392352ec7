"""Definitions combining attributes of every kind, at the level of the type and of the fields, with the oracle
composed from the documented meaning of each.  `mix(focus, n)` prints n definitions that all use an attribute of
`focus`; the choice of the rest is fixed by a seed, so the corpus is the same on every run."""
import os, random

HELPERS = """
#[derive(Nom, PartialEq, Debug, Clone, Copy, Default)] pub struct MxIn { pub a: u8, #[nom(AlignBefore(2))] pub b: u16 }
r!(MxIn, |r, e| { let a = r.g(e)?; r.align(2)?; MxIn { a, b: r.g(e)? } });
#[derive(NomLE, PartialEq, Debug, Clone, Copy, Default)] pub struct MxL(pub u16);
r!(MxL, |r, _e| MxL(r.g(L)?));
#[derive(Nom, PartialEq, Debug, Clone, Copy, Default)] #[repr(u16)] pub enum MxK { #[default] A = 1, B = 0x100, C = 7 }
r!(MxK, |r, e| { let p = r.pos; match r.g::<u16>(e)? { 1 => MxK::A, 0x100 => MxK::B, 7 => MxK::C, _ => return Err(F::Err(ErrorKind::Switch, p)) } });
pub type MxP = (u8, u16);
pub fn mx_small(i: &[u8]) -> IResult<&[u8], u8> { let (i, n) = <u8>::parse(i)?; Ok((i, n & 3)) }
pub fn mx_three(i: &[u8]) -> IResult<&[u8], u32> { let (i, n) = <[u8; 3]>::parse(i)?; Ok((i, n[0] as u32 | (n[1] as u32) << 8 | (n[2] as u32) << 16)) }
"""
INTS = ["u8", "u16", "u32", "i16", "u64", "i8", "u128"]
BASE = ["u8", "u8", "u16", "u16", "u32", "i16", "u64", "Option<u16>", "[u16; 2]", "MxIn", "MxL", "MxK", "MxP", "Option<MxIn>", "Tri"]
PRE = ["AlignBefore", "SkipBefore", "Move", "MoveAbs", "ErrorIf", "PreExec"]
POST = ["AlignAfter", "SkipAfter", "PostExec"]
WRAP = ["Cond", "Count", "LengthCount", "Complete", "Map", "Into", "Verify", "Debug"]
LEAF = ["Take", "Tag", "Value", "Ignore", "Parse"]


class Mix:
    def __init__(self, focus, seed):
        self.rnd = random.Random("%s/%s" % (seed, ",".join(focus)))
        self.focus = focus
        self.k = 0

    def p(self, x):
        return self.rnd.random() < x

    def one(self, *l):
        return self.rnd.choice(l)

    def attr(self, name, x=None):
        if x is None:
            return name
        if self.p(.5):
            return '%s = "%s"' % (name, x.replace("\\", "\\\\").replace('"', '\\"'))
        return "%s(%s)" % (name, x)

    def group(self, l):
        """the attributes, in one or several nom lists"""
        if not l:
            return ""
        out, cur = [], []
        for a in l:
            cur.append(a)
            if self.p(.3):
                out.append(cur)
                cur = []
        if cur:
            out.append(cur)
        return " ".join("#[nom(%s)]" % ", ".join(c) for c in out) + " "

    def val(self, lo, hi):
        """a small run-time or constant number"""
        c = [str(self.rnd.randint(lo, hi))] * 2 + ["(%s & %d)" % (v, self.one(1, 3)) for v in self.ints]
        return self.rnd.choice(c)

    def cond(self):
        c = ["%s & 1 == 0" % v for v in self.ints] + ["%s < 100" % v for v in self.ints]
        return self.rnd.choice(c) if c else self.one("true", "false")

    # -------------------------------------------------- one field
    def chain(self, ty, E, wraps, fname, named):
        """(type, attributes, oracle expression) of a field with these wrappers, outermost first"""
        if not wraps:
            return ty, [], "r.g::<%s>(%s)?" % (ty, E)
        w, rest = wraps[0], wraps[1:]
        t, at, orc = self.chain(ty, E, rest, fname, named)
        cl = "|r| Ok::<%s, F>(%s)" % (t, orc)
        if w == "Complete":
            return t, ["Complete"] + at, "r.complete(%s)?" % cl
        if w == "Debug":
            return t, ["Debug"] + at, orc
        if w == "Into":
            return t, ["Into"] + at, orc
        if w == "Map":
            return t, [self.attr("Map", "|v: %s| v ^ 5" % t)] + at, "{ let v: %s = %s; v ^ 5 }" % (t, orc)
        if w == "Verify":
            n = self.rnd.randint(0, 200 if t != "i8" else 100)
            c = self.one("!=", "<", ">=")
            return t, [self.attr("Verify", "*%s %s %d" % (fname, c, n))] + at, "r.verify(%s, |v| *v %s %d)?" % (cl, c, n)
        if w == "Cond":
            c = self.cond()
            return "Option<%s>" % t, [self.attr(self.one("Cond", "If"), c)] + at, "r.cond(%s, %s)?" % (c, cl)
        if w == "Count":
            n = self.val(0, 3)
            return "Vec<%s>" % t, [self.attr("Count", n)] + at, "r.count((%s) as usize, %s)?" % (n, cl)
        if w == "LengthCount":
            return "Vec<%s>" % t, [self.attr("LengthCount", "mx_small")] + at, "{ let n = r.g::<u8>(B)? & 3; r.count(n as usize, %s)? }" % cl
        raise KeyError(w)

    def field(self, j, named, must):
        """(attributes, type, oracle statements); `must`: attribute names to use"""
        tl = self.tl
        fname = "f%d" % j if named else "_%d" % j
        fe = self.one("", "", "", "BigEndian", "LittleEndian") if "endian" not in must else self.one("BigEndian", "LittleEndian")
        pre = [d for d in PRE if d in must or self.p(.07)]
        post = [d for d in POST if d in must or self.p(.06)]
        self.rnd.shuffle(pre)
        self.rnd.shuffle(post)
        se = tl["nom"] and not tl["end"] and not fe and ("SetEndian" in must or (self.seok and self.p(.12)))
        leaf = next((l for l in LEAF if l in must), None) or (self.one(*LEAF) if self.p(.15) else None)
        wraps = [w for w in WRAP if w in must]
        for w in WRAP:
            if w not in wraps and self.p(.13):
                wraps.append(w)
        self.rnd.shuffle(wraps)
        if "Map" in wraps:
            wraps.remove("Map")
            wraps.append("Map")
        if "Verify" in wraps:
            wraps.remove("Verify")
            wraps.insert(len(wraps) - (1 if "Map" in wraps and self.p(.5) else 0), "Verify")
        if not named:
            wraps = [w for w in wraps if w not in ("Debug", "Verify")]
        if sum(w in ("Count", "LengthCount") for w in wraps) == 2 and "Count" not in must:
            wraps.remove("Count")
        ia = "Map" in wraps or "Verify" in wraps
        # pre- and post-directives with their oracle
        pa, ps = [], ""
        cA = tl["complete"]
        done = lambda s: ("r.complete(|r| { %s Ok(()) })?;" % s) if cA else s
        inp = tl["inp"]
        sep = self.rnd.randint(0, len(pre)) if se else -1
        for q, d in enumerate(pre + [None]):
            if q == sep:
                c = self.cond()
                pa.append(self.attr("SetEndian", "if %s { Endianness::Big } else { Endianness::Little }" % c))
                ps += "let se = if %s { B } else { L }; " % c
            if d is None:
                break
            if d == "AlignBefore":
                n = self.one("2", "4", "3") if not self.ints or self.p(.6) else self.val(0, 3)
                pa.append(self.attr(d, n)); ps += done("r.align((%s) as usize)?;" % n) + " "
            elif d == "SkipBefore":
                n = self.val(0, 2)
                pa.append(self.attr(d, n)); ps += done("r.skip((%s) as usize)?;" % n) + " "
            elif d == "Move":
                n = self.one("-1", "1", "-2") if not self.ints or self.p(.5) else "%s as i8 %% 4" % self.rnd.choice(self.ints)
                pa.append(self.attr(d, n)); ps += done("r.mv((%s) as isize)?;" % n) + " "
                self.moves = True
            elif d == "MoveAbs":
                n = self.val(0, 5)
                pa.append(self.attr(d, n)); ps += done("r.mvabs((%s) as usize)?;" % n) + " "
                self.moves = True
            elif d == "ErrorIf":
                c = self.cond()
                pa.append(self.attr(d, c)); ps += "r.error_if(%s)?; " % c
            else:
                v = "p%d" % j
                pa.append(self.attr(d, "let (%s, %s) = u8::parse_be(%s)?;" % (inp, v, inp))); ps += "let %s: u8 = r.g(B)?; " % v
                self.ints.append(v)
        E = fe[0] if fe else "se" if se or self.se else tl["E"]
        if se:
            self.se = True
        # the parser itself
        if leaf == "Take":
            ty, n = "&'a [u8]", self.val(0, 3)
            at, orc = [self.attr("Take", n)], "r.take((%s) as usize)?" % n
            self.lt = True
        elif leaf == "Tag":
            ty, s = "&'a [u8]", self.one('b"A"', 'b"AB"', "[7u8]", "[1u8, 2]")
            at, orc = [self.attr("Tag", s)], "r.tag(&%s[..])?" % s
            self.lt = True
        elif leaf == "Value":
            n = self.val(0, 9)
            ty, at, orc = "u32", [self.attr("Value", "(%s) as u32" % n)], "(%s) as u32" % n
        elif leaf == "Ignore":
            ty = self.one("u16", "Option<u8>", "Vec<u8>", "MxIn", "PhantomData<u8>") if self.p(.8) else "MxK"
            at, orc = [self.one("Ignore", "Default")], "Default::default()"
        elif leaf == "Parse":
            ty = "u32"
            at, orc = [self.attr("Parse", "mx_three")], "{ let n: [u8; 3] = r.g(B)?; n[0] as u32 | (n[1] as u32) << 8 | (n[2] as u32) << 16 }"
        if leaf:
            wr = [w for w in wraps if w in ("Complete", "Debug") and (w != "Debug" or named)]
            if leaf == "Parse":
                wr = [w for w in wraps if w in ("Complete", "Debug", "Verify", "Map", "Cond", "Count")]
            base = (ty, at, orc)
            for w in reversed(wr):
                t, a, o = base
                if w == "Complete":
                    base = t, ["Complete"] + a, "r.complete(|r| Ok::<%s, F>(%s))?" % (t, o)
                elif w == "Debug":
                    base = t, ["Debug"] + a, o
                elif w == "Verify":
                    base = t, [self.attr("Verify", "*%s & 1 == 0" % fname)] + a, "r.verify(|r| Ok::<%s, F>(%s), |v| *v & 1 == 0)?" % (t, o)
                    if t != "u32":
                        base = t, a, o
                elif w == "Map":
                    base = (t, [self.attr("Map", "|v: u32| v ^ 5")] + a, "(%s) ^ 5" % o) if t == "u32" else base
                elif w == "Cond":
                    c = self.cond()
                    base = "Option<%s>" % t, [self.attr("Cond", c)] + a, "r.cond(%s, |r| Ok::<%s, F>(%s))?" % (c, t, o)
                elif w == "Count":
                    n = self.val(0, 2)
                    base = "Vec<%s>" % t, [self.attr("Count", n)] + a, "r.count((%s) as usize, |r| Ok::<%s, F>(%s))?" % (n, t, o)
            ty, at, orc = base
        else:
            ty, at, orc = self.chain(self.one(*INTS) if ia else self.one(*BASE), E, wraps, fname, named)
        if cA:
            orc = "r.complete(|r| Ok::<%s, F>(%s))?" % (ty, orc)
        body = ps + "let %s: %s = %s; " % (fname, ty, orc)
        if leaf is None and not wraps and ty in INTS and ty != "u128":
            self.ints.append(fname)
        # after it
        qa = []
        for d in post:
            if d == "AlignAfter":
                n = self.one("2", "4", "3") if not self.ints or self.p(.6) else self.val(0, 3)
                qa.append(self.attr(d, n)); body += done("r.align((%s) as usize)?;" % n) + " "
            elif d == "SkipAfter":
                n = self.val(0, 2)
                qa.append(self.attr(d, n)); body += done("r.skip((%s) as usize)?;" % n) + " "
            else:
                v = "q%d" % j
                qa.append(self.attr(d, "let (%s, %s) = u8::parse_be(%s)?;" % (inp, v, inp))); body += "let %s: u8 = r.g(B)?; " % v
                self.ints.append(v)
        # interleave: the order inside each group is kept
        groups = [g for g in (pa, at, qa, [fe] if fe else []) if g]
        alla = []
        while groups:
            g = self.rnd.choice(groups)
            alla.append(g.pop(0))
            groups = [g for g in groups if g]
        return self.group(alla), ty, fname, body

    def fields(self, n, named, musts):
        """source of the fields, oracle statements, constructor"""
        src, body, names = [], "", []
        for j in range(n):
            a, ty, f, b = self.field(j, named, [m for i, m in musts if i == j])
            src.append("%s\0%s%s" % (a, f + ": " if named else "", ty))
            body += b
            names.append(f)
        con = "{ %s }" % ", ".join(names) if named else "(%s)" % ", ".join(names)
        return src, body, con

    # -------------------------------------------------- one definition
    def definition(self):
        self.k += 1
        enum = "Selector" in self.focus or ("Selector" not in self.focus and self.p(.25))
        named = self.p(.7)
        must_field = [m for m in self.focus if m in PRE + POST + WRAP + LEAF + ["endian"] or m == "SetEndian"]
        m = [self.rnd.choice(must_field)] if must_field else []
        if not enum and any(x in ("Verify", "Debug") for x in m):
            named = True
        tl = self.tl = {}
        tlm = [x[3:] for x in self.focus if x.startswith("TL:")]
        if tlm and (not m or self.p(.4)):
            forced, m = self.rnd.choice(tlm), []
        else:
            forced = None
        want = lambda x, pr: forced == x or self.p(pr)
        der = self.one("Nom", "Nom", "NomBE", "NomLE")
        tle = self.one("", "", "BigEndian", "LittleEndian") if der == "Nom" else ""
        if "SetEndian" in self.focus:
            der, tle = "Nom", ""
        tl["nom"], tl["end"] = der == "Nom", tle
        tl["E"] = {"NomBE": "B", "NomLE": "L"}.get(der) or (tle[:1] if tle else "e")
        tl["complete"] = want("Complete", .15)
        tl["inp"] = inp = self.one("data", "input") if self.p(.15) else "i"
        self.ints, self.moves, self.lt, self.se = [], False, False, False
        self.seok = "SetEndian" in self.focus
        l, args, pre, post = [], [], "", ""
        if tle:
            l.append(tle)
        if tl["complete"]:
            l.append("Complete")
        if inp != "i":
            l.append("InputName(%s)" % inp)
        if enum:
            l.append(self.attr("Selector", "u8"))
            args.append("s: u8 = b as u8")
        nx = self.one(1, 2) if want("ExtraArgs", .15) else 0
        if nx:
            l.append("ExtraArgs(%s)" % ", ".join("x%d: u8" % k for k in range(nx)))
            for k in range(nx):
                args.append("x%d: u8 = (a >> %d) as u8" % (k, 8 * k))
                self.ints.append("x%d" % k)
        st = []
        if want("PreExec", .15):
            st.append((self.attr("PreExec", "let (%s, t0) = u8::parse_be(%s)?;" % (inp, inp)), "let t0: u8 = r.g(B)?; "))
            self.ints.append("t0")
        if self.seok and want("SetEndian", .3):
            c = self.cond()
            st.append((self.attr("SetEndian", "if %s { Endianness::Big } else { Endianness::Little }" % c), "let se = if %s { B } else { L }; " % c))
            self.se = True
        ps = []
        if want("PostExec", .15):
            ps.append((self.attr("PostExec", "let (%s, _) = u8::parse_be(%s)?;" % (inp, inp)), "r.skip(1)?; "))
        if want("Exact", .12):
            ps.append(("Exact", "r.exact()?; "))
        self.rnd.shuffle(ps)
        pre, post = "".join(o for _, o in st), "".join(o for _, o in ps)
        groups = [g for g in ([a for a, _ in st], [a for a, _ in ps]) + tuple([x] for x in l) if g]
        tla = []
        while groups:
            g = self.rnd.choice(groups)
            tla.append(g.pop(0))
            groups = [g for g in groups if g]
        S = "Mx%d" % self.k
        if enum:
            pats = self.one(["0", "1 | 2", "3..=9", "_"], ["7", "_", "1", "2"], ["200..=255", "0", "x if x & 1 == 1", "_"], ["5", "6", "7"])
            vs, arms = [], []
            ints0, se0 = list(self.ints), self.se
            fm = self.rnd.randrange(len(pats)) if m else -1
            for v, pat in enumerate(pats):
                self.ints, self.se = list(ints0), se0
                kind = "named" if (v == fm and any(x in ("Verify", "Debug") for x in m)) else self.one("named", "tuple", "unit") if v != fm else self.one("named", "tuple")
                V = "V%d" % v
                if kind == "unit":
                    vs.append("#[nom(%s)] %s" % (self.attr("Selector", pat), V))
                    arms.append((pat, "%s::%s" % (S, V)))
                    continue
                n = self.rnd.randint(1, 3)
                mm = [(self.rnd.randrange(n), x) for x in m] if v == fm else []
                src, body, con = self.fields(n, kind == "named", mm)
                src = ", ".join(x.replace("\0", "") for x in src)
                vs.append("#[nom(%s)] %s" % (self.attr("Selector", pat), V) + (" { %s }" % src if kind == "named" else "(%s)" % src))
                arms.append((pat, "{ %s %s::%s %s }" % (body, S, V, con)))
            arms.sort(key=lambda a: a[0] == "_")
            if pats[-1] != "_" and "_" not in pats:
                arms.append(("_", "return Err(F::Err(ErrorKind::Switch, r.pos))"))
            lt = "<'a>" if self.lt else ""
            code = "pub enum %s%s { %s }" % (S, lt, ", ".join(vs))
            body = "%slet v = match s { %s }; %sv" % (pre, ", ".join("%s => %s" % a for a in arms), post)
        else:
            n = self.rnd.randint(2, 4)
            src, b, con = self.fields(n, named, [(self.rnd.randrange(n), x) for x in m])
            lt = "<'a>" if self.lt else ""
            src = ", ".join(x.replace("\0", "pub ") for x in src)
            code = "pub struct %s%s" % (S, lt) + (" { %s }" % src if named else "(%s);" % src)
            # values that PostExec statements see: the fields
            body = "%s%slet v = %s %s; %sv" % (pre, b, S, con, post)
        nm = "x_mx%d" % self.k + ("_n12" if self.moves else "")
        print("#[allow(dead_code, unused_variables, unused_mut, unreachable_patterns)] #[derive(%s, PartialEq)] %s%s" % (der, self.group(tla), code))
        if args:
            # arguments in the order selector, extra
            print("hx!(%s, %s%s, |a, b| (%s), |r, e| { %s });" % (nm, S, lt, ", ".join(args), body))
        else:
            print("t!(%s, %s%s, |r, e| { %s });" % (nm, S, lt, body))


def mix(focus, n, seed="1"):
    print(HELPERS)
    m = Mix(focus, seed)
    if os.environ.get("VERIF_TIER") == "thorough":
        n *= 4
    for _ in range(n):
        m.definition()
