n = 0
def en(name, repr_, variants, der="Nom", tl="", E="e", wrap=False, extra_attr=""):
    """variants: [(name, text or None, value)]"""
    global n
    n += 1
    S = "F%d" % n
    ut = "u" + repr_[1:]
    w = int(ut[1:])
    print("#[allow(non_camel_case_types, dead_code)] #[derive(%s, PartialEq, Clone, Copy)] %s #[repr(%s)] %s pub enum %s { %s }" % (der, tl, repr_, extra_attr, S, ", ".join(v + (" = " + t if t is not None else "") for v, t, _ in variants)))
    g = "r.g::<%s>(%s)" % (ut, E)
    g = "r.complete(|r| %s)" % g if wrap else g
    # compared as raw bits, one value at a time
    print("t!(%s, %s, |r, e| { let p = r.pos; let x = %s?; %s { return Err(F::Err(ErrorKind::Switch, p)) } });" % (name, S, g, " ".join("if x == %d { %s::%s } else" % (val & ((1 << w) - 1), S, v) for v, t, val in variants)))
for r in ("u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "usize", "isize"):
    if r in ("usize", "isize"):
        continue
    w, sg = int(r[1:]), r[0] == "i"
    top = (1 << (w - sg)) - 1
    lo = -(1 << (w - 1)) if sg else 0
    sets = [[("A", None, 0), ("B", None, 1), ("C", None, 2)],
            [("A", "5", 5), ("B", None, 6), ("C", "3", 3), ("D", None, 4), ("E", "0", 0)],
            [("Max", str(top), top), ("Min", str(lo), lo), ("AfterMin", None, lo + 1), ("Mid", str(top // 3), top // 3)],
            [("Only", str(top // 2 + 1), top // 2 + 1)], [("Zero", None, 0)],
            [("A", "1 << 3", 8), ("B", "0x41", 65), ("C", "b'z' as %s" % r, 122), ("D", "10 - 3", 7), ("E", "%s::MAX" % r, top), ("G", "super::c13::C7 as %s - 1" % r, 6)],
            [("V%d" % k, None if k % 3 else str(k * 4), (k // 3 * 3) * 4 + k % 3) for k in range(30)]]
    if w > 8:
        p = 0x0102030405060708 & top
        sets += [[("A", hex(p), p), ("B", hex(int.from_bytes(p.to_bytes(w // 8, "little"), "big") & top), int.from_bytes(p.to_bytes(w // 8, "little"), "big") & top), ("C", None, (int.from_bytes(p.to_bytes(w // 8, "little"), "big") & top) + 1), ("D", "0x100", 256), ("E", None, 257), ("F", "1", 1)]]
    if sg:
        sets += [[("A", "-1", -1), ("B", None, 0), ("C", None, 1), ("D", "-77", -77), ("E", None, -76)], [("A", "-3", -3), ("B", "-4 + 2", -2), ("C", "%s::MIN" % r, lo)]]
    for j, s in enumerate(sets):
        en("%s_%d" % (r, j), r, s)
        if j % 2 or j > 6:
            en("%s_%d_be" % (r, j), r, s, der="NomBE", E="B")
            en("%s_%d_le" % (r, j), r, s, der="NomLE", E="L")
        if j in (0, 7):
            en("%s_%d_a" % (r, j), r, s, tl="#[nom(LittleEndian)]", E="L")
            en("%s_%d_b" % (r, j), r, s, tl="#[nom(BigEndian, InputName(data))]", E="B")
            en("%s_%d_c" % (r, j), r, s, tl="#[nom(Complete)]", wrap=True)
            en("%s_%d_d" % (r, j), r, s, tl="#[nom(GenericErrors)]") if 0 else None
            en("%s_%d_e" % (r, j), r, s, extra_attr="#[derive(Debug)] #[allow(unused)]")
# statements and checks of the element run around the integer
def ex(name, r, tl, pre, post, der="Nom", E="e"):
    global n
    n += 1
    S = "F%d" % n
    print("#[allow(dead_code)] #[derive(%s, PartialEq, Clone, Copy)] #[nom(%s)] #[repr(%s)] pub enum %s { A, B = 5, C, D = 1 }" % (der, tl, r, S))
    print("t!(%s, %s, |r, e| { let st = r.pos; %s let x = r.g::<%s>(%s)?; let v = match x { 0 => %s::A, 1 => %s::D, 5 => %s::B, 6 => %s::C, _ => return Err(F::Err(ErrorKind::Switch, st)) }; %s v });" % (name, S, pre, r, E, S, S, S, S, post))
for k, r in enumerate(("u8", "u16", "i32", "u64")):
    ex("pp%d" % k, r, "PreExec = \"let (i, _) = <u8>::parse_be(i)?;\"", "r.skip(1)?;", "")
    ex("pq%d" % k, r, "PostExec = \"let (i, _) = <u16>::parse_le(i)?;\"", "", "r.skip(2)?;")
    ex("pe%d" % k, r, "Exact", "", "r.exact()?;")
    ex("pf%d" % k, r, "PostExec(let (i, _) = <u8>::parse_be(i)?;), Exact", "", "r.skip(1)?; r.exact()?;")
    ex("pg%d" % k, r, "Exact, PostExec(let (i, _) = <u8>::parse_be(i)?;)", "", "r.exact()?; r.skip(1)?;") if 0 else None
    ex("ph%d" % k, r, "PreExec(let (i, k) = <u8>::parse_be(i)?;), PostExec(let (i, _) = nom::bytes::streaming::take::<_, _, Error<_>>(k & 3)(i)?;)", "let k: u8 = r.g(B)?;", "r.skip((k & 3) as usize)?;")
    ex("pi%d" % k, r, "PostExec = \"let enum_def = if i.is_empty() { Self::A } else { enum_def };\"", "", "let v = if r.left() == 0 { %s } else { v };" % ("F%d::A" % (n + 1)))
    ex("pl%d" % k, r, "LittleEndian, Exact, InputName(dat), PreExec(let (dat, _) = <u8>::parse_be(dat)?;)", "r.skip(1)?;", "r.exact()?;", E="L")
