# structs over every ordered pair / triple of a few element types (named and tuple)
import itertools
T = ["u8", "u16", "i32", "u64", "Option<u16>", "S1", "[u16; 2]"]
for k, (a, b) in enumerate(itertools.product(T, T)):
    if k % 2:
        print("#[derive(Nom, PartialEq)] pub struct P%d { pub x: %s, pub y: %s }" % (k, a, b))
        print("t!(p%d, P%d, |r, e| P%d { x: r.g(e)?, y: r.g(e)? });" % (k, k, k))
    else:
        print("#[derive(Nom, PartialEq)] pub struct P%d(pub %s, pub %s);" % (k, a, b))
        print("t!(p%d, P%d, |r, e| P%d(r.g(e)?, r.g(e)?));" % (k, k, k))
for n in range(1, 13):
    fs = [["u8", "u16", "u32", "i16", "i8"][i * n % 5] for i in range(n)]
    print("#[derive(Nom, PartialEq)] pub struct Q%d { %s }" % (n, ", ".join("pub f%d: %s" % (i, f) for i, f in enumerate(fs))))
    print("t!(q%d, Q%d, |r, e| Q%d { %s });" % (n, n, n, ", ".join("f%d: r.g(e)?" % i for i in range(n))))
# long ones whose fields only the order tells apart
for n, t in ((17, "u16"), (33, "u8"), (26, "i32"), (65, "u16")):
    body = " ".join("let x%d = r.g(e)?;" % i for i in range(n))
    print("#[derive(Nom, PartialEq)] pub struct L%d { %s }" % (n, ", ".join("pub %s%d: %s" % ("zyxwabcq"[i % 8], i, t) for i in range(n))))
    print("t!(l%d, L%d, |r, e| { %s L%d { %s } });" % (n, n, body, n, ", ".join("%s%d: x%d" % ("zyxwabcq"[i % 8], i, i) for i in range(n))))
    print("#[derive(Nom, PartialEq)] pub struct Lt%d(%s);" % (n, ", ".join("pub " + t for i in range(n))))
    print("t!(lt%d, Lt%d, |r, e| { %s Lt%d(%s) });" % (n, n, body, n, ", ".join("x%d" % i for i in range(n))))
# ---- attributes of every kind combined at random, each definition with one of these
import genmix
genmix.mix([], 40)
