"""Parser for the textual LLVM IR rustc emits (the subset that occurs in optimised Rust code).

Functions are parsed lazily.  Anything not understood raises Unsupported: the caller then ends
without a verdict, it never counts as a success."""
import re

class Unsupported(Exception):
    pass

TOK = re.compile(r'''
   %"(?:[^"\\]|\\.)*" | %[-\w.$]+ | @"(?:[^"\\]|\\.)*" | @[-\w.$]+ | c"[^"]*" | "(?:[^"\\]|\\.)*"
 | ![-\w.]* | \#\d+ | 0x[0-9A-Fa-fHKLMR]+ | -?\d+\.\d+(?:e[-+]?\d+)? | -?\d+ | \.\.\. | [A-Za-z_$][-\w.$]*
 | [(){}\[\]<>,=*:|]
''', re.X)

class UndefT:
    __slots__ = ()
    def __repr__(self):
        return "UNDEF"
    def __deepcopy__(self, m):
        return self
UNDEF = UndefT()

class P:
    """pointer: object id (or None for a plain address) and byte offset (int or 64-bit term)"""
    __slots__ = ("obj", "off")
    def __init__(self, obj, off):
        self.obj = obj
        self.off = off
    def __repr__(self):
        return "P(%s,%s)" % (self.obj, self.off)
NULL = P(None, 0)

PTR = ("p",)
VOID = ("void",)
I1 = ("i", 1)
I8 = ("i", 8)
I64 = ("i", 64)

def size_align(t, cache={}):
    r = cache.get(t)
    if r:
        return r
    k = t[0]
    if k == "i":
        n = (t[1] + 7) // 8
        a = 1
        while a < n and a < 16:
            a *= 2
        r = (n, a)
    elif k == "p":
        r = (8, 8)
    elif k == "f":
        r = (t[1] // 8, t[1] // 8)
    elif k == "a":
        s, a = size_align(t[2])
        s = stride(t[2])
        r = (s * t[1], a)
    elif k == "v":
        b = t[1] * bits(t[2])
        n = (b + 7) // 8
        r = (n, n)
    elif k == "s":
        off, al = 0, 1
        for f in t[1]:
            s, a = size_align(f)
            s = stride(f)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a + s
            al = max(al, a)
        r = ((off + al - 1) // al * al, al)
    else:
        raise Unsupported("size of %r" % (t,))
    cache[t] = r
    return r

def stride(t):
    """allocation size (what arrays and GEPs step by)"""
    s, a = size_align(t)
    return (s + a - 1) // a * a

def bits(t):
    if t[0] in ("i", "f"):
        return t[1]
    if t[0] == "p":
        return 64
    if t[0] == "v":
        return t[1] * bits(t[2])
    raise Unsupported("bits of %r" % (t,))

def field_offset(t, i):
    if t[0] == "a" or t[0] == "v":
        return i * stride(t[2]), t[2]
    if t[0] != "s":
        raise Unsupported("field of %r" % (t,))
    off = 0
    for k, f in enumerate(t[1]):
        s, a = size_align(f)
        if t[2]:
            a = 1
        off = (off + a - 1) // a * a
        if k == i:
            return off, f
        off += stride(f)
    raise Unsupported("field index")

def unq(n):
    """%"x" -> x, @y -> y"""
    n = n[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return n

TYPEWORD = re.compile(r"^(i\d+|ptr|void|float|double|half|metadata|label|token)$")
VALWORD = {"true", "false", "null", "undef", "poison", "zeroinitializer", "none", "getelementptr", "inttoptr",
           "ptrtoint", "bitcast", "trunc", "sub", "add", "asm", "splat"}

class Cur:
    """token cursor"""
    __slots__ = ("t", "i", "mod")
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod
    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None
    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x
    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False
    def expect(self, x):
        y = self.next()
        if y != x:
            raise Unsupported("expected %r got %r in %r" % (x, y, " ".join(self.t)[:300]))
    def skip_parens(self):
        if self.peek() == "(":
            d = 0
            while True:
                x = self.next()
                if x == "(":
                    d += 1
                elif x == ")":
                    d -= 1
                    if d == 0:
                        return
    def skip_attrs(self):
        """parameter / return attributes and calling conventions"""
        while True:
            x = self.peek()
            if x is None or TYPEWORD.match(x) or x[0] in '{[<%@!#),"' or x in VALWORD:
                return
            if x[0].isdigit() or x[0] == "-" or x.startswith('c"'):
                return
            self.next()
            if x in ("align", "cc"):
                if self.peek() == "(":
                    self.skip_parens()
                else:
                    self.next()
            elif self.peek() == "(":
                self.skip_parens()

    def type(self):
        x = self.next()
        if x == "ptr":
            if self.peek() == "addrspace":
                raise Unsupported("addrspace")
            return PTR
        if x == "void":
            return VOID
        if x == "float":
            return ("f", 32)
        if x == "double":
            return ("f", 64)
        if x == "half":
            return ("f", 16)
        if x in ("metadata", "label", "token"):
            return (x,)
        if x[0] == "i" and x[1:].isdigit():
            return ("i", int(x[1:]))
        if x == "[":
            n = int(self.next())
            self.expect("x")
            t = self.type()
            self.expect("]")
            return ("a", n, t)
        if x == "<":
            if self.accept("{"):
                fs = []
                if not self.accept("}"):
                    fs.append(self.type())
                    while self.accept(","):
                        fs.append(self.type())
                    self.expect("}")
                self.expect(">")
                return ("s", tuple(fs), True)
            n = int(self.next())
            self.expect("x")
            t = self.type()
            self.expect(">")
            return ("v", n, t)
        if x == "{":
            fs = []
            if not self.accept("}"):
                fs.append(self.type())
                while self.accept(","):
                    fs.append(self.type())
                self.expect("}")
            return ("s", tuple(fs), False)
        if x[0] == "%":
            n = unq(x)
            if n in self.mod.types:
                v = self.mod.types[n]
                if isinstance(v, str):
                    v = self.mod.types[n] = Cur(TOK.findall(v), self.mod).type()
                return v
            raise Unsupported("named type " + x)
        raise Unsupported("type %r in %r" % (x, " ".join(self.t)[:200]))

    def value(self, t):
        """operand of type t: register name (str) or constant"""
        x = self.next()
        c = x[0]
        if c == "%":
            return unq(x)
        if c == "@":
            return P(("g", unq(x)), 0)
        if t[0] == "i":
            if x == "true":
                return 1
            if x == "false":
                return 0
            if c.isdigit() or c == "-":
                return int(x) & ((1 << t[1]) - 1)
        if x in ("undef", "poison"):
            return undef_of(t)
        if x == "null":
            return NULL
        if x == "zeroinitializer":
            return zero_of(t)
        if c == "c" and x.startswith('c"'):
            return tuple(cbytes(x[2:-1]))
        if t[0] == "f":
            return fconst(x, t[1])
        if x == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw"):
                self.next()
            if self.peek() == "inrange":
                self.next(); self.skip_parens()
            self.expect("(")
            et = self.type()
            self.expect(",")
            pt = self.type()
            p = self.value(pt)
            off = 0
            cur = et
            first = True
            while self.accept(","):
                it = self.type()
                iv = self.value(it)
                if iv >> 63:
                    iv -= 1 << 64
                if first:
                    off += iv * stride(cur)
                    first = False
                else:
                    o, cur = field_offset(cur, iv)
                    off += o
            self.expect(")")
            return P(p.obj, (p.off + off) & ((1 << 64) - 1))
        if x in ("inttoptr", "ptrtoint", "bitcast", "trunc"):
            self.expect("(")
            ft = self.type()
            v = self.value(ft)
            self.expect("to")
            tt = self.type()
            self.expect(")")
            if x == "inttoptr":
                return P(None, v)
            if x == "ptrtoint":
                return ("ptrtoint", v)
            raise Unsupported("const " + x)
        if c == "[" or c == "{" or c == "<":
            packed = False
            if c == "<" and self.accept("{"):
                packed = True
            close = {"[": "]", "{": "}", "<": ">"}[c]
            if packed:
                close = "}"
            out = []
            if not self.accept(close):
                while True:
                    et = self.type()
                    out.append(self.value(et))
                    if not self.accept(","):
                        break
                self.expect(close)
            if packed:
                self.expect(">")
            return tuple(out)
        if x == "splat":
            self.expect("(")
            et = self.type()
            v = self.value(et)
            self.expect(")")
            return tuple([v] * t[1])
        raise Unsupported("value %r of type %r in %r" % (x, t, " ".join(self.t)[:200]))

    def typed(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)

def undef_of(t):
    if t[0] == "s":
        return tuple(undef_of(f) for f in t[1])
    if t[0] in ("a", "v"):
        return tuple(undef_of(t[2]) for _ in range(t[1]))
    return UNDEF

def zero_of(t):
    if t[0] == "s":
        return tuple(zero_of(f) for f in t[1])
    if t[0] in ("a", "v"):
        return tuple(zero_of(t[2]) for _ in range(t[1]))
    if t[0] == "p":
        return NULL
    return 0

def cbytes(s):
    out = []
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return out

def fconst(x, n):
    import struct
    if x.startswith("0x"):
        v = int(x[2:], 16)
        if n == 64:
            return v
        d = struct.unpack("<d", struct.pack("<Q", v))[0]
        return struct.unpack("<I", struct.pack("<f", d))[0]
    d = float(x)
    return struct.unpack("<Q", struct.pack("<d", d))[0] if n == 64 else struct.unpack("<I", struct.pack("<f", d))[0]

class Fn:
    __slots__ = ("name", "mod", "params", "blocks", "entry", "header", "body", "ret")
    def __init__(self, name, mod, header, body):
        self.name, self.mod, self.header, self.body = name, mod, header, body
        self.blocks = None

class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.fns = {}
        self.decls = {}
        self.globals = {}
        self.aliases = {}
        self.attrs = {}
        self.gcache = {}
        self._load(path)

    def _load(self, path):
        lines = open(path, encoding="utf-8", errors="surrogateescape").read().split("\n")
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("define "):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', l)
                name = unq("@" + m.group(1))
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self.fns[name] = Fn(name, self, l, lines[i + 1:j])
                i = j
            elif l.startswith("declare "):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', l)
                self.decls[unq("@" + m.group(1))] = l
            elif l.startswith("@"):
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+) = ', l)
                name = unq("@" + m.group(1))
                rest = l[m.end():]
                if re.search(r"\balias\b", rest.split('"')[0]):
                    tgt = re.findall(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)', rest)
                    self.aliases[name] = unq("@" + tgt[-1])
                else:
                    self.globals[name] = rest
            elif l.startswith("attributes "):
                m = re.match(r"attributes (#\d+) = \{(.*)\}", l)
                self.attrs[m.group(1)] = m.group(2)
            elif l.startswith("%"):
                m = re.match(r'%("(?:[^"\\]|\\.)*"|[-\w.$]+) = type (.*)', l)
                if m:
                    self.types[unq("%" + m.group(1))] = m.group(2)
            i += 1

    def noreturn_line(self, l):
        if re.search(r"\bnoreturn\b", re.sub(r'"[^"]*"', "", l)):
            return True
        for a in re.findall(r"#\d+", re.sub(r'"[^"]*"', "", l)):
            if re.search(r"\bnoreturn\b", self.attrs.get(a, "")):
                return True
        return False

    def global_init(self, name):
        """(type, value, is_const) or None for external"""
        if name in self.gcache:
            return self.gcache[name]
        rest = self.globals[name]
        c = Cur(TOK.findall(rest), self)
        ext = False
        const = False
        while True:
            x = c.next()
            if x in ("external", "extern_weak", "available_externally"):
                ext = True
            if x in ("constant", "global"):
                const = x == "constant"
                break
            if x in ("thread_local",):
                raise Unsupported("thread_local")
        t = c.type()
        v = None if ext else c.value(t)
        self.gcache[name] = (t, v, const)
        return self.gcache[name]

BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}
FBIN = {"fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"trunc", "zext", "sext", "bitcast", "ptrtoint", "inttoptr"}
FLAGS = {"nuw", "nsw", "exact", "disjoint", "nneg", "inbounds", "nusw", "samesign", "fast", "nnan", "ninf", "nsz", "arcp",
         "contract", "afn", "reassoc", "volatile", "atomic"}

def parse_fn(f):
    mod = f.mod
    c = Cur(TOK.findall(f.header), mod)
    c.expect("define")
    # linkage etc. up to the return type
    while True:
        c.skip_attrs()
        x = c.peek()
        if x[0] == '"':
            c.next()
            continue
        break
    f.ret = c.type()
    c.next()  # @name
    c.expect("(")
    params = []
    if not c.accept(")"):
        while True:
            t = c.type()
            c.skip_attrs()
            params.append((t, unq(c.next())))
            if not c.accept(","):
                break
        c.expect(")")
    f.params = params
    blocks = {}
    cur = None
    entry = None
    body = f.body
    i = 0
    while i < len(body):
        l = body[i]
        i += 1
        if not l:
            continue
        if l[0] != " ":
            if l[0] == ";":
                continue
            m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w.$]+):', l)
            if not m:
                raise Unsupported("block label " + l)
            lab = unq("%" + m.group(1))
            cur = blocks[lab] = []
            if entry is None:
                entry = lab
            continue
        if cur is None:
            # unnamed entry block
            entry = "0e"
            cur = blocks[entry] = []
        s = l.strip()
        if not s or s[0] == ";":
            continue
        if " switch " in l or s.startswith("switch "):
            while not body[i - 1].strip().startswith("]") and "]" not in s.split("[")[-1]:
                s += " " + body[i].strip()
                i += 1
        cur.append(parse_inst(s, mod))
    f.blocks = blocks
    f.entry = entry
    # split phis from the rest
    for k in blocks:
        b = blocks[k]
        n = 0
        while n < len(b) and b[n][0] == "phi":
            n += 1
        blocks[k] = (b[:n], b[n:])

def parse_inst(s, mod):
    toks = TOK.findall(s)
    c = Cur(toks, mod)
    dst = None
    if toks[0][0] == "%":
        dst = unq(c.next())
        c.expect("=")
    op = c.next()
    if op in ("tail", "musttail", "notail"):
        op = c.next()
    if op == "call":
        while c.peek() in FLAGS:
            c.next()
        c.skip_attrs()
        rt = c.type()
        if c.peek() == "(":
            c.skip_parens()
        x = c.next()
        if x == "asm":
            return ("asm", dst, s)
        if x[0] == "@":
            callee = P(("g", unq(x)), 0)
        elif x[0] == "%":
            callee = unq(x)
        else:
            raise Unsupported("callee " + s)
        c.expect("(")
        args = []
        if not c.accept(")"):
            while True:
                t = c.type()
                if t[0] == "metadata":
                    d = 0
                    while c.peek() not in (",", ")") or d:
                        y = c.next()
                        d += y == "("
                        d -= y == ")"
                    args.append((t, None))
                else:
                    c.skip_attrs()
                    args.append((t, c.value(t)))
                if not c.accept(","):
                    break
            c.expect(")")
        # call-site attribute groups
        nr = False
        while c.peek() is not None:
            y = c.next()
            if y[0] == "#" and re.search(r"\bnoreturn\b", mod.attrs.get(y, "")):
                nr = True
        return ("call", dst, rt, callee, args, nr)
    while c.peek() in FLAGS:
        c.next()
    if op in BINOPS:
        t = c.type()
        a = c.value(t)
        c.expect(",")
        b = c.value(t)
        return ("bin", dst, op, t, a, b)
    if op in ("icmp", "fcmp"):
        pred = c.next()
        while c.peek() in FLAGS:
            c.next()
        if pred in FLAGS:
            pred = c.next()
        t = c.type()
        a = c.value(t)
        c.expect(",")
        b = c.value(t)
        return (op, dst, pred, t, a, b)
    if op == "select":
        ct = c.type()
        cv = c.value(ct)
        c.expect(",")
        t = c.type()
        a = c.value(t)
        c.expect(",")
        t2 = c.type()
        b = c.value(t2)
        return ("select", dst, ct, cv, t, a, b)
    if op in CASTS:
        t = c.type()
        v = c.value(t)
        c.expect("to")
        t2 = c.type()
        return ("cast", dst, op, t, v, t2)
    if op == "load":
        t = c.type()
        c.expect(",")
        pt = c.type()
        return ("load", dst, t, c.value(pt))
    if op == "store":
        t = c.type()
        v = c.value(t)
        c.expect(",")
        pt = c.type()
        return ("store", None, t, v, c.value(pt))
    if op == "getelementptr":
        et = c.type()
        c.expect(",")
        pt = c.type()
        if pt[0] != "p":
            raise Unsupported("vector gep")
        p = c.value(pt)
        idx = []
        while c.accept(","):
            if c.peek() and c.peek()[0] == "!":
                break
            it = c.type()
            idx.append((it, c.value(it)))
        # fold into constant + scaled terms
        const = 0
        terms = []
        cur = et
        for k, (it, iv) in enumerate(idx):
            if k == 0:
                sz = stride(et)
                if isinstance(iv, int):
                    const += sx(iv, it[1]) * sz
                else:
                    terms.append((iv, it[1], sz))
            elif cur[0] == "s":
                o, cur = field_offset(cur, iv)
                const += o
            else:
                sz = stride(cur[2])
                cur = cur[2]
                if isinstance(iv, int):
                    const += sx(iv, it[1]) * sz
                else:
                    terms.append((iv, it[1], sz))
        return ("gep", dst, p, const, terms)
    if op == "alloca":
        t = c.type()
        n = 1
        al = 1
        while c.accept(","):
            if c.peek() == "align":
                c.next(); al = int(c.next())
            elif c.peek()[0] == "!":
                break
            else:
                it = c.type()
                n = c.value(it)
                if not isinstance(n, int):
                    raise Unsupported("dynamic alloca")
        return ("alloca", dst, stride(t) * n, al)
    if op == "br":
        if c.accept("label"):
            return ("jmp", None, unq(c.next()))
        t = c.type()
        v = c.value(t)
        c.expect(","); c.expect("label")
        a = unq(c.next())
        c.expect(","); c.expect("label")
        b = unq(c.next())
        return ("br", None, v, a, b)
    if op == "switch":
        t = c.type()
        v = c.value(t)
        c.expect(","); c.expect("label")
        d = unq(c.next())
        c.expect("[")
        cases = []
        while not c.accept("]"):
            ct = c.type()
            cv = c.value(ct)
            c.expect(","); c.expect("label")
            cases.append((cv, unq(c.next())))
        return ("switch", None, t, v, d, cases)
    if op == "phi":
        t = c.type()
        inc = {}
        while True:
            c.expect("[")
            v = c.value(t)
            c.expect(",")
            inc[unq(c.next())] = v
            c.expect("]")
            if not c.accept(",") or (c.peek() and c.peek()[0] == "!"):
                break
        return ("phi", dst, t, inc)
    if op == "ret":
        t = c.type()
        if t == VOID:
            return ("ret", None, None, None)
        return ("ret", None, t, c.value(t))
    if op == "unreachable":
        return ("unreachable", None)
    if op == "extractvalue":
        t = c.type()
        v = c.value(t)
        path = []
        while c.accept(","):
            if c.peek()[0] == "!":
                break
            path.append(int(c.next()))
        return ("extractvalue", dst, v, path)
    if op == "insertvalue":
        t = c.type()
        v = c.value(t)
        c.expect(",")
        t2 = c.type()
        v2 = c.value(t2)
        path = []
        while c.accept(","):
            if c.peek()[0] == "!":
                break
            path.append(int(c.next()))
        return ("insertvalue", dst, v, v2, path)
    if op == "freeze":
        t = c.type()
        return ("freeze", dst, t, c.value(t))
    if op == "extractelement":
        t = c.type(); v = c.value(t); c.expect(","); it = c.type(); iv = c.value(it)
        return ("extractelement", dst, v, iv)
    if op == "insertelement":
        t = c.type(); v = c.value(t); c.expect(","); et = c.type(); ev = c.value(et); c.expect(","); it = c.type(); iv = c.value(it)
        return ("insertelement", dst, v, ev, iv)
    if op == "shufflevector":
        t = c.type(); a = c.value(t); c.expect(","); t2 = c.type(); b = c.value(t2); c.expect(","); mt = c.type(); m = c.value(mt)
        return ("shufflevector", dst, a, b, m)
    return ("unsupported", dst, s)

def sx(v, n):
    return v - (1 << n) if v >> (n - 1) else v
