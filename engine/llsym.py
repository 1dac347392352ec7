"""Symbolic execution of LLVM IR with z3.

One exploration decides one harness function  fn(&[u8], u64, u64) -> u64 :
the buffer contents, its length, its address and the two words are symbolic; every feasible path is
followed to its end.  A path that panics, reaches `vfail`, leaves an object's bounds or exceeds the
step limit is reported with a model (the caller replays it natively).
"""
import time, re
import z3
from llparse import (Unsupported, UNDEF, P, NULL, PTR, VOID, size_align, stride, bits, field_offset, parse_fn, undef_of, Module, sx)

M64 = (1 << 64) - 1
BV = z3.BitVecRef
BOOL = z3.BoolRef

def mask(n):
    return (1 << n) - 1

def find_ite(t):
    """some if-then-else below t, outermost first"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop(0)
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            return x
        todo += x.children()
    return None

class NeedFork(Exception):
    def __init__(self, term):
        self.term = term

class PathEnd(Exception):
    def __init__(self, kind, info=None):
        self.kind, self.info = kind, info

class Budget(Exception):
    pass

class Obj:
    __slots__ = ("size", "cells", "kind", "addr", "owner", "live", "maxw")
    def __init__(self, size, kind, addr, owner):
        self.size, self.kind, self.addr, self.owner = size, kind, addr, owner
        self.cells = {}
        self.live = True
        self.maxw = 8
    def clone(self, owner):
        o = Obj(self.size, self.kind, self.addr, owner)
        o.cells = dict(self.cells)
        o.live = self.live
        o.maxw = self.maxw
        return o

class Frame:
    __slots__ = ("fn", "blk", "prev", "idx", "regs", "dst", "allocas")
    def copy(self):
        f = Frame()
        f.fn, f.blk, f.prev, f.idx, f.dst = self.fn, self.blk, self.prev, self.idx, self.dst
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        return f

class State:
    __slots__ = ("frames", "mem", "pc", "model", "known", "steps", "nlb", "token", "nobj", "forks")
    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.model = self.model
        s.known = dict(self.known)
        s.steps = self.steps
        s.nlb = self.nlb
        s.token = object()
        self.token = object()
        s.nobj = self.nobj
        s.forks = self.forks
        return s

class Path:
    """a finished path"""
    __slots__ = ("kind", "info", "ret", "inp", "steps", "forks", "digest")

class Program:
    def __init__(self, lls):
        self.mods = [Module(p) for p in lls]
        self.fns, self.aliases = {}, {}
        self.globals = {}
        for m in reversed(self.mods):
            self.fns.update(m.fns)
            self.aliases.update(m.aliases)
            for g in m.globals:
                self.globals.setdefault(g, []).append(m)
    def resolve(self, name):
        while name in self.aliases and name not in self.fns:
            name = self.aliases[name]
        return name
    def fn(self, name):
        f = self.fns.get(self.resolve(name))
        if f is not None and f.blocks is None:
            parse_fn(f)
        return f
    def find(self, *parts):
        """function by demangled path components (legacy mangling)"""
        pat = "_ZN" + "".join("%d%s" % (len(p), p) for p in parts) + "17h"
        c = [n for n in list(self.fns) + list(self.aliases) if n.startswith(pat)]
        if len(c) != 1:
            raise Unsupported("harness function %s: %d candidates" % ("::".join(parts), len(c)))
        return c[0]

def demangle(n):
    if not n.startswith("_ZN"):
        return n
    s, out = n[3:], []
    while s and s[0].isdigit():
        m = re.match(r"\d+", s)
        k = int(m.group())
        out.append(s[m.end():m.end() + k])
        s = s[m.end() + k:]
    if out and re.match(r"^h[0-9a-f]{16}$", out[-1]):
        out.pop()
    d = "::".join(out)
    for a, b in (("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$RF$", "&"), ("$u5b$", "["), ("$u5d$", "]"), ("$u7b$", "{"),
                 ("$u7d$", "}"), ("$C$", ","), ("$BP$", "*"), ("$u27$", "'"), ("..", "::")):
        d = d.replace(a, b)
    return d

class Sym:
    def __init__(self, prog, maxlen=None, max_steps=200000, max_paths=6000, deadline=None, stats=None):
        self.prog = prog
        self.maxlen = maxlen
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.deadline = deadline
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.steps = 0
        self.branches = 0
        self.fns_used = set()
        self.stubs_used = set()
        self.solver = z3.SolverFor("QF_ABV") if False else z3.Solver()
        self.solver.set("timeout", 60000)
        self.levels = []
        self.A = z3.Array("input", z3.BitVecSort(64), z3.BitVecSort(8))
        self.n = z3.BitVec("n", 64)
        self.base = z3.BitVec("base", 64)
        self.a = z3.BitVec("a", 64)
        self.b = z3.BitVec("b", 64)
        self.reads = set()
        self.symreads = {}
        self.ptrnames = {}
        self.ptrnamed = {}
        self.gobj = {}
        self.fresh = 0
        self.next_addr = 0x700000000000
        self.gaddr = {}

    # ---- solver -------------------------------------------------------------------------
    def sync(self, pc):
        k = 0
        n = min(len(pc), len(self.levels))
        while k < n and self.levels[k] is pc[k]:
            k += 1
        if len(self.levels) > k:
            self.solver.pop(len(self.levels) - k)
            del self.levels[k:]
        for c in pc[k:]:
            self.solver.push()
            self.solver.add(c)
            self.levels.append(c)

    def check(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise Budget("time")
        t = time.time()
        self.queries += 1
        r = self.solver.check(*extra)
        self.solver_s += time.time() - t
        if r == z3.unknown:
            raise Unsupported("solver answered unknown: " + self.solver.reason_unknown())
        return r == z3.sat

    def ev(self, st, t):
        return st.model.eval(t, model_completion=True)

    def truth(self, st, c):
        """value of condition under the state's model"""
        return z3.is_true(self.ev(st, c))

    def assume(self, st, c):
        """add c (known satisfiable or checked here)"""
        st.pc.append(c)
        self.sync(st.pc)
        if not self.truth(st, c):
            if not self.check():
                raise PathEnd("infeasible")
            st.model = self.solver.model()

    def must(self, st, c):
        """is c implied?  returns (True, None) or (False, model of the negation)"""
        if isinstance(c, (bool, int)):
            return (True, None) if c else (False, st.model)
        c = z3.simplify(c)
        if z3.is_true(c):
            return True, None
        if not self.truth(st, c):
            return False, st.model
        self.sync(st.pc)
        if self.check(z3.Not(c)):
            return False, self.solver.model()
        return True, None

    # ---- values -------------------------------------------------------------------------
    def bv(self, v, n):
        if isinstance(v, int):
            return z3.BitVecVal(v, n)
        if isinstance(v, BOOL):
            return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
        return v

    def boolean(self, v):
        if isinstance(v, (int, bool)):
            return z3.BoolVal(bool(v))
        if isinstance(v, BOOL):
            return v
        return v == z3.BitVecVal(1, v.size())

    def norm(self, t):
        """simplify; python int when constant"""
        if isinstance(t, int):
            return t
        t = z3.simplify(t)
        if z3.is_bv_value(t):
            return t.as_long()
        if z3.is_true(t):
            return 1
        if z3.is_false(t):
            return 0
        return t

    def isundef(self, v):
        return v is UNDEF

    def concretize(self, st, t):
        """python int for term t, forking over all its feasible values"""
        if isinstance(t, int):
            return t
        t = self.norm(t)
        if isinstance(t, int):
            return t
        k = st.known.get(t.get_id())
        if k is not None and k[0].eq(t):
            return k[1]
        raise NeedFork(t)

    # ---- memory -------------------------------------------------------------------------
    def new_obj(self, st, size, kind, align=8):
        oid = (kind, st.nobj)
        st.nobj += 1
        # addresses only matter through their alignment and distinctness
        addr = 0x100000000000 + (st.nobj << 32)
        st.mem[oid] = Obj(size, kind, addr, st.token)
        return oid

    def obj(self, st, oid):
        o = st.mem.get(oid)
        if o is not None:
            return o
        if isinstance(oid, tuple) and oid[0] == "g":
            o = self.gobj.get(oid)
            if o is None:
                o = self.make_global(oid[1])
                self.gobj[oid] = o
            return o
        raise Unsupported("no object %r" % (oid,))

    def make_global(self, name):
        name = self.prog.resolve(name)
        if name in self.prog.fns or name not in self.prog.globals:
            raise Unsupported("memory access to function or unknown global " + name)
        for m in self.prog.globals[name]:
            t, v, const = m.global_init(name)
            if v is not None:
                break
        if v is None:
            if "no_alloc_shim" in name:
                o = Obj(1, "global", 0x1000, None)
                o.cells[0] = (1, 0)
                return o
            raise Unsupported("external global " + name)
        if not const:
            raise Unsupported("mutable global " + name)
        self.next_addr += 0x10000000
        o = Obj(size_align(t)[0], "global", self.next_addr, None)
        self.flatten(o, 0, t, v)
        return o

    def flatten(self, o, off, t, v):
        if v is UNDEF:
            return
        if isinstance(v, tuple) and v and v[0] == "ptrtoint" and t[0] == "i":
            v = v[1]
        if t[0] == "s":
            for k in range(len(t[1])):
                fo, ft = field_offset(t, k)
                self.flatten(o, off + fo, ft, v[k])
        elif t[0] in ("a", "v"):
            st = stride(t[2])
            for k in range(t[1]):
                self.flatten(o, off + k * st, t[2], v[k])
        else:
            o.cells[off] = (size_align(t)[0], v)

    def wobj(self, st, oid):
        o = self.obj(st, oid)
        if o.kind in ("global", "input"):
            raise PathEnd("memory", "write to read-only object %r" % (oid,))
        if o.owner is not st.token:
            o = o.clone(st.token)
            st.mem[oid] = o
        return o

    def bounds(self, st, o, off, n, what):
        if not o.live:
            raise PathEnd("memory", "%s after free" % what)
        size = o.size
        if isinstance(off, int) and isinstance(size, int):
            if off + n > size:
                raise PathEnd("memory", "%s of %d bytes at offset %d of an object of %d" % (what, n, off, size))
            return
        if o.kind == "input" and isinstance(off, int):
            if off + n <= st.nlb:
                return
            if off + n >= 1 << 48:
                raise PathEnd("memory", "%s out of bounds" % what)
            c = z3.UGE(size, z3.BitVecVal(off + n, 64))
            ok, m = self.must(st, c)
            if not ok:
                st.model = m
                raise PathEnd("memory", "%s beyond the end of the input at offset %d" % (what, off))
            st.nlb = off + n
            return
        offt, sizet = self.bv(off, 64), self.bv(size, 64)
        c = z3.And(z3.ULE(offt, sizet), z3.ULE(z3.BitVecVal(n, 64), sizet - offt))
        ok, m = self.must(st, c)
        if not ok:
            st.model = m
            raise PathEnd("memory", "%s of %d bytes out of bounds of %s object" % (what, n, o.kind))

    def in_byte(self, off):
        if isinstance(off, int):
            self.reads.add(off)
            return z3.Select(self.A, z3.BitVecVal(off, 64))
        self.symreads[off.get_id()] = off
        return z3.Select(self.A, off)

    def read(self, st, p, n, ptr=False):
        """little-endian n-byte value; ptr: the loaded type is a pointer"""
        if p is UNDEF:
            raise Unsupported("load through undef pointer")
        if n == 0:
            return 0
        if p.obj is None:
            if not isinstance(p.off, int):
                raise Unsupported("load through an address that is not an object address: %s" % str(p.off)[:300])
            raise PathEnd("memory", "load through invalid pointer %s" % (p.off,))
        o = self.obj(st, p.obj)
        off = p.off
        if o.kind == "input":
            if not isinstance(off, int):
                off = self.norm(off)
            self.bounds(st, o, off, n, "read")
            bs = []
            for k in range(n):
                bs.append(self.in_byte(off + k if isinstance(off, int) else z3.simplify(off + k)))
            if n == 1:
                return bs[0]
            return z3.Concat(*reversed(bs))
        off = self.concretize(st, off)
        if off >> 63:
            raise PathEnd("memory", "read before object")
        self.bounds(st, o, off, n, "read")
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        # gather bytes
        bs = []
        missing = 0
        k = off
        end = off + n
        while k < end:
            hit = None
            for back in range(0, o.maxw):
                c = o.cells.get(k - back)
                if c is not None:
                    if c[0] > back:
                        hit = (k - back, c)
                    break
            if hit is None:
                bs.append(None)
                missing += 1
                k += 1
                continue
            s, (w, v) = hit
            take = min(s + w, end) - k
            if isinstance(v, P):
                if k == off and s == off and w == n:
                    return v
                v = self.ptr_name(st, v)
            elif v is UNDEF:
                for _ in range(take):
                    bs.append(None)
                    missing += 1
                k += take
                continue
            lo = k - s
            if isinstance(v, int):
                piece = (v >> (8 * lo)) & mask(8 * take)
                bs.append((take, piece))
            else:
                if w == 8 and take < 8 and isinstance(v, z3.BitVecRef) and "base" in {str(x) for x in z3vars(v)}:
                    q = self.int_ptr(st, v)
                    if q.obj == "in":
                        v = self.ptr_name(st, q)
                v = self.bv(v, 8 * w)
                if v.size() != 8 * w:
                    v = z3.ZeroExt(8 * w - v.size(), v) if v.size() < 8 * w else z3.Extract(8 * w - 1, 0, v)
                bs.append((take, v if take == w else z3.Extract(8 * (lo + take) - 1, 8 * lo, v)))
            k += take
        if missing == n:
            return UNDEF
        out = []
        for x in bs:
            if x is None:
                self.fresh += 1
                out.append((1, z3.BitVec("undef!%d" % self.fresh, 8)))
            else:
                out.append(x)
        if all(isinstance(v, int) for _, v in out):
            r, sh = 0, 0
            for w, v in out:
                r |= v << sh
                sh += 8 * w
            return r
        terms = [self.bv(v, 8 * w) for w, v in out]
        if len(terms) == 1:
            return self.norm(terms[0])
        return self.norm(z3.Concat(*reversed(terms)))

    def cut(self, st, o, off, n):
        """remove the bytes [off, off+n) from the cells, keeping the rest of overlapped cells"""
        end = off + n
        k = off
        cells = o.cells
        # a cell starting before off may reach into the range
        for back in range(1, o.maxw):
            c = cells.get(off - back)
            if c is not None:
                w, v = c
                s = off - back
                if s + w > off:
                    del cells[s]
                    self.put_part(st, o, s, w, v, 0, back)
                    if s + w > end:
                        self.put_part(st, o, s, w, v, end - s, s + w - end)
                break
        if n > 64 and n > len(cells):
            ks = [k for k in cells if off <= k < end]
        else:
            ks = [k for k in range(off, end) if k in cells]
        for k in ks:
            w, v = cells.pop(k)
            if k + w > end:
                self.put_part(st, o, k, w, v, end - k, k + w - end)

    def put_part(self, st, o, s, w, v, lo, n):
        if v is UNDEF:
            return
        if isinstance(v, P):
            if v.obj is None:
                v = v.off
            else:
                v = self.ptr_name(st, v)
        if isinstance(v, int):
            o.cells[s + lo] = (n, (v >> (8 * lo)) & mask(8 * n))
        else:
            v = self.bv(v, 8 * w)
            o.cells[s + lo] = (n, z3.Extract(8 * (lo + n) - 1, 8 * lo, v))

    def write(self, st, p, n, v):
        if p is UNDEF:
            raise Unsupported("store through undef pointer")
        if n == 0:
            return
        if p.obj is None:
            if not isinstance(p.off, int):
                raise Unsupported("store through an address that is not an object address")
            raise PathEnd("memory", "store through invalid pointer %s" % (p.off,))
        off = self.concretize(st, p.off)
        o = self.wobj(st, p.obj)
        if off >> 63:
            raise PathEnd("memory", "write before object")
        self.bounds(st, o, off, n, "write")
        c = o.cells.get(off)
        if c is None or c[0] != n:
            self.cut(st, o, off, n)
        if v is UNDEF:
            o.cells.pop(off, None)
            return
        if n > o.maxw:
            o.maxw = n
        o.cells[off] = (n, v)

    def store_val(self, st, p, t, v):
        k = t[0]
        if k == "s":
            for i in range(len(t[1])):
                fo, ft = field_offset(t, i)
                self.store_val(st, self.padd(p, fo), ft, v[i] if v is not UNDEF else UNDEF)
        elif k in ("a", "v"):
            s = stride(t[2])
            for i in range(t[1]):
                self.store_val(st, self.padd(p, i * s), t[2], v[i] if v is not UNDEF else UNDEF)
        else:
            n = size_align(t)[0]
            if isinstance(v, BOOL):
                v = z3.If(v, z3.BitVecVal(1, 8 * n), z3.BitVecVal(0, 8 * n))
            elif isinstance(v, BV) and v.size() != 8 * n:
                v = z3.ZeroExt(8 * n - v.size(), v)
            self.write(st, p, n, v)

    def load_val(self, st, p, t):
        k = t[0]
        if k == "s":
            out = []
            for i in range(len(t[1])):
                fo, ft = field_offset(t, i)
                out.append(self.load_val(st, self.padd(p, fo), ft))
            return tuple(out)
        if k in ("a", "v"):
            s = stride(t[2])
            return tuple(self.load_val(st, self.padd(p, i * s), t[2]) for i in range(t[1]))
        n = size_align(t)[0]
        v = self.read(st, p, n)
        if v is UNDEF:
            return v
        if k == "p":
            if isinstance(v, P):
                return v
            return self.int_ptr(st, v)
        if isinstance(v, P):
            v = self.ptr_int(st, v)
        nb = bits(t)
        if nb != 8 * n:
            if isinstance(v, int):
                return v & mask(nb)
            v = self.norm(z3.Extract(nb - 1, 0, v))
            if nb == 1 and not isinstance(v, int):
                v = self.tobool(v)
        elif isinstance(v, BOOL):
            v = self.bv(v, nb)
        return v

    def tobool(self, v):
        """1-bit vector -> Bool"""
        return self.norm(v == z3.BitVecVal(1, 1))

    def padd(self, p, k):
        if k == 0:
            return p
        if isinstance(p.off, int):
            return P(p.obj, (p.off + k) & M64)
        return P(p.obj, self.norm(p.off + k))

    def ptr_int(self, st, p):
        if p.obj is None:
            return p.off
        if isinstance(p.obj, tuple) and p.obj[0] == "g" and self.prog.resolve(p.obj[1]) in self.prog.fns:
            return 0x400000 + 16 * (hash(p.obj[1]) % 65536)
        o = self.obj(st, p.obj)
        if isinstance(o.addr, int) and isinstance(p.off, int):
            return (o.addr + p.off) & M64
        return self.norm(self.bv(o.addr, 64) + self.bv(p.off, 64))

    def ptr_name(self, st, p):
        """integer value of p for reading a part of it: a name, so that the parts can be put together again"""
        v = self.ptr_int(st, p)
        if isinstance(v, int) or p.obj != "in":
            return v
        k = v.get_id()
        if k not in self.ptrnames:
            x = z3.BitVec("ptr!%d" % k, 64)
            self.ptrnames[k] = (x, x == v, v, p)
            self.ptrnamed[x.get_id()] = p
        x, c, _, _ = self.ptrnames[k]
        if not any(y is c for y in st.pc):
            self.assume(st, c)
        return x

    def int_ptr(self, st, v):
        if not isinstance(v, int) and v.get_id() in self.ptrnamed:
            return self.ptrnamed[v.get_id()]
        if isinstance(v, int):
            # addresses of modelled objects can be turned back
            if v >= 0x100000000000:
                for oid, o in st.mem.items():
                    if isinstance(o.addr, int) and o.addr <= v <= o.addr + 0xffffffff:
                        return P(oid, v - o.addr)
            return P(None, v)
        d = self.norm(v - self.base)
        # address inside the input object: base + something not involving base
        if "base" not in {str(x) for x in z3vars(d)}:
            return P("in", d)
        # a choice between an address and something else: split on the condition
        ite = find_ite(v)
        if ite is not None:
            k = self.concretize(st, ite.arg(0))
            v = self.norm(z3.substitute(v, (ite.arg(0), z3.BoolVal(bool(k)))))
            return self.int_ptr(st, v)
        # an address put together from pieces: guess the offset (what remains with base = 0), and let the solver confirm it
        if "base" in {str(x) for x in z3vars(v)}:
            c = self.norm(z3.substitute(v, (self.base, z3.BitVecVal(0, 64))))
            if self.must(st, v == self.base + c)[0]:
                return P("in", c)
        # data that happens to travel in a pointer-typed register; dereferencing it is an error
        return P(None, v)

    def memcpy(self, st, d, s, n, move=False):
        if n is UNDEF:
            raise Unsupported("memcpy undef length")
        if not isinstance(n, int):
            n = self.norm(n)
        n = self.concretize(st, n)
        if n == 0:
            return
        if d.obj is None or s.obj is None:
            raise PathEnd("memory", "memcpy through invalid pointer")
        so = self.obj(st, s.obj)
        if so.kind == "input":
            off = s.off if isinstance(s.off, int) else self.norm(s.off)
            self.bounds(st, so, off, n, "read")
            items = [(k, 1, self.in_byte(off + k if isinstance(off, int) else z3.simplify(off + k))) for k in range(n)]
        else:
            soff = self.concretize(st, s.off)
            self.bounds(st, so, soff, n, "read")
            items = []
            k = soff
            end = soff + n
            # leading partial cell
            if k not in so.cells:
                for back in range(1, so.maxw):
                    c = so.cells.get(k - back)
                    if c is not None:
                        if c[0] > back:
                            w = min(c[0] - back, n)
                            items.append((0, w, self.read(st, P(s.obj, k), w)))
                        break
            if n > 256:
                ks = sorted(x for x in so.cells if soff <= x < end)
            else:
                ks = [x for x in range(soff, end) if x in so.cells]
            for x in ks:
                w, v = so.cells[x]
                if x + w > end:
                    w = end - x
                    v = self.read(st, P(s.obj, x), w)
                items.append((x - soff, w, v))
        doff = self.concretize(st, d.off)
        do = self.wobj(st, d.obj)
        self.bounds(st, do, doff, n, "write")
        self.cut(st, do, doff, n)
        for k, w, v in items:
            if v is not UNDEF:
                if w > do.maxw:
                    do.maxw = w
                do.cells[doff + k] = (w, v)

    def memcmp(self, st, p, q, n, order):
        if not isinstance(n, int):
            n = self.norm(n)
        if n == 0:
            return 0
        if p.obj == q.obj and p.obj is not None:
            dd = self.norm(self.bv(p.off, 64) - self.bv(q.off, 64))
            if dd == 0:
                return 0
            if not isinstance(n, int) and not isinstance(dd, int) and self.must(st, dd == 0)[0]:
                return 0
        n = self.concretize(st, n)
        eqs = []
        res = z3.BitVecVal(0, 32)
        pairs = []
        for k in range(n):
            x = self.read(st, self.padd(p, k), 1)
            y = self.read(st, self.padd(q, k), 1)
            if x is UNDEF or y is UNDEF:
                raise Unsupported("compare of uninitialised memory")
            pairs.append((x, y))
        if order:
            for x, y in reversed(pairs):
                x, y = self.bv(x, 8), self.bv(y, 8)
                res = z3.If(x == y, res, z3.If(z3.ULT(x, y), z3.BitVecVal(0xffffffff, 32), z3.BitVecVal(1, 32)))
            return self.norm(res)
        for x, y in pairs:
            if isinstance(x, int) and isinstance(y, int):
                if x != y:
                    return 1
                continue
            eqs.append(self.bv(x, 8) == self.bv(y, 8))
        c = self.norm(z3.And(*eqs)) if eqs else 1
        if isinstance(c, int):
            return 0 if c else 1
        return z3.If(c, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32))

    # ---- operations ---------------------------------------------------------------------
    def binop(self, st, op, t, a, b):
        if t[0] == "v":
            return tuple(self.binop(st, op, t[2], x, y) for x, y in zip(a, b))
        n = bits(t)
        if a is UNDEF or b is UNDEF:
            shift = op in ("shl", "lshr") and isinstance(b, int) and 0 < b < n
            if op not in ("or", "and") and not shift or (a is UNDEF and b is UNDEF):
                return UNDEF
            # undefined bits next to defined ones (a partially initialised word, or the zeroes a shift brings in)
            if a is UNDEF:
                a = self.fresh_bv(n)
            else:
                b = self.fresh_bv(n)
        if isinstance(a, int) and isinstance(b, int):
            m = mask(n)
            if op == "add": return (a + b) & m
            if op == "sub": return (a - b) & m
            if op == "mul": return (a * b) & m
            if op == "and": return a & b
            if op == "or": return a | b
            if op == "xor": return a ^ b
            if op == "shl": return (a << b) & m if b < n else UNDEF
            if op == "lshr": return a >> b if b < n else UNDEF
            if op == "ashr": return (sx(a, n) >> b) & m if b < n else UNDEF
            if op in ("udiv", "urem", "sdiv", "srem"):
                if b == 0:
                    raise PathEnd("ub", "division by zero")
                if op == "udiv": return a // b
                if op == "urem": return a % b
                x, y = sx(a, n), sx(b, n)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                if op == "sdiv": return q & m
                return (x - q * y) & m
        if n == 1:
            x, y = self.boolean(a), self.boolean(b)
            if op == "and": return self.norm(z3.And(x, y))
            if op == "or": return self.norm(z3.Or(x, y))
            if op in ("xor", "add", "sub"): return self.norm(z3.Xor(x, y))
            raise Unsupported("i1 " + op)
        if isinstance(a, P) or isinstance(b, P):
            raise Unsupported("pointer arithmetic as integer")
        x, y = self.bv(a, n), self.bv(b, n)
        if op == "add": return self.norm(x + y)
        if op == "sub": return self.norm(x - y)
        if op == "mul": return self.norm(x * y)
        if op == "and":
            if b == 0 or a == 0: return 0
            return self.norm(x & y)
        if op == "or": return self.norm(x | y)
        if op == "xor":
            if n == 64:     # !x is -1 - x: keep sums of addresses linear
                for u, w in ((x, y), (y, x)):
                    if z3.is_bv_value(w) and w.as_long() == mask(64) and "base" in {str(q) for q in z3vars(u)}:
                        return self.norm(w - u)
            return self.norm(x ^ y)
        if op == "shl": return self.norm(x << y)
        if op == "lshr": return self.norm(z3.LShR(x, y))
        if op == "ashr": return self.norm(x >> y)
        ok, m = self.must(st, y != 0)
        if not ok:
            st.model = m
            raise PathEnd("ub", "division by zero")
        if op in ("udiv", "urem") and not isinstance(b, int) and n >= 32:
            # keep dividers away from the solver: exact case distinctions
            if isinstance(a, int) and a <= 64:
                r = z3.BitVecVal(0 if op == "udiv" else a, n)   # y > a
                for k in range(1, a + 1):
                    r = z3.If(y == k, z3.BitVecVal(a // k if op == "udiv" else a % k, n), r)
                return self.norm(r)
            if self.concretize(st, z3.If(z3.ULT(x, y), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))):
                return 0 if op == "udiv" else a
            if self.concretize(st, z3.If(z3.ULT(x - y, y), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))):
                return 1 if op == "udiv" else self.norm(x - y)
        if op == "udiv": return self.norm(z3.UDiv(x, y))
        if op == "urem": return self.norm(z3.URem(x, y))
        if op == "sdiv": return self.norm(x / y)
        if op == "srem": return self.norm(z3.SRem(x, y))
        raise Unsupported(op)

    def icmp(self, st, pred, t, a, b):
        if t[0] == "v":
            return tuple(self.icmp(st, pred, t[2], x, y) for x, y in zip(a, b))
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, P) or isinstance(b, P):
            if not isinstance(a, P): a = self.int_ptr(st, a)
            if not isinstance(b, P): b = self.int_ptr(st, b)
            if a.obj == b.obj:
                return self.icmp(st, pred, ("i", 64), a.off, b.off)
            if pred in ("eq", "ne") and (a.obj is None or b.obj is None):
                c = a if a.obj is None else b
                if isinstance(c.off, int) and c.off < 4096:
                    return 1 if pred == "ne" else 0
            if pred in ("eq", "ne") and a.obj is not None and b.obj is not None and "in" not in (a.obj, b.obj):
                return 1 if pred == "ne" else 0
            return self.icmp(st, pred, ("i", 64), self.ptr_int(st, a), self.ptr_int(st, b))
        n = bits(t)
        if isinstance(a, int) and isinstance(b, int):
            if pred == "eq": return int(a == b)
            if pred == "ne": return int(a != b)
            if pred[0] == "u": x, y = a, b
            else: x, y = sx(a, n), sx(b, n)
            q = pred[1:]
            return int(x < y if q == "lt" else x <= y if q == "le" else x > y if q == "gt" else x >= y)
        if n == 1:
            x, y = self.boolean(a), self.boolean(b)
            if pred == "eq": return self.norm(x == y)
            if pred == "ne": return self.norm(z3.Xor(x, y))
            a, b = self.bv(x, 1), self.bv(y, 1)
            x, y = a, b
        else:
            x, y = self.bv(a, n), self.bv(b, n)
        f = {"eq": lambda: x == y, "ne": lambda: x != y, "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y),
             "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y), "slt": lambda: x < y, "sle": lambda: x <= y,
             "sgt": lambda: x > y, "sge": lambda: x >= y}[pred]
        return self.norm(f())

    def fcmp(self, st, pred, t, a, b):
        """IEEE 754 comparison on bit patterns"""
        if t[0] == "v":
            return tuple(self.fcmp(st, pred, t[2], x, y) for x, y in zip(a, b))
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if pred in ("true", "false"):
            return int(pred == "true")
        n = bits(t)
        x, y = self.bv(a, n), self.bv(b, n)
        inf = {16: 0x7c00, 32: 0x7f800000, 64: 0x7ff0000000000000}[n]
        m = mask(n - 1)
        mx, my = x & m, y & m
        nan = z3.Or(z3.UGT(mx, inf), z3.UGT(my, inf))
        zero = z3.And(mx == 0, my == 0)
        nx, ny = z3.Extract(n - 1, n - 1, x) == 1, z3.Extract(n - 1, n - 1, y) == 1
        eq = z3.Or(x == y, zero)
        lt = z3.And(z3.Not(zero), z3.If(nx, z3.If(ny, z3.ULT(my, mx), True), z3.If(ny, False, z3.ULT(mx, my))))
        q = pred[1:]
        if pred == "ord": return self.norm(z3.Not(nan))
        if pred == "uno": return self.norm(nan)
        f = {"eq": eq, "ne": z3.Not(eq), "lt": lt, "le": z3.Or(lt, eq), "gt": z3.Not(z3.Or(lt, eq)), "ge": z3.Not(lt)}[q]
        return self.norm(z3.And(z3.Not(nan), f) if pred[0] == "o" else z3.Or(nan, f))

    def fpclass(self, st, n, v, k):
        if v is UNDEF: return UNDEF
        x = self.bv(v, n)
        inf = {16: 0x7c00, 32: 0x7f800000, 64: 0x7ff0000000000000}[n]
        quiet, tiny = {16: (0x200, 0x400), 32: (1 << 22, 1 << 23), 64: (1 << 51, 1 << 52)}[n]
        m = x & mask(n - 1)
        neg = z3.Extract(n - 1, n - 1, x) == 1
        nan = z3.UGT(m, inf)
        sub = z3.And(m != 0, z3.ULT(m, tiny))
        nrm = z3.And(z3.UGE(m, tiny), z3.ULT(m, inf))
        cls = [z3.And(nan, x & quiet == 0), z3.And(nan, x & quiet != 0), z3.And(neg, m == inf), z3.And(neg, nrm), z3.And(neg, sub), z3.And(neg, m == 0),
               z3.And(z3.Not(neg), m == 0), z3.And(z3.Not(neg), sub), z3.And(z3.Not(neg), nrm), z3.And(z3.Not(neg), m == inf)]
        return self.norm(z3.Or(*[c for j, c in enumerate(cls) if k >> j & 1]))

    def select(self, st, c, t, a, b):
        if isinstance(c, tuple):
            return tuple(self.select(st, k, t[2], x, y) for k, x, y in zip(c, a, b))
        if c is UNDEF:
            return UNDEF
        if isinstance(c, int):
            return a if c else b
        if a is UNDEF: return b
        if b is UNDEF: return a
        if isinstance(a, P) and isinstance(b, P):
            if a.obj == b.obj:
                if isinstance(a.off, int) and isinstance(b.off, int) and a.off == b.off:
                    return a
                return P(a.obj, self.norm(z3.If(c, self.bv(a.off, 64), self.bv(b.off, 64))))
            return a if self.concretize(st, c) else b
        if isinstance(a, tuple) or isinstance(a, P) or isinstance(b, P):
            return a if self.concretize(st, c) else b
        n = bits(t)
        if n == 1:
            return self.norm(z3.If(c, self.boolean(a), self.boolean(b)))
        return self.norm(z3.If(c, self.bv(a, n), self.bv(b, n)))

    def fresh_bv(self, n):
        self.fresh += 1
        return z3.BitVec("undef!%d" % self.fresh, n)

    def cast(self, st, op, t, v, t2):
        if v is UNDEF:
            if op == "zext" and t[0] == "i":
                return z3.ZeroExt(bits(t2) - bits(t), self.fresh_bv(bits(t)))
            return undef_of(t2)
        if t[0] == "v" and t2[0] == "v" and t[1] == t2[1]:
            return tuple(self.cast(st, op, t[2], x, t2[2]) for x in v)
        if op == "ptrtoint":
            v = self.ptr_int(st, v)
            return self.cast(st, "trunc", ("i", 64), v, t2) if bits(t2) != 64 else v
        if op == "inttoptr":
            return self.int_ptr(st, v)
        if op == "bitcast":
            if t[0] == "v" or t2[0] == "v":
                return self.vcast(t, v, t2)
            return v
        n, m = bits(t), bits(t2)
        if isinstance(v, P):
            raise Unsupported("cast of pointer-valued integer")
        if isinstance(v, int):
            if op == "trunc": return v & mask(m)
            if op == "zext": return v
            return sx(v, n) & mask(m)
        if op == "trunc":
            r = self.norm(z3.Extract(m - 1, 0, v))
            return self.tobool(r) if m == 1 and not isinstance(r, int) else r
        if n == 1:
            if op == "zext":
                return z3.If(v, z3.BitVecVal(1, m), z3.BitVecVal(0, m))
            return z3.If(v, z3.BitVecVal(mask(m), m), z3.BitVecVal(0, m))
        if op == "zext":
            return z3.ZeroExt(m - n, v)
        return z3.SignExt(m - n, v)

    def vcast(self, t, v, t2):
        if t[0] == "v":
            n = bits(t[2])
            if any(x is UNDEF for x in v):
                return undef_of(t2)
            if all(isinstance(x, int) for x in v):
                w = 0
                for k, x in enumerate(v):
                    w |= x << (k * n)
            else:
                w = z3.Concat(*[self.bv(x, n) for x in reversed(v)])
        else:
            w = v
        if t2[0] != "v":
            return self.norm(w)
        n = bits(t2[2])
        if isinstance(w, int):
            return tuple((w >> (k * n)) & mask(n) for k in range(t2[1]))
        out = []
        for k in range(t2[1]):
            x = self.norm(z3.Extract((k + 1) * n - 1, k * n, w))
            out.append(self.tobool(x) if n == 1 and not isinstance(x, int) else x)
        return tuple(out)

    # ---- calls --------------------------------------------------------------------------
    def push(self, st, fn, args, dst):
        fr = Frame()
        fr.fn = fn
        fr.blk, fr.prev, fr.idx = fn.entry, None, 0
        fr.regs = {}
        fr.dst = dst
        fr.allocas = []
        for (t, name), v in zip(fn.params, args):
            fr.regs[name] = v
        st.frames.append(fr)
        if len(st.frames) > 400:
            raise PathEnd("hang", "call depth")
        self.fns_used.add(fn.name)

    def location(self, st, args):
        """file:line of a panic::Location argument"""
        for v in reversed(args):
            try:
                if isinstance(v, P) and v.obj is not None:
                    f = self.read(st, v, 8)
                    ln = self.read(st, self.padd(v, 8), 8)
                    line = self.read(st, self.padd(v, 16), 4)
                    if isinstance(f, P) and isinstance(ln, int) and isinstance(line, int) and ln < 300:
                        return "%s:%d" % (bytes(self.read(st, self.padd(f, k), 1) for k in range(ln)).decode("latin1"), line)
            except Exception:
                pass
        return "?"

    def intrinsic(self, st, name, t, rt, args):
        base = name[5:]
        if base.startswith(("lifetime.", "assume", "experimental.noalias", "dbg.", "prefetch", "donothing", "sideeffect")):
            return None
        if base.startswith(("memcpy.", "memmove.")):
            self.memcpy(st, args[0], args[1], args[2])
            return None
        if base.startswith("memset."):
            n = self.concretize(st, args[2])
            p = args[0]
            for k in range(n):
                self.write(st, self.padd(p, k), 1, args[1])
            return None
        op = base.split(".")[0]
        if rt[0] == "v":
            lanes = []
            for k in range(rt[1]):
                lanes.append(self.intrinsic(st, name, t, rt[2], [x[k] if isinstance(x, tuple) else x for x in args]))
            return tuple(lanes)
        if op in ("uadd", "usub", "umul", "sadd", "ssub", "smul") and ".with.overflow" in base:
            n = int(re.search(r"i(\d+)$", base).group(1))
            a, b = args[0], args[1]
            if a is UNDEF or b is UNDEF:
                return (UNDEF, UNDEF)
            o = {"add": "add", "sub": "sub", "mul": "mul"}[op[1:]]
            r = self.binop(st, o, ("i", n), a, b)
            if isinstance(a, int) and isinstance(b, int):
                x, y = (a, b) if op[0] == "u" else (sx(a, n), sx(b, n))
                w = x + y if o == "add" else x - y if o == "sub" else x * y
                ok = (0 <= w <= mask(n)) if op[0] == "u" else (-(1 << (n - 1)) <= w < (1 << (n - 1)))
                return (r, 0 if ok else 1)
            x, y = self.bv(a, n), self.bv(b, n)
            if op == "uadd": c = z3.Not(z3.BVAddNoOverflow(x, y, False))
            elif op == "usub": c = z3.ULT(x, y)
            elif op == "umul": c = z3.Not(z3.BVMulNoOverflow(x, y, False))
            elif op == "sadd": c = z3.Not(z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)))
            elif op == "ssub": c = z3.Not(z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)))
            else: c = z3.Not(z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)))
            return (r, self.norm(c))
        if base.startswith("is.fpclass."):
            return self.fpclass(st, {"f16": 16, "f32": 32, "f64": 64}[base.split(".")[2]], args[0], args[1])
        n = bits(rt)
        if op in ("umax", "umin", "smax", "smin"):
            c = self.icmp(st, ("u" if op[0] == "u" else "s") + ("gt" if op[1:] == "max" else "lt"), ("i", n), args[0], args[1])
            return self.select(st, c, ("i", n), args[0], args[1])
        if op == "bswap":
            v = args[0]
            if v is UNDEF: return v
            if isinstance(v, int):
                return int.from_bytes(v.to_bytes(n // 8, "little"), "big")
            return self.norm(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, v) for k in range(n // 8)]))
        if op in ("fshl", "fshr"):
            a, b, s = args
            if isinstance(s, int):
                s %= n
                if op == "fshr": s = (n - s) % n if s else 0
                if op == "fshr" and args[2] % n == 0: return b
                if s == 0: return a
                hi = self.binop(st, "shl", ("i", n), a, s)
                lo = self.binop(st, "lshr", ("i", n), b, n - s)
                return self.binop(st, "or", ("i", n), hi, lo)
            raise Unsupported("symbolic funnel shift")
        if op == "abs":
            v = args[0]
            if isinstance(v, int):
                return abs(sx(v, n)) & mask(n)
            return self.norm(z3.If(v < 0, -v, v))
        if op in ("uadd", "usub") and ".sat" in base:
            a, b = args[0], args[1]
            r = self.binop(st, op[1:], ("i", n), a, b)
            if op == "uadd":
                c = self.icmp(st, "ult", ("i", n), r, a)
                return self.select(st, c, ("i", n), mask(n), r)
            c = self.icmp(st, "ult", ("i", n), a, b)
            return self.select(st, c, ("i", n), 0, r)
        if op in ("ucmp", "scmp"):
            lt = self.icmp(st, op[0] + "lt", t, args[0], args[1])
            gt = self.icmp(st, op[0] + "gt", t, args[0], args[1])
            return self.select(st, lt, ("i", n), mask(n), self.select(st, gt, ("i", n), 1, 0))
        if op in ("ctpop", "ctlz", "cttz"):
            v = args[0]
            if isinstance(v, int):
                if op == "ctpop": return bin(v).count("1")
                if op == "ctlz": return n - v.bit_length()
                return (v & -v).bit_length() - 1 if v else n
            r = z3.BitVecVal(n if op != "ctpop" else 0, n)
            if op == "ctpop":
                for k in range(n):
                    r = r + z3.ZeroExt(n - 1, z3.Extract(k, k, v))
            elif op == "ctlz":
                for k in range(n):
                    r = z3.If(z3.Extract(k, k, v) == 1, z3.BitVecVal(n - 1 - k, n), r)
            else:
                for k in reversed(range(n)):
                    r = z3.If(z3.Extract(k, k, v) == 1, z3.BitVecVal(k, n), r)
            return self.norm(r)
        if op == "expect":
            return args[0]
        if op == "is" and "constant" in base:
            return 0
        if op == "bitreverse":
            v = args[0]
            if isinstance(v, int):
                return int(bin(v)[2:].zfill(n)[::-1], 2)
            return self.norm(z3.Concat(*[z3.Extract(k, k, v) for k in range(n)]))
        if op in ("trap", "ubsantrap"):
            raise PathEnd("panic", "trap")
        raise Unsupported("intrinsic " + name)

    def from_utf8(self, st, ret, p, n):
        """model of core::str::from_utf8: Ok(&str) iff the bytes are well-formed UTF-8 (RFC 3629)"""
        if not isinstance(n, int):
            n = self.norm(n)
        n = self.concretize(st, n)
        bs = []
        for k in range(n):
            x = self.read(st, self.padd(p, k), 1)
            bs.append(self.bv(x, 8))
        def rng(x, lo, hi):
            return z3.And(z3.UGE(x, lo), z3.ULE(x, hi))
        ok = [None] * (n + 4)
        F_, T_ = z3.BoolVal(False), z3.BoolVal(True)
        for k in range(n, n + 4):
            ok[k] = T_ if k == n else F_
        for k in reversed(range(n)):
            alts = [z3.And(z3.ULE(bs[k], 0x7f), ok[k + 1])]
            if k + 1 < n:
                c1 = rng(bs[k + 1], 0x80, 0xbf)
                alts.append(z3.And(rng(bs[k], 0xc2, 0xdf), c1, ok[k + 2]))
            if k + 2 < n:
                c2 = rng(bs[k + 2], 0x80, 0xbf)
                first = z3.Or(z3.And(bs[k] == 0xe0, rng(bs[k + 1], 0xa0, 0xbf)),
                              z3.And(rng(bs[k], 0xe1, 0xec), c1),
                              z3.And(bs[k] == 0xed, rng(bs[k + 1], 0x80, 0x9f)),
                              z3.And(rng(bs[k], 0xee, 0xef), c1))
                alts.append(z3.And(first, c2, ok[k + 3]))
            if k + 3 < n:
                c3 = rng(bs[k + 3], 0x80, 0xbf)
                first = z3.Or(z3.And(bs[k] == 0xf0, rng(bs[k + 1], 0x90, 0xbf)),
                              z3.And(rng(bs[k], 0xf1, 0xf3), c1),
                              z3.And(bs[k] == 0xf4, rng(bs[k + 1], 0x80, 0x8f)))
                alts.append(z3.And(first, c2, c3, ok[k + 4]))
            ok[k] = z3.Or(*alts)
        v = self.concretize(st, self.norm(z3.simplify(ok[0])) if n else 1)
        if v:
            self.write(st, ret, 8, 0)
            self.write(st, self.padd(ret, 8), 8, p)
            self.write(st, self.padd(ret, 16), 8, n)
        else:
            self.write(st, ret, 8, 1)
            self.write(st, self.padd(ret, 8), 8, UNDEF)
            self.write(st, self.padd(ret, 16), 8, UNDEF)

    def external(self, st, name, rt, args, nr):
        """calls leaving the encoded modules; every model is recorded in stubs_used"""
        if name.startswith("llvm."):
            return self.intrinsic(st, name, rt, rt, args)
        if "7___rustc" in name or name.startswith("__rust_"):
            def nm(s):
                return name.endswith(s)
            self.stubs_used.add("allocator (never fails)")
            if nm("___rust_alloc") or nm("___rust_alloc_zeroed") or nm("__rust_alloc"):
                size = self.norm(args[0])
                oid = self.new_obj(st, size, "heap")
                if nm("_zeroed"):
                    n = self.concretize(st, size)
                    for k in range(n):
                        st.mem[oid].cells[k] = (1, 0)
                return P(oid, 0)
            if nm("___rust_dealloc"):
                if args[0].obj is None:
                    raise PathEnd("memory", "dealloc of invalid pointer")
                o = self.wobj(st, args[0].obj)
                if not o.live:
                    raise PathEnd("memory", "double free")
                o.live = False
                return None
            if nm("___rust_realloc"):
                p, old, al, new = args
                o = self.obj(st, p.obj)
                oid = self.new_obj(st, self.norm(new), "heap")
                nsz, osz = self.norm(new), o.size
                if isinstance(nsz, int) and isinstance(osz, int) and nsz < osz:
                    self.memcpy(st, P(oid, 0), p, nsz)
                else:
                    dst = st.mem[oid]
                    dst.cells = dict(o.cells)
                    dst.maxw = o.maxw
                w = self.wobj(st, p.obj)
                w.live = False
                return P(oid, 0)
            if nm("no_alloc_shim_is_unstable_v2"):
                return None
        if name in ("bcmp", "memcmp"):
            return self.memcmp(st, args[0], args[1], args[2], name == "memcmp")
        if name == "memcpy" or name == "memmove":
            self.memcpy(st, args[0], args[1], args[2])
            return args[0]
        if "raw_vec" in name and "grow_one" in name:
            # RawVec { cap, ptr }: the instance for bytes that liballoc exports.  Only the object's size depends on the
            # element size; it is over-approximated
            self.stubs_used.add("RawVec::grow_one exported by liballoc (capacity doubled, at least 8)")
            v = args[0]
            cap = self.concretize(st, self.read(st, v, 8))
            new = max(8, 2 * cap)
            oid = self.new_obj(st, new * 64, "heap")
            if cap:
                old = self.load_val(st, self.padd(v, 8), PTR)
                o = self.obj(st, old.obj)
                if not o.live:
                    raise PathEnd("memory", "realloc after free")
                st.mem[oid].cells = dict(o.cells)
                st.mem[oid].maxw = o.maxw
                self.wobj(st, old.obj).live = False
            self.write(st, v, 8, new)
            self.write(st, self.padd(v, 8), 8, P(oid, 0))
            return None
        if "4core3str8converts9from_utf8" in name:
            self.stubs_used.add("core::str::from_utf8 (exact UTF-8 well-formedness)")
            self.from_utf8(st, args[0], args[1], args[2])
            return None
        if "3std2io5stdio" in name and ("_print" in name or "_eprint" in name):
            self.stubs_used.add("std::io::_print/_eprint (no effect)")
            return None
        if nr or self.decl_noreturn(name):
            d = demangle(name)
            loc = self.location(st, args)
            raise PathEnd("panic", "%s at %s" % (d, loc))
        raise Unsupported("external function " + demangle(name))

    def decl_noreturn(self, name):
        for m in self.prog.mods:
            if name in m.decls:
                return m.noreturn_line(m.decls[name])
        return False

    def override(self, st, name, args):
        """models that replace functions which do have a body"""
        if "3sup5vfail17h" in name:
            raise PathEnd("mismatch", args[0] if isinstance(args[0], int) else "?")
        if "HexDisplay" in name and ("6to_hex17h" in name or "11to_hex_from17h" in name):
            self.stubs_used.add("nom HexDisplay::to_hex (empty text)")
            self.write(st, args[0], 8, 0)
            self.write(st, self.padd(args[0], 8), 8, P(None, 1))
            self.write(st, self.padd(args[0], 16), 8, 0)
            return True
        return False

    # ---- main loop ----------------------------------------------------------------------
    def get(self, regs, v):
        if type(v) is str:
            return regs[v]
        if isinstance(v, tuple) and v and v[0] == "ptrtoint":
            return self.ptr_int(None, v[1])
        return v

    def branch(self, st, c):
        """decide a symbolic condition; forks the other side onto the worklist; returns the side taken"""
        c = self.norm(c)
        if isinstance(c, int):
            return bool(c)
        self.branches += 1
        v = self.truth(st, c)
        mine, other = (c, z3.Not(c)) if v else (z3.Not(c), c)
        self.sync(st.pc)
        if self.check(other):
            o = st.fork()
            o.model = self.solver.model()
            o.pc.append(other)
            o.forks += 1
            st.forks += 1
            st.pc.append(mine)
            self.sync(st.pc)
            return v, o
        return v

    def goto(self, fr, blk):
        fr.prev, fr.blk, fr.idx = fr.blk, blk, 0
        phis = fr.fn.blocks[blk][0]
        if phis:
            regs = fr.regs
            vals = [(p[1], self.get(regs, p[3][fr.prev])) for p in phis]
            for k, v in vals:
                regs[k] = v

    def run(self, st):
        """run one state to its end; may add states to self.work"""
        while True:
            fr = st.frames[-1]
            insts = fr.fn.blocks[fr.blk][1]
            regs = fr.regs
            get = self.get
            while True:
                I = insts[fr.idx]
                st.steps += 1
                self.steps += 1
                if st.steps > self.max_steps:
                    raise PathEnd("hang", "more than %d steps" % self.max_steps)
                op = I[0]
                try:
                    if op == "bin":
                        regs[I[1]] = self.binop(st, I[2], I[3], get(regs, I[4]), get(regs, I[5]))
                    elif op == "load":
                        regs[I[1]] = self.load_val(st, get(regs, I[3]), I[2])
                    elif op == "store":
                        self.store_val(st, get(regs, I[4]), I[2], get(regs, I[3]))
                    elif op == "gep":
                        p = get(regs, I[2])
                        off = I[3]
                        sym = None
                        for (iv, w, sz) in I[4]:
                            v = get(regs, iv)
                            if v is UNDEF:
                                raise Unsupported("gep by undef")
                            if isinstance(v, int):
                                off += sx(v, w) * sz
                            else:
                                if w < 64:
                                    v = z3.SignExt(64 - w, v)
                                v = v * sz if sz != 1 else v
                                sym = v if sym is None else sym + v
                        if p is UNDEF:
                            regs[I[1]] = UNDEF
                        elif sym is None and isinstance(p.off, int):
                            regs[I[1]] = P(p.obj, (p.off + off) & M64)
                        else:
                            t = self.bv(p.off, 64)
                            if sym is not None:
                                t = t + sym
                            regs[I[1]] = P(p.obj, self.norm(t + (off & M64)))
                    elif op == "icmp":
                        regs[I[1]] = self.icmp(st, I[2], I[3], get(regs, I[4]), get(regs, I[5]))
                    elif op == "fcmp":
                        regs[I[1]] = self.fcmp(st, I[2], I[3], get(regs, I[4]), get(regs, I[5]))
                    elif op == "br":
                        c = get(regs, I[2])
                        if c is UNDEF:
                            raise Unsupported("branch on undef in %s block %s" % (fr.fn.name, fr.blk))
                        if not isinstance(c, int):
                            c = self.branch(st, c)
                            if isinstance(c, tuple):
                                c, o = c
                                self.goto(o.frames[-1], I[4] if c else I[3])
                                self.work.append(o)
                                fr = st.frames[-1]
                        self.goto(fr, I[3] if c else I[4])
                        break
                    elif op == "jmp":
                        self.goto(fr, I[2])
                        break
                    elif op == "select":
                        regs[I[1]] = self.select(st, get(regs, I[3]), I[4], get(regs, I[5]), get(regs, I[6]))
                    elif op == "cast":
                        regs[I[1]] = self.cast(st, I[2], I[3], get(regs, I[4]), I[5])
                    elif op == "call":
                        _, dst, rt, callee, cargs, nr = I
                        cv = get(regs, callee)
                        if not isinstance(cv, P) or not isinstance(cv.obj, tuple) or cv.obj[0] != "g":
                            raise Unsupported("indirect call")
                        name = self.prog.resolve(cv.obj[1])
                        args = [get(regs, v) if v is not None else None for t, v in cargs]
                        if name.startswith("llvm."):
                            r = self.intrinsic(st, name, cargs[0][0] if cargs else rt, rt, args)
                            if dst is not None:
                                regs[dst] = r
                        elif self.override(st, name, args):
                            pass
                        else:
                            fn = self.prog.fn(name)
                            if fn is not None:
                                fr.idx += 1
                                self.push(st, fn, args, dst)
                                break
                            r = self.external(st, name, rt, args, nr)
                            if dst is not None:
                                regs[dst] = r
                    elif op == "ret":
                        v = get(regs, I[3]) if I[3] is not None else None
                        for oid in fr.allocas:
                            st.mem.pop(oid, None)
                        st.frames.pop()
                        if not st.frames:
                            raise PathEnd("ret", v)
                        if fr.dst is not None:
                            st.frames[-1].regs[fr.dst] = v
                        break
                    elif op == "switch":
                        v = get(regs, I[3])
                        if v is UNDEF:
                            raise Unsupported("switch on undef")
                        if not isinstance(v, int):
                            v = self.norm(v)
                        if isinstance(v, int):
                            tgt = I[4]
                            for cv, l in I[5]:
                                if cv == v:
                                    tgt = l
                                    break
                            self.goto(fr, tgt)
                            break
                        self.switch(st, I, v)
                        break
                    elif op == "alloca":
                        oid = self.new_obj(st, I[2], "stack")
                        fr.allocas.append(oid)
                        regs[I[1]] = P(oid, 0)
                    elif op == "extractvalue":
                        v = get(regs, I[2])
                        for k in I[3]:
                            v = v[k] if v is not UNDEF else UNDEF
                        regs[I[1]] = v
                    elif op == "insertvalue":
                        regs[I[1]] = self.insert(get(regs, I[2]), get(regs, I[3]), I[4])
                    elif op == "freeze":
                        v = get(regs, I[3])
                        regs[I[1]] = 0 if v is UNDEF and I[2][0] != "p" else NULL if v is UNDEF else v
                    elif op == "extractelement":
                        v = get(regs, I[2])
                        regs[I[1]] = v[self.concretize(st, get(regs, I[3]))] if v is not UNDEF else UNDEF
                    elif op == "insertelement":
                        v = list(get(regs, I[2]))
                        v[self.concretize(st, get(regs, I[4]))] = get(regs, I[3])
                        regs[I[1]] = tuple(v)
                    elif op == "shufflevector":
                        ab = tuple(get(regs, I[2])) + tuple(get(regs, I[3]))
                        regs[I[1]] = tuple(ab[k] if k is not UNDEF else UNDEF for k in I[4])
                    elif op == "unreachable":
                        raise PathEnd("ub", "unreachable reached in " + demangle(fr.fn.name))
                    else:
                        raise Unsupported("instruction " + str(I[2]))
                except NeedFork as nf:
                    self.enumerate(st, nf.term)
                    fr = st.frames[-1]
                    regs = fr.regs
                    continue
                fr.idx += 1

    def insert(self, agg, v, path):
        agg = list(agg)
        if len(path) == 1:
            agg[path[0]] = v
        else:
            agg[path[0]] = self.insert(agg[path[0]], v, path[1:])
        return tuple(agg)

    def enumerate(self, st, t):
        """split st into one state per feasible value of t (complete enumeration)"""
        isb = isinstance(t, BOOL)
        vals = []
        self.sync(st.pc)
        excl = []
        m = st.model
        while True:
            v = m.eval(t, model_completion=True)
            pv = (1 if z3.is_true(v) else 0) if isb else v.as_long()
            vals.append((pv, m))
            if isb:
                excl.append(t if not pv else z3.Not(t))
            else:
                excl.append(t != z3.BitVecVal(pv, t.size()))
            if len(vals) > 4096:
                raise Unsupported("more than 4096 values to enumerate")
            if not self.check(*excl):
                break
            m = self.solver.model()
        self.branches += 1
        states = [st] + [st.fork() for _ in vals[1:]]
        for s, (pv, m) in zip(states, vals):
            s.known[t.get_id()] = (t, pv)
            c = (t if pv else z3.Not(t)) if isb else t == z3.BitVecVal(pv, t.size())
            s.pc.append(c)
            s.model = m
            if len(vals) > 1:
                s.forks += 1
        for s in states[1:]:
            self.work.append(s)
        self.sync(st.pc)

    def switch(self, st, I, v):
        _, _, t, _, dflt, cases = I
        n = bits(t)
        self.branches += 1
        by = {}
        for cv, l in cases:
            by.setdefault(l, []).append(cv)
        conds = []
        if n == 1:
            v = self.bv(v, 1)
        for l, cvs in by.items():
            if l == dflt:
                continue
            conds.append((l, z3.Or(*[v == z3.BitVecVal(c, n) for c in cvs]) if len(cvs) > 1 else v == z3.BitVecVal(cvs[0], n)))
        dc = [v != z3.BitVecVal(c, n) for c, l in cases if l != dflt]
        conds.append((dflt, z3.And(*dc) if len(dc) > 1 else dc[0] if dc else z3.BoolVal(True)))
        self.sync(st.pc)
        mine = None
        others = []
        for l, c in conds:
            if mine is None and self.truth(st, c):
                mine = (l, c)
                continue
            if self.check(c):
                others.append((l, c, self.solver.model()))
        if mine is None:
            raise Unsupported("switch without a target under the model")
        for l, c, m in others:
            o = st.fork()
            o.model = m
            o.pc.append(c)
            o.forks += 1
            self.goto(o.frames[-1], l)
            self.work.append(o)
        if others:
            st.forks += 1
            st.pc.append(mine[1])
            self.sync(st.pc)
        self.goto(st.frames[-1], mine[0])

    # ---- entry --------------------------------------------------------------------------
    def initial(self, fnname):
        fn = self.prog.fn(fnname)
        st = State()
        st.frames, st.mem, st.pc, st.known = [], {}, [], {}
        st.steps = st.nlb = st.nobj = st.forks = 0
        st.token = object()
        st.mem["in"] = Obj(self.n, "input", self.base, None)
        lim = z3.BitVecVal(1 << 47, 64)
        pc = [z3.UGE(self.base, z3.BitVecVal(4096, 64)), z3.ULE(self.base, lim),
              z3.ULE(self.n, z3.BitVecVal(self.maxlen, 64) if self.maxlen is not None else lim)]
        st.pc.append(z3.And(*pc))
        self.sync(st.pc)
        if not self.check():
            raise Unsupported("unsatisfiable initial state")
        st.model = self.solver.model()
        self.push(st, fn, [P("in", 0), self.n, self.a, self.b], None)
        return st

    def solve_input(self, st, small=True):
        """concrete input reaching the end of this path, as short as a few attempts get"""
        self.sync(st.pc)
        m = st.model
        nv = m.eval(self.n, model_completion=True).as_long()
        if small:
            for lim in (8, 32, 256, 4096, 1 << 20, 1 << 32):
                if nv <= lim:
                    break
                if self.check(z3.ULE(self.n, z3.BitVecVal(lim, 64))):
                    m = self.solver.model()
                    break
        n = m.eval(self.n, model_completion=True).as_long()
        g = lambda t: m.eval(t, model_completion=True).as_long()
        idx = {k for k in self.reads if k < n}
        for t in self.symreads.values():
            k = g(t)
            if k < n:
                idx.add(k)
        top = max(idx) + 1 if idx else 0
        top = min(top, 1 << 16)
        data = bytearray(top)
        for k in idx:
            if k < top:
                data[k] = g(z3.Select(self.A, z3.BitVecVal(k, 64)))
        return m, dict(n=n, base=g(self.base) % 4096, data=bytes(data).hex(), a=g(self.a), b=g(self.b))

    def explore(self, fnname):
        """yields finished Paths"""
        self.work = [self.initial(fnname)]
        paths = 0
        while self.work:
            st = self.work.pop()
            self.sync(st.pc)
            try:
                self.run(st)
            except PathEnd as e:
                if e.kind == "infeasible":
                    continue
                paths += 1
                p = Path()
                p.kind, p.info = e.kind, e.info
                p.steps, p.forks = st.steps, st.forks
                if e.kind == "memory" or e.kind == "ub":
                    # the model of the failing access may differ from the path model: keep it
                    m = st.model
                    st2 = st
                    m, p.inp = self._input_from(m)
                else:
                    m, p.inp = self.solve_input(st)
                p.digest = None
                if e.kind == "ret":
                    v = e.info
                    p.digest = v if isinstance(v, int) else m.eval(v, model_completion=True).as_long()
                yield p
                if paths > self.max_paths:
                    raise Budget("paths")
            if self.deadline and time.time() > self.deadline:
                raise Budget("time")

    def _input_from(self, m):
        g = lambda t: m.eval(t, model_completion=True).as_long()
        n = g(self.n)
        idx = {k for k in self.reads if k < n}
        for t in self.symreads.values():
            k = g(t)
            if k < n:
                idx.add(k)
        top = min(max(idx) + 1 if idx else 0, 1 << 16)
        data = bytearray(top)
        for k in idx:
            if k < top:
                data[k] = g(z3.Select(self.A, z3.BitVecVal(k, 64)))
        return m, dict(n=n, base=g(self.base) % 4096, data=bytes(data).hex(), a=g(self.a), b=g(self.b))

def z3vars(t):
    seen, out, todo = set(), set(), [t] if not isinstance(t, int) else []
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x)
        todo.extend(x.children())
    return out

if __name__ == "__main__":
    import sys, glob, collections
    d = sys.argv[1]
    prop = sys.argv[2]
    lls = [sorted(glob.glob(d + "/" + p))[-1] for p in ("harness-*.ll", "nom-*.ll", "nom_derive-*.ll")]
    prog = Program(lls)
    for h in sys.argv[3:]:
        mod, fn = h.split("::")
        m = re.search(r"_n(\d+)$", mod)
        t = time.time()
        s = Sym(prog, maxlen=int(m.group(1)) if m else None)
        c = collections.Counter()
        for p in s.explore(prog.find("harness", prop, mod, fn)):
            k = p.kind if p.kind != "ret" else {1: "ok", 2: "inc", 3: "err", 4: "fail"}[p.digest & 255]
            c[k] += 1
            if p.kind != "ret":
                print(p.kind, p.info, p.inp)
        print(h, dict(c), "steps", s.steps, "queries", s.queries, "solver %.2f" % s.solver_s, "total %.2f" % (time.time() - t), s.stubs_used)
