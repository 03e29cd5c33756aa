"""Symbolic executor: turns the LLVM IR of the real code into verification
conditions.

 * calls to functions that carry a contract are replaced by the contract,
   every other function is executed through its body;
 * loops with a constant trip count are unrolled completely;
 * loops with a symbolic trip count are closed by an inductive invariant
   inferred from one generic iteration (see summarise());
 * every load/store is checked against the bounds of the object accessed.
"""
import re
import sys
from terms import *
import terms as T
import irload
from irload import UNDEF, FnRef, GRef, NULL, Const
from smt import Prover, sat, relevant, STATS

sys.setrecursionlimit(20000)


class NeedSummary(Exception):
    def __init__(self, key):
        self.key = key


class Fail(Exception):
    """the executor reached a definite error (e.g. out of bounds access)"""
    pc = None

    def __init__(self, msg, pc=None):
        Exception.__init__(self, msg)
        self.pc = pc


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off

    def __hash__(self):
        return hash((self.obj, self.off if isinstance(self.off, int) else self.off.id))

    def __repr__(self):
        return "&%s+%s" % (self.obj, self.off)


NULLP = Ptr(0, 0)


class SelectFork(Unsupported):
    """a choice between unrelated pointers: both continue on their own path"""

    def __init__(self, c, dst, a, b):
        Unsupported.__init__(self, "select between unrelated pointers")
        self.c, self.dst, self.a, self.b = c, dst, a, b


class PInt:
    """integer view of a pointer"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return "pint(%r)" % (self.p,)


class SymArr:
    """array of equally sized elements: initial content + update log"""
    __slots__ = ("esize", "kind", "base", "log", "name", "acc")

    def __init__(self, esize, kind, base, name=None):
        self.acc = None       # accumulate mode (inside a loop under summary): tag name
        self.esize = esize
        self.kind = kind      # 'real' | 'int' | 'ptr'
        self.base = base      # index term -> value
        self.log = ()
        self.name = name

    def copy(self):
        a = SymArr(self.esize, self.kind, self.base, self.name)
        a.log = self.log
        a.acc = self.acc
        return a


class Obj:
    __slots__ = ("id", "size", "cells", "arr", "stride", "init", "name", "freed", "const", "cinit", "prov")

    def __init__(self, id, size, name=""):
        self.id = id
        self.size = size
        self.cells = {}
        self.arr = None       # field offset -> SymArr   (array mode)
        self.stride = None
        self.init = "undef"   # 'undef' | 'zero' | 'lazy'
        self.name = name
        self.freed = False
        self.const = False

    def copy(self):
        o = Obj(self.id, self.size, self.name)
        o.cells = dict(self.cells)
        o.arr = {k: v.copy() for k, v in self.arr.items()} if self.arr is not None else None
        o.stride = self.stride
        o.init = self.init
        o.freed = self.freed
        o.const = self.const
        return o


class State:
    __slots__ = ("mem", "pc", "own", "data")

    def __init__(self):
        self.mem = {}
        self.pc = ()
        self.own = set()
        self.data = {}

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.data = dict(self.data)
        self.own = set()
        return s

    def w(self, oid):
        """writable object"""
        o = self.mem[oid]
        if oid not in self.own:
            o = o.copy()
            self.mem[oid] = o
            self.own.add(oid)
        return o

    def assume(self, c):
        if c is True:
            return
        if isinstance(c, B) and c.op == "and":
            for x in c.args:
                self.assume(x)
            return
        if c not in self.pc:
            self.pc = self.pc + (c,)


class Outcome:
    __slots__ = ("kind", "st", "val", "regs", "prev", "blk", "phis")

    def __init__(self, kind, st, val=None, regs=None, prev=None, blk=None, phis=False):
        self.kind = kind
        self.st = st
        self.val = val
        self.regs = regs
        self.prev = prev
        self.blk = blk
        self.phis = phis


class Frame:
    __slots__ = ("F", "id", "trial", "name")
    n = 0

    def __init__(self, F):
        Frame.n += 1
        self.id = Frame.n
        self.F = F
        self.trial = set()


class Ob:
    """a proof obligation"""
    __slots__ = ("name", "pc", "goal", "kind", "where")

    def __init__(self, name, pc, goal, kind="post", where=""):
        self.name = name
        self.pc = pc
        self.goal = goal
        self.kind = kind
        self.where = where


class Exec:
    def __init__(self, mod, prover=None, contracts=None, merge=True, max_steps=8000000, max_paths=4000):
        self.mods = mod if isinstance(mod, list) else [mod]
        self.prover = prover or Prover()
        self.next_obj = 1
        self.contracts = contracts or []     # [(regex, handler)]
        self.ccache = {}
        self.merge = merge
        self.nomerge = None
        self.lazy = False          # functions in which the paths are kept apart
        self.obs = []
        self.ob_suppress = 0
        self.steps = 0
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.globals = {}
        self.called = {}
        self.contracts_used = {}
        self.assumed_ext = set()
        self.loops_summarised = []
        self.fresh_n = 0
        self.bounds_checks = True
        self.sampling = None
        self.loop_invariants = []           # user supplied: [(func regex, handler)]
        self.unroll_limit = 100000
        self.dem = {}
        self.fnmod = {}
        for m in self.mods:
            d = m.demangled()
            for k, v in d.items():
                self.dem.setdefault(k, v)
            for k in m.fnv:
                if k not in m.decl:
                    self.fnmod.setdefault(k, m)
        self.falias = {}
        for m in self.mods:
            for a, al in m.alias.items():
                t = m.vname(al)
                if t in m.fnv:
                    self.falias[a] = t
        self.gmod = {}
        for m in self.mods:
            for g, gv in m.gl.items():
                if g not in self.gmod or (irload.lib().LLVMGetInitializer(gv)):
                    self.gmod[g] = m
        self.call_depth = 0
        import externs
        self.ext = externs.table()
        self.extrx = externs.rx_table()
        self.thrown = []

    # ------------------------------------------------------------ helpers
    def fresh(self, base):
        self.fresh_n += 1
        return "%s!%d" % (base, self.fresh_n)

    def new_obj(self, st, size, name="", init="undef"):
        oid = self.next_obj
        self.next_obj += 1
        o = Obj(oid, size, name)
        o.init = init
        st.mem[oid] = o
        st.own.add(oid)
        return o

    def arr_obj(self, st, name, n, esize=8, kind="real", base=None):
        """array-mode object of n elements (n may be symbolic)"""
        o = self.new_obj(st, imul(n, esize), name)
        o.stride = esize
        if base is None:
            base = (lambda i: rsel(name, i)) if kind == "real" else (lambda i: isel(name, i))
        o.arr = {0: SymArr(esize, kind, base, name)}
        return Ptr(o.id, 0)

    def oblige(self, st, goal, name, kind="safety", where=""):
        if goal is True:
            return
        if self.ob_suppress:
            return
        self.obs.append(Ob(name, st.pc, goal, kind, where))

    def decide(self, st, c, timeout=None):
        if c is True or c is False:
            return c
        return self.prover.decide(st.pc, c, timeout, lazy=self.lazy)

    # ------------------------------------------------------------ memory
    def glob(self, st, name):
        """materialise a global"""
        oid = self.globals.get(name)
        if oid is None:
            oid = self.next_obj
            self.next_obj += 1
            self.globals[name] = oid
        if oid not in st.mem:
            m = self.gmod.get(name)
            if m is None:
                raise Unsupported("unknown global " + name)
            t, init, const = m.global_init(name)
            o = Obj(oid, t.size, "@" + name)
            o.init = "undef" if init is None else "zero"
            if init is not None:
                self._fill(st, o, 0, t, init)
            else:
                o.init = "extern"
            o.const = const
            st.mem[oid] = o
            st.own.add(oid)
        return oid

    def _fill(self, st, o, off, t, v):
        if isinstance(v, Const):
            if t.kind == "struct":
                for f, fo, x in zip(t.fields, t.offs, v.items):
                    self._fill(st, o, off + fo, f, x)
            else:
                for i, x in enumerate(v.items):
                    self._fill(st, o, off + i * t.elem.size, t.elem, x)
            return
        if v is UNDEF:
            return
        if t.kind in ("int", "float") and v == 0:
            return
        o.cells[off] = (t.store, self.cval(st, v))

    def cval(self, st, v):
        """constant operand -> runtime value"""
        if isinstance(v, GRef):
            return Ptr(self.glob(st, v.name), v.off)
        if v is NULL:
            return NULLP
        if isinstance(v, tuple):
            if v[0] == "nulloff":
                return Ptr(0, v[1])
            if v[0] == "fpspecial":
                return self.fpspecial(v[1])
            if v[0] == "cexpr":
                return self.cexpr(st, v)
            raise Unsupported("const %r" % (v,))
        if isinstance(v, Const):
            return tuple(self.cval(st, x) for x in v.items)
        return v

    def fpspecial(self, d):
        import math
        if math.isnan(d):
            return rvar("NaN")
        return rvar("+inf") if d > 0 else rvar("-inf")

    def cexpr(self, st, v):
        op, args = v[1], [self.cval(st, a) for a in v[2]]
        if op == "ptrtoint":
            return PInt(args[0])
        if op == "sub":
            return self.isub_(args[0], args[1])
        raise Unsupported("constexpr " + op)

    def isub_(self, a, b):
        if isinstance(a, PInt) and isinstance(b, PInt):
            if a.p.obj != b.p.obj:
                raise Unsupported("difference of unrelated pointers")
            return isub(a.p.off, b.p.off)
        if isinstance(a, PInt):
            return PInt(Ptr(a.p.obj, isub(a.p.off, b)))
        return isub(a, b)

    def check_bounds(self, st, p, size, what):
        if p.obj == 0:
            raise Fail("null pointer %s" % what, st.pc)
        o = st.mem.get(p.obj)
        if o is None:
            raise Fail("dangling pointer")
        if o.freed:
            raise Fail("use after free of %s" % o.name, st.pc)
        if not self.bounds_checks or o.size is None:
            return o
        if isinstance(p.off, int) and isinstance(o.size, int):
            if p.off < 0 or p.off + size > o.size:
                c = sat(list(st.pc), 2000)[0]
                if c == "unsat":
                    raise Infeasible()
                raise Fail("%s out of bounds: %s offset %d size %d (object size %d)" % (what, o.name, p.off, size, o.size), st.pc)
            return o
        goal = band(ile(0, p.off), ile(iadd(p.off, size), o.size))
        if goal is False:
            raise Fail("%s out of bounds: %s" % (what, o.name), st.pc)
        self.oblige(st, goal, "in-bounds %s of %s" % (what, o.name), "bounds")
        return o

    def load(self, st, p, t):
        if isinstance(p, tuple) or p is UNDEF:
            raise Unsupported("load through %r" % (p,))
        if isinstance(p, PInt):
            p = p.p
        if not isinstance(p, Ptr):
            raise Unsupported("load through %r" % (p,))
        if t.kind in ("struct", "array", "vector"):
            return self.load_agg(st, p, t)
        o = self.check_bounds(st, p, t.store, "load")
        return self.load_from(st, o, p.off, t)

    def load_agg(self, st, p, t):
        if t.kind == "struct":
            return tuple(self.load(st, Ptr(p.obj, iadd(p.off, fo)), f) for f, fo in zip(t.fields, t.offs))
        return tuple(self.load(st, Ptr(p.obj, iadd(p.off, i * t.elem.size)), t.elem) for i in range(t.n))

    def load_from(self, st, o, off, t):
        if o.arr is not None:
            return self.conv_load(self.arr_load(st, o, off, t), t)
        if isinstance(off, int):
            c = o.cells.get(off)
            if c is not None and c[0] == t.store:
                return self.conv_load(c[1], t)
            return self.load_odd(st, o, off, t)
        # symbolic offset into a cell object: chain over the candidate cells
        return self.load_symoff(st, o, off, t)

    def conv_load(self, v, t):
        if v is UNDEF:
            return UNDEF
        if t.kind == "float":
            if isinstance(v, I) and all(len(m) == 1 and IA.byid[m[0]].op == "b2i" for m in v.m if m):
                return i2r(v)
            if isinstance(v, (I, PInt, Ptr)):
                raise Unsupported("float load of %r" % (v,))
            if isinstance(v, RBits):
                return v.r
            if isinstance(v, int):
                return Fraction(v)
            return v
        if t.kind == "ptr":
            if isinstance(v, PInt):
                return v.p
            if v == 0 and isinstance(v, int):
                return NULLP
            return v
        if t.kind == "int":
            if isinstance(v, Ptr):
                return PInt(v) if v.obj or not isinstance(v.off, int) else v.off
            if isinstance(v, (R, Fraction)):
                return RBits(v)
            if isinstance(v, FnRef):
                return PInt(v)
            if isinstance(v, int) and not isinstance(v, bool):
                return wrap(v, t.bits)
            return v
        return v

    def load_odd(self, st, o, off, t):
        """no exactly matching cell"""
        n = t.store
        over = []
        for q in range(off - 15, off + n):
            c = o.cells.get(q)
            if c is not None and q + c[0] > off:
                over.append((q, c))
        if not over:
            if o.init == "zero":
                return NULLP if t.kind == "ptr" else (ZERO if t.kind == "float" else 0)
            if o.init == "lazy":
                return self.lazy_cell(st, o, off, t)
            if o.init == "extern":
                if o.name == "@__libc_single_threaded":
                    return 1
                raise Unsupported("load of external global " + o.name)
            return UNDEF
        if t.kind == "int" and any(not isinstance(c[1], (int, bool)) and c[1] is not UNDEF for q, c in over) and \
                all(off <= q and q + c[0] <= off + n for q, c in over):
            cov = sum(c[0] for q, c in over)
            if cov == n:
                return Pack(tuple((q - off, c[0], c[1]) for q, c in sorted(over, key=lambda z: z[0])))
        # assemble from concrete integer bytes
        bs = [None] * n
        if o.init == "zero":
            bs = [0] * n
        for q, (sz, v) in over:
            if v is UNDEF:
                continue
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, I) and len(over) == 1 and sz == 8 and n == 4 and off - q in (0, 4):
                r = self.half(st, v, off - q)
                if r is not None:
                    return r
            if not isinstance(v, int):
                # int view of two ... only whole-cell copies supported
                raise Unsupported("partial load of %r" % (v,))
            if t.kind == "float" or (isinstance(v, int) and sz == 8 and o.name == "real"):
                raise Unsupported("reinterpreting load")
            raw = (v & ((1 << (8 * sz)) - 1)).to_bytes(sz, "little")
            for i in range(sz):
                if 0 <= q + i - off < n:
                    bs[q + i - off] = raw[i]
        if any(b is None for b in bs):
            return UNDEF
        return wrap(int.from_bytes(bytes(bs), "little"), 8 * n)

    def split32(self, v):
        lo, hi = {}, {}
        for m, c in v.m.items():
            if c % (1 << 32) == 0:
                hi[m] = c >> 32
            elif not m and 0 <= c:
                lo[m] = c & 0xffffffff
                if c >> 32:
                    hi[m] = c >> 32
            else:
                lo[m] = c
        return I.mk(lo) if lo else 0, I.mk(hi) if hi else 0

    def half(self, st, v, which):
        """one 32-bit half of a 64-bit value L + 2^32 H"""
        lo, hi = self.split32(v)
        if self.decide(st, band(ile(0, lo), ilt(lo, 1 << 31))) is not True:
            return None
        return lo if which == 0 else hi

    def lazy_cell(self, st, o, off, t):
        nm = "%s@%d" % (o.name, off)
        if t.kind == "float":
            v = rvar(nm)
        elif t.kind == "int":
            v = ivar(nm)
        else:
            raise Unsupported("lazy pointer " + nm)
        o2 = st.w(o.id)
        o2.cells[off] = (t.store, v)
        return v

    def cand_cells(self, st, o, off, t):
        """cells that a symbolic offset may denote"""
        if not isinstance(o.size, int) or o.size > 8192:
            raise Unsupported("symbolic offset into %s" % o.name)
        n = t.store
        out = []
        dr = idivrem_const(off, n)
        first = dr[1] if dr else 0
        step = n if dr else 1
        for q in range(first, o.size - n + 1, step):
            c = ieq(off, q)
            if c is False:
                continue
            out.append((q, c))
        if len(out) > 300:
            raise Unsupported("symbolic offset into %s (%d candidates)" % (o.name, len(out)))
        return out

    def load_symoff(self, st, o, off, t):
        cands = []
        for q, c in self.cand_cells(st, o, off, t):
            d = self.decide(st, c)
            if d is False:
                continue
            cell = o.cells.get(q)
            if d is True:
                return self.load_from(st, o, q, t)
            if cell is None and o.init == "undef":
                continue
            cands.append((c, self.load_from(st, o, q, t)))
        if not cands:
            return UNDEF
        v = cands[-1][1]
        for c, x in reversed(cands[:-1]):
            v = self.ite(c, x, v)
        return v

    def ite(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if a is b or (type(a) == type(b) and not isinstance(a, tuple) and a == b):
            return a
        if a is HAVOC or b is HAVOC:
            return HAVOC
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple):
            return tuple(self.ite(c, x, y) for x, y in zip(a, b))
        ra = isinstance(a, (R, Fraction))
        rb = isinstance(b, (R, Fraction))
        if ra or rb:
            if isinstance(a, (I, Ptr, B)) or isinstance(b, (I, Ptr, B)):
                raise Unmergeable()
            return rite(c, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                return Ptr(a.obj, iite(c, a.off, b.off))
            raise Unmergeable()
        if isinstance(a, (PInt, RBits)) and isinstance(b, type(a)):
            if isinstance(a, RBits):
                return RBits(rite(c, a.r, b.r))
            p = self.ite(c, a.p, b.p)
            return PInt(p)
        if isinstance(a, (Ptr, FnRef, PInt)) or isinstance(b, (Ptr, FnRef, PInt)):
            raise Unmergeable()
        if isinstance(a, B) or isinstance(b, B):
            if isinstance(a, (B, bool)) and isinstance(b, (B, bool)):
                return bite(c, a, b)
            if (isinstance(a, B) and b in (0, 1)) or (isinstance(b, B) and a in (0, 1)):
                return bite(c, tob(a), tob(b))
            return iite(c, toi(a), toi(b))
        if isinstance(a, bool) or isinstance(b, bool):
            return iite(c, int(a) if isinstance(a, bool) else a, int(b) if isinstance(b, bool) else b)
        if isinstance(a, (I, int)) and isinstance(b, (I, int)):
            return IteNum(c, a, b)
        raise Unmergeable()

    def arr_field(self, o, off, size, kind):
        """locate (SymArr, index term) of an access in an array-mode object"""
        s = o.stride
        if s is None:
            s = size
            if kind == "int" and size == 1:
                pass
            o.stride = s
        d = idivrem_const(off, s)
        if d is None:
            return None
        q, r = d
        a = o.arr.get(r)
        if a is None:
            # element of a wider stride that has sub-elements of the same size
            for fo, x in o.arr.items():
                if fo < r < fo + x.esize:
                    return None
            return ("new", r, q)
        if a.esize != size:
            return None
        return (a, r, q)

    def arr_load(self, st, o, off, t):
        kind = "real" if t.kind == "float" else t.kind
        if o.stride is None:
            if o.init == "zero":
                return NULLP if kind == "ptr" else (ZERO if kind == "real" else 0)
            return UNDEF
        f = self.arr_field(o, off, t.store, kind)
        if f is None:
            raise Unsupported("array access at %s of %s (stride %s, %d bytes)" % (off, o.name, o.stride, t.store))
        if f[0] == "new":
            if o.init == "zero":
                return NULLP if kind == "ptr" else (ZERO if kind == "real" else 0)
            if o.init == "lazy":
                nm = "%s.f%d" % (o.name, f[1])
                o2 = st.w(o.id)
                base = (lambda i: rsel(nm, i)) if kind == "real" else (lambda i: isel(nm, i))
                o2.arr[f[1]] = SymArr(t.store, kind, base, nm)
                return self.sa_read(st, o2.arr[f[1]], f[2])
            return UNDEF
        a, r, q = f
        return self.sa_read(st, a, q)

    def sa_read(self, st, a, q, upto=None):
        if a.acc is not None:
            nm = "%s!%d" % (a.acc, len(a.log))
            return rsel(nm, q) if a.kind == "real" else isel(nm, q)
        log = a.log if upto is None else a.log[:upto]
        for n in range(len(log) - 1, -1, -1):
            e = log[n]
            if e[0] == "lamn":
                r = self.lamn_read(st, a, q, n, e)
                if r is not None:
                    return r[0]
                continue
            if e[0] == "w":
                c = ieq(e[1], q)
                if c is True:
                    return e[2]
                if c is False:
                    continue
                hot = self.sampling is not None and n >= 8
                d = self.decide(st, c) if not hot else None
                if d is True:
                    return e[2]
                if d is False:
                    continue
                if hot:
                    # a sample iteration only suggests a shape; this array will be tried as an accumulator
                    self.sampling.add(id(a.base))
                    nm = self.fresh("smp")
                    return rvar(nm) if a.kind == "real" else ivar(nm)
                rest = self.sa_read(st, a, q, n)
                return self.ite(c, e[2], rest)
            elif e[0] == "lam":
                r = self.lam_read(st, a, q, n, e)
                if r is not None:
                    return r[0]
            elif e[0] == "acc":
                rest = self.sa_read(st, a, q, n)
                return self.acc_read(st, rest, q, e)
            elif e[0] == "fill":
                return e[1]
            elif e[0] == "copy":
                # ('copy', dst0, cnt, fn)   [dst0, dst0+cnt) := fn(idx - dst0)
                inr = band(ile(e[1], q), ilt(q, iadd(e[1], e[2])))
                d = self.decide(st, inr)
                if d is False:
                    continue
                v = e[3](isub(q, e[1]))
                if d is True:
                    return v
                return self.ite(inr, v, self.sa_read(st, a, q, n))
            else:
                raise Unsupported("log " + e[0])
        return a.base(q)

    def solve_bv(self, st, idx, bv, q, N):
        """find x with idx[bv:=x] == q. returns (x, cond) / False (no such x) / None (don't know)"""
        if isinstance(idx, int) or bv.id not in freevars(idx):
            c = ieq(idx, q)
            return ("const", c)
        coef = 0
        rest = {}
        lin = True
        for m, c in idx.m.items():
            if m == (bv.id,):
                coef = c
            elif any(bv.id in freevars(IA.byid[a]) for a in m):
                lin = False
                rest[m] = c
            else:
                rest[m] = c
        if lin:
            rhs = isub(q, I.mk(rest))
            x = iexactdiv(rhs, coef)
            if x is not None:
                return ("x", x, True)
            d = idivrem_const(rhs, abs(coef))
            if d is not None and d[1] != 0:
                return False
            # general: x = rhs/coef when divisible
            xq = iatom(IA.mk("div", rhs if coef > 0 else ineg(rhs), abs(coef)))
            c = ieq(imul(xq, abs(coef)), rhs if coef > 0 else ineg(rhs))
            dd = self.decide(st, c)
            if dd is False:
                return False
            return ("x", xq, c)
        # non linear: match idx against q syntactically
        mt = match_bv(idx, q, bv)
        if mt is not None:
            return ("x", mt, True)
        # residues: constants modulo the gcd of all non-constant coefficients
        g = 0
        dlt = isub(idx, q)
        if isinstance(dlt, I):
            for m, c in dlt.m.items():
                if m != ():
                    g = math.gcd(g, c)
            if g > 1 and dlt.m.get((), 0) % g:
                return False
        return None

    def lam_read(self, st, a, q, n, e):
        _, bv, N, writes = e
        # last write first
        acc = None
        stack = []
        for (idx, val) in reversed(writes):
            s = self.solve_bv(st, idx, bv, q, N)
            if s is False:
                continue
            if s is None:
                # prove that no iteration writes q
                k = ivar(self.fresh("kk"))
                c = ieq(subst(idx, {bv.id: k}), q)
                if self.prover.decide(st.pc + (ile(0, k), ilt(k, N)), c) is False:
                    continue
                raise Unsupported("read of a loop-written array at an unresolvable index")
            if s[0] == "const":
                if s[1] is False:
                    continue
                c = band(s[1], ilt(0, N))
                stack.append((c, subst(val, {bv.id: isub(N, 1)})))
                continue
            x, cond = s[1], s[2]
            c = band(cond, ile(0, x), ilt(x, N))
            if not isinstance(idx, int) and not is_linear_in(idx, bv):
                # later iterations must not overwrite it
                k = ivar(self.fresh("kk"))
                if self.prover.decide(st.pc + (c, ilt(x, k), ilt(k, N)) if c is not True else st.pc + (ilt(x, k), ilt(k, N)),
                                      ieq(subst(idx, {bv.id: k}), q)) is not False:
                    raise Unsupported("loop may overwrite: no injectivity for %s" % idx)
            stack.append((c, subst(val, {bv.id: x})))
        if not stack:
            return None
        out = []
        for c, v in stack:
            d = self.decide(st, c)
            if d is False:
                continue
            out.append((c if d is None else True, v))
            if d is True:
                break
        if not out:
            return None
        if out[-1][0] is True:
            v = out[-1][1]
            out = out[:-1]
        else:
            v = self.sa_read(st, a, q, n)
        for c, x in reversed(out):
            v = self.ite(c, x, v)
        return (v,)

    def lamn_read(self, st, a, q, n, e):
        """writes idx(b1..bm) := val(b1..bm) under nested loops"""
        _, bvs, idx, val = e
        # no iteration writes q?
        m = {}
        facts = []
        for bv, N in bvs:
            k = ivar(self.fresh("kk"))
            m[bv.id] = k
            facts += [ile(0, k), ilt(k, subst(N, m))]
        c = ieq(subst(idx, m), q)
        if c is False or self.prover.decide(st.pc + tuple(f for f in facts if f is not True), c) is False:
            return None
        sol = {}
        r = match_multi(idx, q, [bv for bv, N in bvs], sol)
        if not r:
            raise Unsupported("read of an array written by nested loops at an unresolvable index")
        rng = []
        for bv, N in bvs:
            x = sol[bv.id]
            rng += [ile(0, x), ilt(x, subst(N, sol))]
        c = band(*rng)
        # injectivity: another iteration writing the same element must write the same value
        m2 = {}
        facts = []
        for bv, N in bvs:
            k = ivar(self.fresh("kk"))
            m2[bv.id] = k
            facts += [ile(0, k), ilt(k, subst(N, m2))]
        same = band(*[ieq(m2[bv.id], sol[bv.id]) for bv, N in bvs])
        if self.prover.decide(st.pc + tuple(f for f in facts + [c, ieq(subst(idx, m2), q)] if f is not True), same) is not True:
            raise Unsupported("nested loops may overwrite")
        d = self.decide(st, c)
        v = subst(val, sol)
        if d is True:
            return (v,)
        if d is False:
            return None
        return (self.ite(c, v, self.sa_read(st, a, q, n)),)

    def acc_read(self, st, rest, q, e):
        _, bvs, writes = e
        v = rest
        if not bvs:
            for idx, val in writes:
                c = ieq(idx, q)
                d = self.decide(st, c)
                if d is False:
                    continue
                v = self.addk(v, val if d is True else self.ite(c, val, ZERO if isinstance(val, (R, Fraction)) else 0))
            return v
        for (idx, val) in writes:
            cur = val
            dead = False
            # affine resolution over the innermost variables is left to the Sum-of-ite form
            if len(bvs) == 1:
                bv, N = bvs[0]
                s = self.solve_bv(st, idx, bv, q, N) if not isinstance(idx, int) else ("const", ieq(idx, q))
                if s is False:
                    continue
                if s is not None and s[0] == "x" and is_linear_in(idx, bv):
                    c = band(s[2], ile(0, s[1]), ilt(s[1], N))
                    d = self.decide(st, c)
                    if d is False:
                        continue
                    t = subst(val, {bv.id: s[1]})
                    v = self.addk(v, t if d is True else self.ite(c, t, zero_of(t)))
                    continue
                if s is not None and s[0] == "const":
                    d = self.decide(st, s[1])
                    if d is False:
                        continue
                    t = xsum(bv, N, val)
                    v = self.addk(v, t if d is True else self.ite(s[1], t, zero_of(t)))
                    continue
            c = ieq(idx, q)
            if c is False:
                continue
            g = 0
            dlt = isub(idx, q)
            if isinstance(dlt, I):
                for m, cc in dlt.m.items():
                    if m != ():
                        g = math.gcd(g, cc)
                if g > 1 and dlt.m.get((), 0) % g:
                    continue
            cur = self.ite(c, val, zero_of(val))
            for bv, N in reversed(bvs):
                cur = xsum(bv, N, cur)
            v = self.addk(v, cur)
        return v

    def addk(self, a, b):
        if isinstance(a, (R, Fraction)) or isinstance(b, (R, Fraction)):
            return radd(a, b)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        return iadd(a, b)

    def store(self, st, p, v, t):
        if isinstance(p, PInt):
            p = p.p
        if not isinstance(p, Ptr):
            raise Unsupported("store through %r" % (p,))
        if t.kind in ("struct", "array", "vector"):
            if v is UNDEF:
                return
            if t.kind == "struct":
                for f, fo, x in zip(t.fields, t.offs, v):
                    self.store(st, Ptr(p.obj, iadd(p.off, fo)), x, f)
            else:
                for i, x in enumerate(v):
                    self.store(st, Ptr(p.obj, iadd(p.off, i * t.elem.size)), x, t.elem)
            return
        o = self.check_bounds(st, p, t.store, "store")
        if o.const:
            raise Fail("store to constant " + o.name)
        o = st.w(p.obj)
        self.store_to(st, o, p.off, v, t)

    def store_to(self, st, o, off, v, t):
        if isinstance(v, Pack):
            for q, sz, x in v.parts:
                self.store_to(st, o, iadd(off, q), x, IntTy(sz))
            return
        if isinstance(v, RBits) and t.kind == "int":
            v = v.r
        if isinstance(v, int) and not isinstance(v, bool) and t.kind == "int":
            v = wrap(v, t.bits)
        if o.arr is not None:
            kind = "real" if t.kind == "float" else t.kind
            if o.stride is None:
                o.stride = t.store
                nm = o.name
                o.arr[0] = SymArr(t.store, kind, undef_base(o, kind), nm)
            f = self.arr_field(o, off, t.store, kind)
            if f is None:
                raise Unsupported("array store at %s of %s (stride %s)" % (off, o.name, o.stride))
            if f[0] == "new":
                a = SymArr(t.store, kind, undef_base(o, kind), "%s.f%d" % (o.name, f[1]))
                o.arr[f[1]] = a
                q = f[2]
            else:
                a, _, q = f
            if a.acc is not None:
                nm = "%s!%d" % (a.acc, len(a.log))
                d = delta(v, rsel(nm, q) if a.kind == "real" else isel(nm, q))
                if d is None or ("arr", nm) in freevars(d):
                    raise AccFail(a.acc)
                a.log = a.log + (("acc", (), ((q, d),)),)
                return
            # drop a superseded trailing write to the same index
            if a.log and a.log[-1][0] == "w" and ieq(a.log[-1][1], q) is True:
                a.log = a.log[:-1]
            a.log = a.log + (("w", q, v),)
            return
        if not isinstance(off, int):
            for q, c in self.cand_cells(st, o, off, t):
                d = self.decide(st, c)
                if d is False:
                    continue
                if d is True:
                    self.store_to(st, o, q, v, t)
                    return
                old = self.load_from(st, o, q, t)
                o.cells[q] = (t.store, self.ite(c, v, old))
            return
        n = t.store
        c = o.cells.get(off)
        if c is None or c[0] != n:
            self.clear_range(o, off, n)
        o.cells[off] = (n, v)

    def clear_range(self, o, off, n):
        """remove cells overlapping [off, off+n), keeping uncovered bytes of integers"""
        for q in range(off - 15, off + n):
            c = o.cells.get(q)
            if c is None or q + c[0] <= off:
                continue
            del o.cells[q]
            if q < off or q + c[0] > off + n:
                v = c[1]
                if v is UNDEF:
                    continue
                if not isinstance(v, int):
                    raise Unsupported("partial overwrite of %r" % (v,))
                raw = (v & ((1 << (8 * c[0])) - 1)).to_bytes(c[0], "little")
                for i in range(c[0]):
                    if not (off <= q + i < off + n):
                        o.cells[q + i] = (1, wrap(raw[i], 8))
        if o.init == "zero" and False:
            pass

    def memcpy(self, st, d, s, n):
        if isinstance(n, int) and n == 0:
            return
        if not isinstance(d, Ptr) or not isinstance(s, Ptr):
            raise Unsupported("memcpy of %r" % ((d, s),))
        so = self.check_bounds(st, s, n, "memcpy-read") if isinstance(n, int) else self.rng(st, s, n, "memcpy-read")
        do = self.check_bounds(st, d, n, "memcpy-write") if isinstance(n, int) else self.rng(st, d, n, "memcpy-write")
        do = st.w(d.obj)
        so = st.mem[s.obj]
        if so.arr is None and do.arr is None and isinstance(n, int) and isinstance(s.off, int) and isinstance(d.off, int):
            src = [(q, so.cells[q]) for q in self.cells_in(so, s.off, n)]
            for q, c in src:
                if q < s.off or q + c[0] > s.off + n:
                    if not isinstance(c[1], int):
                        raise Unsupported("memcpy of part of a value")
                    raw = (c[1] & ((1 << (8 * c[0])) - 1)).to_bytes(c[0], "little")
                    src = [x for x in src if x[0] != q] + [(q + i, (1, wrap(raw[i], 8))) for i in range(c[0])
                                                          if s.off <= q + i < s.off + n]
            srcinit = so.init
            self.clear_range_any(do, d.off, n)
            if srcinit == "zero" and do.init != "zero":
                # materialise zero bytes not covered
                cov = set()
                for q, c in src:
                    cov.update(range(q, q + c[0]))
                i = s.off
                while i < s.off + n:
                    if i in cov:
                        i += 1
                        continue
                    if (d.off + i - s.off) % 8 == 0 and i + 8 <= s.off + n and not any((i + k) in cov for k in range(8)):
                        do.cells[d.off + i - s.off] = (8, 0)
                        i += 8
                    else:
                        do.cells[d.off + i - s.off] = (1, 0)
                        i += 1
            elif srcinit == "lazy":
                raise Unsupported("memcpy from lazy object")
            elif do.init == "zero" and srcinit != "zero":
                pass
            for q, c in src:
                do.cells[d.off + q - s.off] = c
            return
        if so.arr is None and do.arr is not None and isinstance(n, int) and isinstance(s.off, int):
            # cell source into array destination, value by value
            for q in sorted(self.cells_in(so, s.off, n)):
                c = so.cells[q]
                self.store_to(st, do, iadd(d.off, q - s.off), c[1], _fakety(c))
            return
        if so.arr is not None and do.arr is None and isinstance(n, int) and isinstance(d.off, int):
            if so.stride is None:
                return
            es = so.stride
            if n > 4096:
                raise Unsupported("long memcpy")
            i = 0
            self.clear_range_any(do, d.off, n)
            while i < n:
                # field at this offset
                r = idivrem_const(iadd(s.off, i), es)
                if r is None:
                    raise Unsupported("memcpy alignment")
                a = so.arr.get(r[1])
                if a is None:
                    i += 1
                    continue
                do.cells[d.off + i] = (a.esize, self.sa_read(st, a, r[0]))
                i += a.esize
            return
        # array to array
        if so.arr is not None and do.arr is not None:
            if so.stride is None:
                return
            if do.stride is None:
                do.stride = so.stride
            es = so.stride
            if do.stride != es:
                raise Unsupported("memcpy between different strides")
            cnt = iexactdiv(n, es)
            s0 = iexactdiv(s.off, es)
            d0 = iexactdiv(d.off, es)
            if cnt is None or s0 is None or d0 is None:
                raise Unsupported("memcpy alignment")
            for fo, a in list(so.arr.items()):
                src = a.copy()
                b = do.arr.get(fo)
                if b is None:
                    b = do.arr[fo] = SymArr(a.esize, a.kind, undef_base(do, a.kind), "%s.f%d" % (do.name, fo))
                pc = st.pc
                stc = st
                b.log = b.log + (("copy", d0, cnt, (lambda i, src=src, stc=stc: self.sa_read(stc, src, iadd(s0, i)))),)
            return
        raise Unsupported("memcpy %s -> %s of %s bytes" % (so.name, do.name, n))

    def rng(self, st, p, n, what):
        o = st.mem.get(p.obj)
        if o is None or p.obj == 0:
            if self.decide(st, ieq(n, 0)):
                return o
            raise Fail("null " + what)
        if o.freed:
            raise Fail("use after free")
        if o.size is not None:
            self.oblige(st, band(ile(0, p.off), ile(iadd(p.off, n), o.size)), "in-bounds %s of %s" % (what, o.name), "bounds")
        return o

    def cells_in(self, o, off, n):
        if n <= 4 * len(o.cells) + 64:
            return [q for q in range(off - 15, off + n) if q in o.cells and q + o.cells[q][0] > off]
        return [q for q in o.cells if q + o.cells[q][0] > off and q < off + n]

    def clear_range_any(self, o, off, n):
        for q in list(self.cells_in(o, off, n)):
            c = o.cells[q]
            if q >= off and q + c[0] <= off + n:
                del o.cells[q]
            else:
                self.clear_range(o, max(q, off), min(q + c[0], off + n) - max(q, off))

    def memset(self, st, d, val, n):
        if isinstance(n, int) and n == 0:
            return
        if isinstance(n, int):
            self.check_bounds(st, d, n, "memset")
        else:
            self.rng(st, d, n, "memset")
        o = st.w(d.obj)
        if isinstance(n, int) and isinstance(d.off, int) and o.arr is None:
            self.clear_range_any(o, d.off, n)
            if val == 0:
                if o.init == "zero":
                    return
                if d.off == 0 and n == o.size and n > 2048:
                    o.init = "zero"
                    return
            i = 0
            while i < n:
                w = 8 if ((d.off + i) % 8 == 0 and i + 8 <= n) else (4 if (d.off + i) % 4 == 0 and i + 4 <= n else 1)
                b = val & 0xff
                o.cells[d.off + i] = (w, wrap(int.from_bytes(bytes([b]) * w, "little"), 8 * w))
                i += w
            return
        if val != 0:
            raise Unsupported("symbolic memset of non-zero")
        if isinstance(d.off, int) and d.off == 0 and o.size is not None and self.decide(st, ieq(n, o.size)):
            o.init = "zero"
            for a in (o.arr or {}).values():
                a.log = (("fill", NULLP if a.kind == "ptr" else (ZERO if a.kind == "real" else 0)),)
            return
        if o.arr is not None and o.stride is not None:
            cnt, d0 = iexactdiv(n, o.stride), iexactdiv(d.off, o.stride)
            if cnt is not None and d0 is not None:
                for a in o.arr.values():
                    z = NULLP if a.kind == "ptr" else (ZERO if a.kind == "real" else 0)
                    a.log = a.log + (("copy", d0, cnt, lambda i, z=z: z),)
                return
        raise Unsupported("symbolic memset")

    # ------------------------------------------------------------ calls
    def run(self, st, name, args):
        """call a function by mangled name; returns outcomes ret/throw"""
        return self.call(st, name, args, None, None)

    def call(self, st, name, args, argtys, rty):
        key = name
        h = self.ccache.get(key, 0)
        if h == 0:
            h = None
            d = self.dem.get(name, name)
            for rx, fn in self.contracts:
                if re.search(rx, d) or rx == name:
                    h = fn
                    break
            self.ccache[key] = h
        if h is not None:
            d = self.dem.get(name, name)
            self.contracts_used[d] = self.contracts_used.get(d, 0) + 1
            r = h(self, st, args)
            return self.outs(st, r)
        e = self.ext.get(name)
        if e is None:
            d = self.dem.get(name, name)
            e = self.ext.get(d)
            if e is None:
                for rx, fn in self.extrx:
                    if rx.search(d):
                        e = fn
                        break
            if e is not None:
                self.ext[name] = e
        if e is not None:
            self.assumed_ext.add(name)
            r = e(self, st, args, name)
            return self.outs(st, r)
        m = self.fnmod.get(name)
        if m is None and name in self.falias:
            return self.call(st, self.falias[name], args, argtys, rty)
        if m is None:
            raise Unsupported("call of external function " + self.dem.get(name, name))
        F = irload.analyse(m.func(name))
        self.called[name] = self.called.get(name, 0) + 1
        self.call_depth += 1
        if self.call_depth > 400:
            raise Unsupported("recursion too deep")
        try:
            fr = Frame(F)
            regs = [None] * F.nregs
            for i, a in enumerate(args[:F.nparams]):
                regs[i] = a
            res = self.region(fr, st, regs, 0, None, None, None)
        finally:
            self.call_depth -= 1
        return res

    def outs(self, st, r):
        if isinstance(r, list):
            return r
        return [Outcome("ret", st, r)]

    # ------------------------------------------------------------ region
    def region(self, fr, st, regs, blk, prev, stop, within, start_phis_done=False, start_in_loop=False):
        """execute until ret/throw, reaching block `stop`, or leaving `within`"""
        results = []
        work = [(st, regs, blk, prev, 0, start_phis_done, True)]
        F = fr.F
        while work:
            st, regs, blk, prev, ip, phis_done, first = work.pop()
            if len(results) + len(work) > self.max_paths:
                raise Unsupported("too many paths")
            try:
                self._path(fr, st, regs, blk, prev, ip, phis_done, first, stop, within, start_in_loop, work, results)
            except Infeasible:
                continue
            except Fail as e:
                self.on_fail(e, st)
                continue
        return results

    def _path(self, fr, st, regs, blk, prev, ip, phis_done, first, stop, within, start_in_loop, work, results):
        F = fr.F
        blocks = F.blocks
        while True:
            if not first:
                if blk == stop:
                    results.append(Outcome("at", st, None, regs, prev, blk, phis_done))
                    return
                if within is not None and blk not in within:
                    results.append(Outcome("exit", st, None, regs, prev, blk, phis_done))
                    return
            Bk = blocks[blk]
            if ip == 0 and blk in F.loops and not phis_done and (prev is None or prev not in F.loops[blk]) \
                    and not (first and start_in_loop):
                outs = self.exec_loop(fr, st, regs, blk, prev)
                for o in outs:
                    if o.kind == "exit":
                        work.append((o.st, o.regs, o.blk, o.prev, 0, o.phis, False))
                    else:
                        results.append(o)
                return
            first = False
            if ip == 0 and not phis_done and Bk.phis:
                vals = [self.val(st, regs, ph[1][prev]) for ph in Bk.phis]
                for ph, v in zip(Bk.phis, vals):
                    regs[ph[0]] = v
            phis_done = False
            insts = Bk.insts
            n = len(insts)
            while ip < n:
                ins = insts[ip]
                ip += 1
                if ins[0] == "call":
                    r = self.do_call(fr, st, regs, ins)
                    if r is None:
                        continue
                    rets = []
                    for o in r:
                        if o.kind == "ret":
                            rets.append(o)
                        else:
                            results.append(o)
                    if len(rets) == 0:
                        return
                    if len(rets) > 1 and self.merges(F):
                        rets = self.merge_rets(st, rets)
                    for o in rets[1:]:
                        rg = list(regs)
                        rg[ins[1]] = o.val
                        work.append((o.st, rg, blk, prev, ip, True, False))
                    st = rets[0].st
                    regs[ins[1]] = rets[0].val
                    # continue in this block: phis already evaluated
                    continue
                try:
                    self.inst(st, regs, ins)
                except SelectFork as e:
                    s2 = st.copy()
                    s2.assume(bnot(e.c))
                    rg = list(regs)
                    rg[e.dst] = e.b
                    work.append((s2, rg, blk, prev, ip, True, False))
                    st = st.copy()
                    st.assume(e.c)
                    regs[e.dst] = e.a
            self.steps += n + 1
            if self.steps > self.max_steps:
                raise Unsupported("step limit")
            t = Bk.term
            k = t[0]
            if k == "br":
                prev, blk, ip = blk, t[1], 0
                continue
            if k == "cbr":
                c = self.val(st, regs, t[1])
                if c is UNDEF:
                    raise Unsupported("branch on an uninitialised value in %s, block %d" % (getattr(fr.F, "name", "?"), blk))
                c = tob(c)
                if c is not True and c is not False:
                    d = self.decide(st, c, 800)
                    if d is not None:
                        c = d
                if c is True:
                    prev, blk, ip = blk, t[2], 0
                    continue
                if c is False:
                    prev, blk, ip = blk, t[3], 0
                    continue
                self.loop_exit_check(fr, blk, c, t)
                nxt = self.fork(fr, st, regs, blk, [(c, t[2]), (bnot(c), t[3])], stop, within, results, work)
                if nxt is None:
                    return
                st, regs, blk, prev, phis_done = nxt
                ip = 0
                continue
            if k == "switch":
                v = self.val(st, regs, t[1])
                if isinstance(v, bool):
                    v = int(v)
                if isinstance(v, int):
                    tgt = t[2]
                    for cv, b in t[3]:
                        if cv == v:
                            tgt = b
                            break
                    prev, blk, ip = blk, tgt, 0
                    continue
                v = toi(v)
                arms = []
                neg = []
                for cv, b in t[3]:
                    c = ieq(v, cv)
                    d = self.decide(st, c)
                    if d is False:
                        continue
                    arms.append((c, b))
                    neg.append(bnot(c))
                    if d is True:
                        arms = [(True, b)]
                        neg = [False]
                        break
                cn = band(*neg)
                if self.decide(st, cn) is not False:
                    arms.append((cn, t[2]))
                if len(arms) == 1:
                    st.assume(arms[0][0])
                    prev, blk, ip = blk, arms[0][1], 0
                    continue
                nxt = self.fork(fr, st, regs, blk, arms, stop, within, results, work)
                if nxt is None:
                    return
                st, regs, blk, prev, phis_done = nxt
                ip = 0
                continue
            if k == "ret":
                results.append(Outcome("ret", st, self.val(st, regs, t[1]) if t[1] is not None else None))
                return
            if k == "unreachable":
                results.append(Outcome("throw", st, "unreachable"))
                return
            if k == "invoke":
                r = self.do_call(fr, st, regs, t)
                if r is None:
                    prev, blk, ip = blk, t[6], 0
                    continue
                rets = []
                for o in r:
                    if o.kind == "ret":
                        rets.append(o)
                    elif o.kind == "throw" and self.has_catch(F, t[7]):
                        rg = list(regs)
                        o.st.data["exc"] = o.val
                        work.append((o.st, rg, t[7], blk, 0, False, False))
                    else:
                        results.append(o)
                if not rets:
                    return
                if len(rets) > 1 and self.merges(F):
                    rets = self.merge_rets(st, rets)
                for o in rets[1:]:
                    rg = list(regs)
                    rg[t[1]] = o.val
                    work.append((o.st, rg, t[6], blk, 0, False, False))
                st = rets[0].st
                regs[t[1]] = rets[0].val
                prev, blk, ip = blk, t[6], 0
                continue
            if k == "resume":
                results.append(Outcome("throw", st, st.data.get("exc", "resume")))
                return
            raise Unsupported("terminator " + k)

    def has_catch(self, F, b):
        for ins in F.blocks[b].insts:
            if ins[0] == "landingpad":
                return len(ins[3]) > 0
        return False

    def loop_exit_check(self, fr, blk, c, t):
        """a symbolic branch decides whether an enclosing loop in trial mode continues"""
        if not fr.trial:
            return
        best = None
        for h in fr.trial:
            body = fr.F.loops[h]
            if blk in body and ((t[2] in body) != (t[3] in body)):
                if best is None or len(fr.F.loops[best]) > len(body):
                    best = h
        if best is not None and int_only(c):
            raise NeedSummary((fr.id, best))

    def innermost(self, F, b):
        best = None
        for h, body in F.loops.items():
            if b in body and (best is None or len(body) < len(F.loops[best])):
                best = h
        return best

    def fork(self, fr, st, regs, blk, arms, stop, within, results, work):
        F = fr.F
        j = F.ipdom.get(blk)
        ok = self.merges(F) and j is not None and j < len(F.blocks) and j != blk
        if ok:
            lb = self.innermost(F, blk)
            if lb is not None and j not in F.loops[lb]:
                ok = False
            if ok and within is not None and j not in within and j != stop:
                ok = False
        if not ok:
            for c, tgt in arms[1:]:
                s2 = st.copy()
                s2.assume(c)
                work.append((s2, list(regs), tgt, blk, 0, False, False))
            st2 = st.copy()
            st2.assume(arms[0][0])
            return (st2, regs, arms[0][1], blk, False)
        ats = []
        for c, tgt in arms:
            s2 = st.copy()
            s2.assume(c)
            rg = list(regs)
            if tgt == j:
                ats.append(Outcome("at", s2, None, rg, blk, j, False))
                continue
            for o in self.region2(fr, s2, rg, tgt, blk, j, within):
                if o.kind == "at" and o.blk == j:
                    ats.append(o)
                else:
                    results.append(o)
        # evaluate the phis of j per arrival
        for o in ats:
            if not o.phis:
                ph = F.blocks[j].phis
                vals = [self.val(o.st, o.regs, p[1][o.prev]) for p in ph]
                for p, v in zip(ph, vals):
                    o.regs[p[0]] = v
                o.phis = True
        ats = self.merge_outs(st, ats, F, j)
        if not ats:
            return None
        if j == stop or (within is not None and j not in within):
            for o in ats:
                if j == stop:
                    results.append(Outcome("at", o.st, None, o.regs, o.prev, j, True))
                else:
                    results.append(Outcome("exit", o.st, None, o.regs, o.prev, j, True))
            return None
        for o in ats[1:]:
            work.append((o.st, o.regs, j, o.prev, 0, True, False))
        o = ats[0]
        return (o.st, o.regs, j, o.prev, True)

    def on_fail(self, e, st):
        """a definite run-time error: its path must be infeasible"""
        if self.ob_suppress:
            raise e
        pc = e.pc if e.pc is not None else st.pc
        self.obs.append(Ob(str(e), pc, False, "safety", ""))

    def region2(self, fr, st, regs, blk, prev, stop, within):
        """like region() but the first block is subject to the stop/within test"""
        results = []
        work = [(st, regs, blk, prev, 0, False, False)]
        while work:
            st, regs, blk, prev, ip, phis_done, first = work.pop()
            if len(results) + len(work) > self.max_paths:
                raise Unsupported("too many paths")
            try:
                self._path(fr, st, regs, blk, prev, ip, phis_done, first, stop, within, False, work, results)
            except Infeasible:
                continue
            except Fail as e:
                self.on_fail(e, st)
                continue
        return results

    def merges(self, F):
        return self.merge and not (self.nomerge and re.search(self.nomerge, F.name))

    def merge_rets(self, base, rets):
        out = [rets[0]]
        for o in rets[1:]:
            done = False
            for i, a in enumerate(out):
                m = self.merge2(base, a.st, o.st, [(a.val, o.val)])
                if m is not None:
                    out[i] = Outcome("ret", m[0], m[1][0])
                    done = True
                    break
            if not done:
                out.append(o)
        return out

    def merge_outs(self, base, ats, F, j):
        if len(ats) <= 1:
            return ats
        out = [ats[0]]
        phs = [p[0] for p in F.blocks[j].phis]
        for o in ats[1:]:
            done = False
            for i, a in enumerate(out):
                m = self.merge2(base, a.st, o.st, [(a.regs[p], o.regs[p]) for p in phs])
                if m is not None:
                    rg = a.regs
                    for p, v in zip(phs, m[1]):
                        rg[p] = v
                    out[i] = Outcome("at", m[0], None, rg, a.prev, j, True)
                    done = True
                    break
            if not done:
                out.append(o)
        return out

    def merge2(self, base, a, b, pairs):
        """merge two states that forked from `base`; None if impossible"""
        na = 0
        while na < len(a.pc) and na < len(b.pc) and a.pc[na] is b.pc[na]:
            na += 1
        ca, cb = band(*a.pc[na:]), band(*b.pc[na:])
        c = ca
        try:
            vals = [self.ite(c, x, y) for x, y in pairs]
            s = State()
            s.pc = a.pc[:na]
            o = bor(ca, cb)
            if o is not True:
                s.assume(o)
            s.data = dict(a.data)
            for oid in set(a.mem) | set(b.mem):
                x, y = a.mem.get(oid), b.mem.get(oid)
                if x is y:
                    s.mem[oid] = x
                elif x is None:
                    s.mem[oid] = y
                elif y is None:
                    s.mem[oid] = x
                else:
                    s.mem[oid] = self.merge_obj(base, a, b, s, c, ca, cb, x, y)
            for oid in s.mem:
                if s.mem[oid] is not a.mem.get(oid) and s.mem[oid] is not b.mem.get(oid):
                    s.own.add(oid)
            return s, vals
        except Unmergeable:
            return None

    def merge_obj(self, base, a, b, s, c, ca, cb, x, y):
        if x.freed != y.freed or x.size is not y.size and x.size != y.size:
            raise Unmergeable()
        if x.init != y.init:
            raise Unmergeable()
        o = x.copy()
        if (x.arr is None) != (y.arr is None):
            raise Unmergeable()
        for q in set(x.cells) | set(y.cells):
            u, v = x.cells.get(q), y.cells.get(q)
            if u is v:
                continue
            if u is None or v is None:
                w = u or v
                if x.init == "zero":
                    z = (w[0], NULLP if isinstance(w[1], Ptr) else 0)
                    u, v = u or z, v or z
                elif x.init == "lazy":
                    raise Unmergeable()
                else:
                    o.cells[q] = w
                    # the other side is uninitialised (or differently split)
                    other = y if v is None else x
                    if any(qq in other.cells and qq != q and qq + other.cells[qq][0] > q for qq in range(q - 15, q + w[0])):
                        raise Unmergeable()
                    continue
            if u[0] != v[0]:
                raise Unmergeable()
            o.cells[q] = (u[0], self.ite(c, u[1], v[1]))
        if x.arr is not None:
            if x.stride != y.stride:
                if x.stride is None or y.stride is None:
                    o.stride = x.stride or y.stride
                else:
                    raise Unmergeable()
            for fo in set(x.arr) | set(y.arr):
                u, v = x.arr.get(fo), y.arr.get(fo)
                if u is None or v is None:
                    w = u or v
                    u = u or SymArr(w.esize, w.kind, w.base, w.name)
                    v = v or SymArr(w.esize, w.kind, w.base, w.name)
                n = 0
                while n < len(u.log) and n < len(v.log) and u.log[n] is v.log[n]:
                    n += 1
                m = u.copy()
                m.log = u.log[:n]
                if len(u.log) == n and len(v.log) == n:
                    o.arr[fo] = m
                    continue
                # same write set on both sides: pairwise
                lu, lv = u.log[n:], v.log[n:]
                if len(lu) == len(lv) and all(p[0] == "w" and r[0] == "w" and ieq(p[1], r[1]) is True
                                              for p, r in zip(lu, lv)):
                    m.log = m.log + tuple(("w", p[1], self.ite(c, p[2], r[2])) for p, r in zip(lu, lv))
                    o.arr[fo] = m
                    continue
                if all(e[0] == "acc" for e in lu + lv):
                    for cond, lg in ((ca, lu), (cb, lv)):
                        for e in lg:
                            m.log = m.log + (("acc", e[1], tuple((i, self.ite(cond, d, Fraction(0) if is_realv(d) else 0)) for i, d in e[2])),)
                    o.arr[fo] = m
                    continue
                for cond, lg in ((ca, lu), (cb, lv)):
                    for e in lg:
                        if e[0] != "w":
                            raise Unmergeable()
                        old = self.sa_read(s, m, e[1])
                        m.log = m.log + (("w", e[1], self.ite(cond, e[2], old)),)
                o.arr[fo] = m
        return o

    # ------------------------------------------------------------ loops
    def exec_loop(self, fr, st, regs, h, prev):
        snap_st = st.copy()
        snap_regs = list(regs)
        body = fr.F.loops[h]
        for rx, fn in self.loop_invariants:
            if re.search(rx, self.dem.get(fr.F.name, fr.F.name)):
                r = fn(self, fr, snap_st.copy(), list(snap_regs), h, prev)
                if r is not None:
                    return r
        nobs = len(self.obs)
        fr.trial.add(h)
        try:
            outs = self.region(fr, st, regs, h, prev, None, body, False, True)
            return outs
        except NeedSummary as e:
            if e.key != (fr.id, h):
                raise
            del self.obs[nobs:]
        finally:
            fr.trial.discard(h)
        import loops
        return loops.summarise(self, fr, snap_st, snap_regs, h, prev, body)

    # ------------------------------------------------------------ values
    def val(self, st, regs, o):
        if o[0] == "r":
            return regs[o[1]]
        v = o[1]
        if isinstance(v, (int, Fraction, FnRef)) or v is UNDEF:
            return v
        return self.cval(st, v)

    def do_call(self, fr, st, regs, ins):
        _, dst, ty, callee, args, argtys = ins[:6]
        if callee[0] == "asm":
            raise Unsupported("inline asm " + callee[1][:80])
        f = self.val(st, regs, callee) if callee[0] == "r" else callee[1]
        if isinstance(f, PInt):
            f = f.p
        if not isinstance(f, FnRef):
            raise Unsupported("indirect call through %r" % (f,))
        name = f.name
        if name.startswith("llvm."):
            if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.experimental.noalias", "llvm.invariant",
                                "llvm.donothing", "llvm.stackrestore", "llvm.prefetch", "llvm.va_")):
                return None
            a = [self.val(st, regs, x) if x[0] != "m" else None for x in args]
            regs[dst] = self.intrinsic(st, name, a, ty, argtys)
            return None
        a = [self.val(st, regs, x) if x[0] != "m" else None for x in args]
        return self.call(st, name, a, argtys, ty)

    def intrinsic(self, st, name, a, ty, argtys):
        b = name.split(".")
        op = b[1]
        if op in ("memcpy", "memmove"):
            self.memcpy(st, a[0], a[1], toi(a[2]))
            return None
        if op == "memset":
            self.memset(st, a[0], a[1], toi(a[2]))
            return None
        if op == "fmuladd" or op == "fma":
            return radd(rmul(a[0], a[1]), a[2])
        if op == "fabs":
            x = a[0]
            return abs(x) if is_num(x) else rfn("fabs", x)
        if op in ("sqrt", "sin", "cos", "exp", "log", "floor", "ceil", "log10", "pow", "trunc", "round"):
            return self.real_fn(st, op, a)
        if op in ("maxnum", "minnum", "maximum", "minimum"):
            c = rlt(a[0], a[1])
            return rite(c, a[1], a[0]) if op.startswith("max") else rite(c, a[0], a[1])
        if op in ("smax", "umax"):
            return self.ite(ilt(toi(a[0]), toi(a[1])), a[1], a[0])
        if op in ("smin", "umin"):
            return self.ite(ilt(toi(a[0]), toi(a[1])), a[0], a[1])
        if op == "expect":
            return a[0]
        if op == "copysign":
            x = a[0] if is_num(a[0]) else rfn("fabs", a[0])
            x = abs(x) if is_num(x) else x
            return rite(rlt(a[1], 0), rneg(x), x)
        if op in ("umul", "uadd", "usub", "smul", "sadd", "ssub"):  # with.overflow
            f = {"mul": imul, "add": iadd, "sub": isub}[op[1:]]
            r = f(toi(a[0]), toi(a[1]))
            bits = argtys[0].bits
            if isinstance(r, int):
                lo, hi = (0, 2 ** bits) if op[0] == "u" else (-2 ** (bits - 1), 2 ** (bits - 1))
                x = r if lo <= r < hi else None
                return (wrap(r, bits), not (lo <= r < hi))
            self.oblige(st, band(ile(0, r), ilt(r, 2 ** (bits - 1))), "no overflow in size computation", "overflow")
            return (r, False)
        if op == "abs":
            x = toi(a[0])
            if isinstance(x, int):
                return abs(x)
            return self.ite(ilt(x, 0), ineg(x), x)
        if op == "objectsize":
            return -1
        if op == "is" and b[2] == "constant":
            return False
        if op == "threadlocal":      # one thread
            return a[0]
        if op == "stacksave":
            return NULLP
        if op in ("trap",):
            raise Fail("trap reached")
        if op == "eh":
            return 1
        if op == "ctlz":
            x = a[0]
            if isinstance(x, int):
                return argtys[0].bits - (x & (2 ** argtys[0].bits - 1)).bit_length()
        if op == "is" and b[2] == "fpclass":
            return False
        raise Unsupported("intrinsic " + name)

    def real_fn(self, st, op, a):
        if op == "pow":
            if is_num(a[1]) and a[1] == int(a[1]) and 0 <= a[1] <= 8:
                r = ONE
                for _ in range(int(a[1])):
                    r = rmul(r, a[0])
                return r
        if op == "sqrt":
            pass
        return rfn(op, *a)

    def inst(self, st, regs, ins):
        op = ins[0]
        dst = ins[1]
        if op == "load":
            regs[dst] = self.load(st, self.val(st, regs, ins[3]), ins[2])
        elif op == "store":
            self.store(st, self.val(st, regs, ins[4]), self.val(st, regs, ins[3]), ins[2])
        elif op == "gep":
            p = self.val(st, regs, ins[2])
            off = ins[3]
            for sz, o in ins[4]:
                x = self.val(st, regs, o)
                if isinstance(x, (B, bool)):
                    x = toi(x)
                if x is UNDEF:
                    raise Unsupported("undef index")
                if isinstance(x, PInt):
                    raise Unsupported("pointer arithmetic with pointer index")
                off = iadd(off, imul(x, sz))
            if isinstance(p, PInt):
                p = p.p
            if isinstance(p, Ptr):
                regs[dst] = Ptr(p.obj, iadd(p.off, off))
            elif p is UNDEF:
                regs[dst] = UNDEF
            else:
                raise Unsupported("gep on %r" % (p,))
        elif op in ("fadd", "fsub", "fmul", "fdiv"):
            a, b = self.val(st, regs, ins[3][0]), self.val(st, regs, ins[3][1])
            if a is UNDEF or b is UNDEF:
                regs[dst] = UNDEF
                return
            if isinstance(a, (I, RBits)) or isinstance(b, (I, RBits)):
                raise Unsupported("float op on %r %r" % (a, b))
            if op == "fadd":
                regs[dst] = radd(a, b)
            elif op == "fsub":
                regs[dst] = rsub(a, b)
            elif op == "fmul":
                regs[dst] = rmul(a, b)
            else:
                regs[dst] = rdiv(a, b)
        elif op == "fneg":
            v = self.val(st, regs, ins[3][0])
            regs[dst] = UNDEF if v is UNDEF else rneg(v)
        elif op == "alloca":
            n = self.val(st, regs, ins[3])
            o = self.new_obj(st, imul(ins[2].size, n), "local")
            if not isinstance(o.size, int):
                o.arr = {}
            regs[dst] = Ptr(o.id, 0)
        elif op == "icmp":
            regs[dst] = self.icmp(st, ins[2], self.val(st, regs, ins[3]), self.val(st, regs, ins[4]), ins[5])
        elif op == "fcmp":
            regs[dst] = self.fcmp(ins[2], self.val(st, regs, ins[3]), self.val(st, regs, ins[4]))
        elif op == "select":
            c = self.val(st, regs, ins[3][0])
            a, b = self.val(st, regs, ins[3][1]), self.val(st, regs, ins[3][2])
            if c is UNDEF:
                regs[dst] = UNDEF
                return
            c = tob(c)
            if isinstance(c, B):
                d = self.decide(st, c, 500)
                if d is not None:
                    c = d
            try:
                regs[dst] = self.ite(c, a, b)
            except Unmergeable:
                raise SelectFork(c, dst, a, b)
        elif op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor"):
            regs[dst] = self.ibin(st, op, self.val(st, regs, ins[3][0]), self.val(st, regs, ins[3][1]), ins[2])
        elif op in ("zext", "sext", "trunc"):
            regs[dst] = self.icast(st, op, self.val(st, regs, ins[3]), ins[4], ins[2])
        elif op == "sitofp" or op == "uitofp":
            v = self.val(st, regs, ins[3])
            if v is UNDEF:
                regs[dst] = UNDEF
                return
            v = toi(v)
            if op == "uitofp" and isinstance(v, int) and v < 0:
                v += 2 ** ins[4].bits
            regs[dst] = i2r(v)
        elif op in ("fptosi", "fptoui"):
            v = self.val(st, regs, ins[3])
            if is_num(v):
                regs[dst] = int(v)
            elif isinstance(v, R) and v.op == "i2r":
                regs[dst] = v.args[0]
            else:
                regs[dst] = ifn("r2i", v)
        elif op in ("fpext", "fptrunc", "freeze"):
            regs[dst] = self.val(st, regs, ins[3] if op != "freeze" else ins[3][0])
        elif op == "bitcast":
            v = self.val(st, regs, ins[3])
            if ins[2].kind == "float" and ins[4].kind == "int":
                if isinstance(v, RBits):
                    v = v.r
                elif isinstance(v, int) and v == 0:
                    v = ZERO
                else:
                    raise Unsupported("bitcast int->float")
            elif ins[2].kind == "int" and ins[4].kind == "float":
                v = RBits(v)
            regs[dst] = v
        elif op == "ptrtoint":
            v = self.val(st, regs, ins[3])
            if isinstance(v, Ptr) and v.obj == 0:
                regs[dst] = v.off
            else:
                regs[dst] = v if v is UNDEF else PInt(v)
        elif op == "inttoptr":
            v = self.val(st, regs, ins[3])
            if isinstance(v, PInt):
                regs[dst] = v.p
            elif isinstance(v, int):
                regs[dst] = Ptr(0, v)
            else:
                raise Unsupported("inttoptr %r" % (v,))
        elif op == "extractvalue":
            v = self.val(st, regs, ins[3][0])
            for i in ins[4]:
                v = v[i] if v is not UNDEF else UNDEF
            regs[dst] = v
        elif op == "insertvalue":
            agg = self.val(st, regs, ins[3][0])
            v = self.val(st, regs, ins[3][1])
            regs[dst] = _insert(agg, ins[4], v, ins[2])
        elif op == "landingpad":
            regs[dst] = (NULLP, 0)
        elif op == "atomicrmw":
            t = ins[2]
            p = self.val(st, regs, ins[4][0])
            v = self.val(st, regs, ins[4][1])
            old = self.load(st, p, t)
            bop = ins[3]
            new = {0: lambda: v, 1: lambda: self.ibin(st, "add", old, v, t), 2: lambda: self.ibin(st, "sub", old, v, t),
                   3: lambda: self.ibin(st, "and", old, v, t), 5: lambda: self.ibin(st, "or", old, v, t),
                   11: lambda: radd(old, v), 12: lambda: rsub(old, v)}[bop]()
            self.store(st, p, new, t)
            regs[dst] = old
        elif op == "cmpxchg":
            # sequential semantics: succeeds iff equal
            p, exp, new = [self.val(st, regs, x) for x in ins[3]]
            t = ins[2].fields[0]
            old = self.load(st, p, t)
            same = (old is exp) or (isinstance(old, RBits) and isinstance(exp, RBits) and _req(old.r, exp.r)) or \
                (is_int(old) and is_int(exp) and ieq(old, exp) is True)
            if not same:
                raise Unsupported("cmpxchg with differing values")
            self.store(st, p, new, t)
            regs[dst] = (old, True)
        elif op == "fence":
            pass
        elif op == "frem":
            a, b = self.val(st, regs, ins[3][0]), self.val(st, regs, ins[3][1])
            regs[dst] = rfn("fmod", a, b)
        elif op == "extractelement":
            v = self.val(st, regs, ins[3][0])
            i = self.val(st, regs, ins[3][1])
            regs[dst] = v[i] if v is not UNDEF else UNDEF
        elif op == "insertelement":
            v = self.val(st, regs, ins[3][0])
            x = self.val(st, regs, ins[3][1])
            i = self.val(st, regs, ins[3][2])
            l = list(v) if v is not UNDEF else [UNDEF] * ins[2].n
            l[i] = x
            regs[dst] = tuple(l)
        else:
            raise Unsupported("instruction " + op)

    def icmp(self, st, pred, a, b, ty):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if ty.kind == "ptr" or isinstance(a, (Ptr, PInt, FnRef)) or isinstance(b, (Ptr, PInt, FnRef)):
            if isinstance(a, PInt):
                a = a.p
            if isinstance(b, PInt):
                b = b.p
            if isinstance(a, int):
                a = Ptr(0, a)
            if isinstance(b, int):
                b = Ptr(0, b)
            if isinstance(a, FnRef) or isinstance(b, FnRef):
                if pred in ("eq", "ne"):
                    r = a is b
                    return r if pred == "eq" else not r
                raise Unsupported("function pointer compare")
            if a.obj != b.obj:
                if pred in ("eq", "ne"):
                    return pred == "ne"
                if a.obj == 0:
                    return pred in ("ult", "ule")
                if b.obj == 0:
                    return pred in ("ugt", "uge")
                # distinct objects: some fixed order
                lt = a.obj < b.obj
                return lt if pred in ("ult", "ule", "slt", "sle") else not lt
            a, b = a.off, b.off
            pred = {"ult": "slt", "ule": "sle", "ugt": "sgt", "uge": "sge"}.get(pred, pred)
        if isinstance(a, RBits) or isinstance(b, RBits):
            raise Unsupported("integer compare of float bits")
        if isinstance(a, (B, bool)) or isinstance(b, (B, bool)):
            if isinstance(a, (B, bool)) and isinstance(b, (B, bool, int)) and (isinstance(b, (B, bool)) or b in (0, 1)):
                if pred == "eq":
                    return bnot(bxor(a, tob(b)))
                if pred == "ne":
                    return bxor(a, tob(b))
            a, b = toi(a), toi(b)
        bits = ty.bits or 64
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == "u":
                m = 2 ** bits - 1
                a &= m
                b &= m
            return {"eq": a == b, "ne": a != b, "ugt": a > b, "uge": a >= b, "ult": a < b, "ule": a <= b,
                    "sgt": a > b, "sge": a >= b, "slt": a < b, "sle": a <= b}[pred]
        if pred[0] == "u":
            for x in (a, b):
                if isinstance(x, int):
                    if x < 0:
                        # a huge unsigned constant: symbolic values are assumed below 2^(bits-1)
                        big_a = x is a
                        other = b if big_a else a
                        if self.decide(st, ile(0, other)) is True:
                            return {"ult": not big_a, "ule": not big_a, "ugt": big_a, "uge": big_a}[pred]
                        raise Unsupported("unsigned compare with negative constant")
                elif self.decide(st, ile(0, x)) is not True:
                    self.oblige(st, ile(0, x), "unsigned value not negative", "overflow")
            pred = {"ult": "slt", "ule": "sle", "ugt": "sgt", "uge": "sge"}[pred]
        if pred == "eq":
            return ieq(a, b)
        if pred == "ne":
            return bnot(ieq(a, b))
        if pred == "slt":
            return ilt(a, b)
        if pred == "sle":
            return ile(a, b)
        if pred == "sgt":
            return ilt(b, a)
        return ile(b, a)

    def fcmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if pred in ("uno", "ord"):
            return pred == "ord"
        for x, y, fl in ((a, b, 1), (b, a, -1)):
            if isinstance(x, R) and x.op == "v" and x.args[0] in ("+inf", "-inf") and not (
                    isinstance(y, R) and y.op == "v" and y.args[0] in ("+inf", "-inf")):
                big = (x.args[0] == "+inf")  # x is larger than y iff big
                agtb = big if fl == 1 else not big
                return {"eq": False, "gt": agtb, "ge": agtb, "lt": not agtb, "le": not agtb, "ne": True}[pred[1:]]
        p = pred[1:]
        if p == "eq":
            return req(a, b)
        if p == "ne":
            return bnot(req(a, b))
        if p == "lt":
            return rlt(a, b)
        if p == "le":
            return rle(a, b)
        if p == "gt":
            return rlt(b, a)
        if p == "ge":
            return rle(b, a)
        raise Unsupported("fcmp " + pred)

    def ibin(self, st, op, a, b, ty):
        if isinstance(a, Pack):
            if op == "lshr" and isinstance(b, int):
                r = [(q - b // 8, sz, x) for q, sz, x in a.parts if q >= b // 8]
                if r and r[0][0] == 0 and b % 8 == 0:
                    # (only the trailing part is meaningful; the rest is zero)
                    return r[0][2] if len(r) == 1 else Pack(tuple(r))
            raise Unsupported(op + " of packed integers")
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == "sub":
                return self.isub_(a, b)
            if op == "add":
                if isinstance(b, PInt):
                    a, b = b, a
                return PInt(Ptr(a.p.obj, iadd(a.p.off, b)))
            if op == "and" and isinstance(b, int) and isinstance(a.p, Ptr) and isinstance(a.p.off, int):
                if 0 <= b < 16:
                    return a.p.off & b
            raise Unsupported("%s on pointer" % op)
        if ty.kind == "vector":
            return tuple(self.ibin(st, op, x, y, ty.elem) for x, y in zip(a, b))
        bits = ty.bits
        if bits == 1:
            a, b = tob(a), tob(b)
            if op == "and":
                return band(a, b)
            if op == "or":
                return bor(a, b)
            if op in ("xor", "add", "sub"):
                return bxor(a, b)
        if isinstance(a, RBits) or isinstance(b, RBits):
            raise Unsupported("integer op on float bits")
        if isinstance(a, (B, bool)) and isinstance(b, (B, bool)) and op in ("and", "or", "xor"):
            return {"and": band, "or": bor, "xor": bxor}[op](a, b)
        if isinstance(a, B) and isinstance(b, int):
            if op == "and" and (b & 1):
                return a
            if op == "xor" and b == 1:
                return bnot(a)
        a, b = toi(a), toi(b)
        if isinstance(a, int) and isinstance(b, int):
            m = 2 ** bits - 1
            ua, ub = a & m, b & m
            if op == "add":
                r = a + b
            elif op == "sub":
                r = a - b
            elif op == "mul":
                r = a * b
            elif op in ("sdiv", "srem", "udiv", "urem"):
                if ub == 0:
                    raise Fail("integer division by zero")
                if op == "sdiv":
                    r = idiv(a, b)
                elif op == "srem":
                    r = irem(a, b)
                elif op == "udiv":
                    r = ua // ub
                else:
                    r = ua % ub
            elif op == "shl":
                r = ua << ub
            elif op == "lshr":
                r = ua >> ub
            elif op == "ashr":
                r = a >> ub
            elif op == "and":
                r = ua & ub
            elif op == "or":
                r = ua | ub
            else:
                r = ua ^ ub
            return wrap(r, bits)
        if op == "add":
            return iadd(a, b)
        if op == "sub":
            return isub(a, b)
        if op == "mul":
            return imul(a, b)
        if op in ("sdiv", "udiv"):
            if op == "udiv" and not isinstance(a, int):
                if self.decide(st, ile(0, a)) is not True:
                    self.oblige(st, ile(0, a), "unsigned dividend not negative", "overflow")
            return idiv(a, b)
        if op in ("srem", "urem"):
            return irem(a, b)
        if op == "shl" and isinstance(b, int):
            return imul(a, 2 ** b)
        if op in ("lshr", "ashr") and isinstance(b, int):
            q = iexactdiv(a, 2 ** b)
            if q is not None:
                return q
            if self.decide(st, ile(0, a)) is True:
                return idiv(a, 2 ** b)
            return ifn("ashr", a, b)
        if op == "and":
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if b == -1:
                    return a
                if b >= 0 and (b & (b + 1)) == 0 and self.decide(st, ile(0, a)) is True:
                    return irem(a, b + 1)
            return ifn("and", a, b)
        if op == "or":
            for x, y in ((a, b), (b, a)):
                # x a multiple of 2^k, 0 <= y < 2^k
                k = None
                if isinstance(x, int) and x > 0:
                    k = (x & -x).bit_length() - 1
                elif isinstance(x, I) and all(c % (1 << 32) == 0 for c in x.m.values()):
                    k = 32
                if k and self.decide(st, band(ile(0, y), ilt(y, 1 << k))) is True:
                    return iadd(x, y)
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if b == 0:
                    return a
                # disjoint bits: low part constant below a power of two that divides a
                if b > 0:
                    p = 1 << b.bit_length()
                    if iexactdiv(a, p) is not None:
                        return iadd(a, b)
                    d = idivrem_const(a, p)
                    if d is not None and (d[1] & b) == 0:
                        return iadd(a, b)
            elif isinstance(a, I):
                # a = 2^s * x, 0 <= b < 2^s
                for x, y in ((a, b), (b, a)):
                    s = 0
                    while s < 62 and iexactdiv(x, 2 ** (s + 1)) is not None:
                        s += 1
                    if s and self.decide(st, band(ile(0, y), ilt(y, 2 ** s))) is True:
                        return iadd(x, y)
            return ifn("or", a, b)
        if op == "xor":
            if isinstance(b, int) and b == -1:
                return isub(-1, a)
            return ifn("xor", a, b)
        raise Unsupported("int op %s" % op)

    def icast(self, st, op, v, sty, dty):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, tuple):
            return tuple(self.icast(st, op, x, sty.elem, dty.elem) for x in v)
        if isinstance(v, Pack):
            if op == "trunc" and v.parts[0][1] * 8 == dty.bits:
                return v.parts[0][2]
            raise Unsupported(op + " of packed integers")
        if isinstance(v, (PInt, RBits)):
            if sty.bits == dty.bits or (op in ("zext", "sext")):
                return v
            if op == "trunc":
                raise Unsupported("trunc of pointer/float bits")
            return v
        if op == "trunc":
            if dty.bits == 1:
                if isinstance(v, (B, bool)):
                    return v
                if isinstance(v, int):
                    return v & 1
                return bnot(ieq(irem(v, 2), 0))
            if isinstance(v, (B, bool)):
                return v
            if isinstance(v, int):
                return wrap(v, dty.bits)
            lo, hi = -(2 ** (dty.bits - 1)), 2 ** dty.bits
            g = band(ile(lo, v), ilt(v, hi))
            if self.decide(st, g) is not True:
                self.oblige(st, g, "no truncation", "overflow")
            return v
        if sty.bits == 1:
            if op == "sext":
                if isinstance(v, B):
                    return ineg(b2i(v))
                return -int(bool(v))
            if isinstance(v, B):
                return v
            return int(bool(v))
        if isinstance(v, (B,)):
            return v
        if isinstance(v, int):
            if op == "zext":
                return v & (2 ** sty.bits - 1)
            return v
        if op == "zext":
            g = ile(0, v)
            if self.decide(st, g) is not True:
                self.oblige(st, g, "zero-extended value not negative", "overflow")
        return v


class Infeasible(Exception):
    pass


class AccFail(Exception):
    """a loop assumed to only accumulate into an array does something else"""

    def __init__(self, tag):
        self.tag = tag


class Havoc:
    """a value nothing is known about"""

    def __repr__(self):
        return "havoc"


HAVOC = Havoc()


def delta(t, x):
    """t - x when t is x plus a term free of x (possibly conditional); else None"""
    if t is x:
        return ZERO if isinstance(x, R) else 0
    if isinstance(x, R):
        xs = freevars(x)

        def has(y):
            return isinstance(y, R) and contains(y, x)
        if not isinstance(t, R):
            return None
        if t.op == "add":
            a, b = t.args
            if has(a) and not has(b):
                d = delta(a, x)
                return None if d is None else radd(d, b)
            if has(b) and not has(a):
                d = delta(b, x)
                return None if d is None else radd(a, d)
            return None
        if t.op == "sub":
            a, b = t.args
            if has(a) and not has(b):
                d = delta(a, x)
                return None if d is None else rsub(d, b)
            return None
        if t.op == "ite":
            c, a, b = t.args
            if contains(c, x):
                return None
            da, db = delta(a, x), delta(b, x)
            if da is None or db is None:
                return None
            return rite(c, da, db)
        return None
    if isinstance(t, I):
        d = isub(t, x)
        if not contains(d, x):
            return d
        # ite over x
        if len(t.m) == 1:
            (m, c), = t.m.items()
            if c == 1 and len(m) == 1 and IA.byid[m[0]].op == "ite":
                cc, a, b = IA.byid[m[0]].args
                if contains(cc, x):
                    return None
                da, db = delta(a, x), delta(b, x)
                if da is None or db is None:
                    return None
                return iite(cc, da, db)
    return None


_cont = {}


def contains(t, x):
    """does term t contain the term x"""
    if not isinstance(t, (R, I, IA, B)):
        return False
    if t is x:
        return True
    xa = None
    if isinstance(x, I):
        (m, c), = x.m.items()
        xa = IA.byid[m[0]]
        if t is xa:
            return True
    fx = freevars(x)
    if not fx <= freevars(t) and not any(isinstance(f, tuple) for f in fx):
        return False
    k = (t.id, isinstance(t, IA), x.id)
    r = _cont.get(k)
    if r is None:
        r = False
        if isinstance(t, I):
            r = any(contains(IA.byid[a], x) for m in t.m for a in m)
        else:
            for y in t.args:
                if isinstance(y, tuple):
                    r = any(contains(z, x) for z in y)
                elif not isinstance(y, str):
                    r = contains(y, x)
                if r:
                    break
        _cont[k] = r
    return r


def is_realv(v):
    return isinstance(v, (R, Fraction))


class Unmergeable(Exception):
    pass


class IntTy:
    kind = "int"

    def __init__(self, n):
        self.store = n
        self.bits = 8 * n


class PTR:
    kind = "ptr"
    store = 8
    size = 8
    bits = 64


class Pack:
    """an integer whose bytes are several smaller integers (aggregates passed in registers)"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts


class RBits:
    """64-bit integer view of a real (double)"""
    __slots__ = ("r",)

    def __init__(self, r):
        self.r = r

    def __repr__(self):
        return "bits(%s)" % (self.r,)


def _req(a, b):
    return a is b or (is_num(a) and is_num(b) and a == b)


def zero_of(v):
    return ZERO if isinstance(v, (R, Fraction)) else 0


def xsum(bv, n, body):
    if isinstance(body, (R, Fraction)):
        return rsum(bv, n, body)
    return isum(bv, n, body)


def match_multi(idx, q, bvs, sol):
    """find integer terms for the bound variables with idx[bvs] == q, by matching
    coefficients of a linear form (coefficients may be symbolic)"""
    if isinstance(idx, int):
        return ieq(idx, q) is True
    # rest (free of the bound variables) and per-variable coefficient polynomials
    ids = {b.id for b in bvs}
    coef = {b.id: {} for b in bvs}
    rest = {}
    for m, c in idx.m.items():
        hit = [a for a in m if a in ids]
        if not hit:
            rest[m] = c
        elif len(hit) == 1:
            mm = list(m)
            mm.remove(hit[0])
            coef[hit[0]][tuple(mm)] = c
        else:
            return False
    r = isub(q, I.mk(rest))
    order = sorted([b for b in bvs if coef[b.id]], key=lambda b: (-max(len(m) for m in coef[b.id]),
                                                                -max(abs(c) for c in coef[b.id].values())))
    for b in bvs:
        if not coef[b.id]:
            return False
    for b in order:
        cf = coef[b.id]
        if len(cf) != 1:
            return False
        (mono, c), = cf.items()
        if mono == () and abs(c) == 1:
            sol[b.id] = imul(r, c)
            r = 0
            continue
        quo = {}
        rem = {}
        for m, v in (r.m if isinstance(r, I) else {(): r}).items():
            mm = list(m)
            ok = True
            for a in mono:
                if a in mm:
                    mm.remove(a)
                else:
                    ok = False
                    break
            if ok and v % c == 0:
                quo[tuple(mm)] = quo.get(tuple(mm), 0) + v // c
            elif ok and mono == ():
                quo[tuple(mm)] = quo.get(tuple(mm), 0) + v // c if m == () else 0
                if m != ():
                    return False
                rem[m] = v % c
            else:
                rem[m] = v
        sol[b.id] = I.mk(quo)
        r = I.mk(rem)
    return r == 0


def IteNum(c, a, b):
    """both sides are integers or integer-looking reals: keep as integer ite unless
    one is used as a real; reals that are small integer constants are ambiguous"""
    return AmbIte(c, a, b)


def AmbIte(c, a, b):
    return iite(c, a, b)


def wrap(v, bits):
    if isinstance(v, bool):
        v = int(v)
    v &= (1 << bits) - 1
    if bits > 1 and v >> (bits - 1):
        v -= 1 << bits
    return v


def toi(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, B):
        return b2i(v)
    return v


def tob(v):
    if isinstance(v, (bool, B)):
        return v
    if isinstance(v, int):
        return v != 0
    if isinstance(v, I):
        return bnot(ieq(v, 0))
    if v is UNDEF:
        raise Unsupported("branch on an uninitialised value")
    raise Unsupported("bool of %r" % (v,))


def _insert(agg, idx, v, ty):
    if agg is UNDEF:
        n = len(ty.fields) if ty.kind == "struct" else ty.n
        agg = (UNDEF,) * n
    l = list(agg)
    if len(idx) == 1:
        l[idx[0]] = v
    else:
        sub = ty.fields[idx[0]] if ty.kind == "struct" else ty.elem
        l[idx[0]] = _insert(l[idx[0]], idx[1:], v, sub)
    return tuple(l)


class _FT:
    def __init__(self, kind, bits, store):
        self.kind, self.bits, self.store = kind, bits, store


def _fakety(c):
    sz, v = c
    if isinstance(v, (R, Fraction)):
        return _FT("float", 64, sz)
    if isinstance(v, (Ptr, FnRef)):
        return _FT("ptr", 64, sz)
    return _FT("int", 8 * sz, sz)


def undef_base(o, kind):
    if o.init == "zero":
        return lambda i: (NULLP if kind == "ptr" else (ZERO if kind == "real" else 0))
    return lambda i: UNDEF


def int_only(c):
    """does the condition involve integer terms only"""
    st = [c]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, (list, tuple)):
            st.extend(x)
            continue
        if isinstance(x, R):
            return False
        if isinstance(x, (B, I, IA)):
            if x.id in seen:
                continue
            seen.add(x.id)
            if isinstance(x, I):
                for m in x.m:
                    st.extend(IA.byid[a] for a in m)
            else:
                st.extend(x.args)
    return True


def is_linear_in(idx, bv):
    if isinstance(idx, int):
        return True
    for m in idx.m:
        if m == (bv.id,):
            continue
        for a in m:
            if bv.id in freevars(IA.byid[a]):
                return False
    return True


def match_bv(pat, t, bv):
    """match integer term pat (containing bv) against t; return the value of bv"""
    if isinstance(t, int) or isinstance(pat, int):
        return None
    sol = []

    def m_ia(p, x):
        if p.id == bv.id:
            sol.append(iatom(x))
            return True
        if bv.id not in freevars(p):
            return p is x
        if p.op != x.op or p.op == "v":
            return False
        if p.op == "sel":
            if p.args[0] != x.args[0] or len(p.args[1]) != len(x.args[1]):
                return False
            return all(m_i(a, b) for a, b in zip(p.args[1], x.args[1]))
        return False

    def m_i(p, x):
        if isinstance(p, int) or isinstance(x, int):
            if isinstance(p, I):
                y = solve_lin(p, bv, x)
                if y is not None:
                    sol.append(y)
                    return True
            return p == x
        if bv.id not in freevars(p):
            return p is x
        y = solve_lin(p, bv, x)
        if y is not None:
            sol.append(y)
            return True
        dep = [(mm, c) for mm, c in p.m.items() if any(bv.id in freevars(IA.byid[a]) for a in mm)]
        ind = {mm: c for mm, c in p.m.items() if not any(bv.id in freevars(IA.byid[a]) for a in mm)}
        rest = isub(x, I.mk(ind))
        if len(dep) != 1 or len(dep[0][0]) != 1 or not isinstance(rest, I) or len(rest.m) != 1:
            return False
        (mm, c), = rest.m.items()
        if c != dep[0][1] or len(mm) != 1:
            return False
        return m_ia(IA.byid[dep[0][0][0]], IA.byid[mm[0]])

    if m_i(pat, t) and sol and all(s is sol[0] or s == sol[0] for s in sol):
        return sol[0]
    return None


def solve_lin(p, bv, x):
    if isinstance(p, int):
        return None
    coef = 0
    rest = {}
    for m, c in p.m.items():
        if m == (bv.id,):
            coef = c
        elif any(bv.id in freevars(IA.byid[a]) for a in m):
            return None
        else:
            rest[m] = c
    if coef == 0:
        return None
    return iexactdiv(isub(x, I.mk(rest)), coef)
