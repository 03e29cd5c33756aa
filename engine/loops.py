"""Closing a loop with a symbolic trip count by an inductive invariant.

The invariant gives every variable and memory cell the loop changes as a closed
form of the ghost iteration count k (affine counters, partial sums, running
minima/maxima, element-wise array definitions, array accumulations).  It is
inferred from the loop body itself and then *checked*: one generic iteration is
executed from the state the invariant describes at k, and must produce the state
it describes at k+1; the initial state must be the one it describes at 0.
"""
from terms import *
import terms as T
import sym as S
from sym import Outcome, Ptr, PInt, RBits, SymArr, UNDEF, HAVOC, delta, contains, AccFail, Infeasible, zero_of


class Give(Exception):
    pass


def is_real(v):
    return isinstance(v, (R, Fraction))


class LS:
    """one loop under summary"""

    def __init__(self, ex, fr, st0, regs0, h, prev, body):
        self.ex, self.fr, self.st0, self.regs0, self.h, self.prev, self.body = ex, fr, st0, regs0, h, prev, body
        self.phis = fr.F.blocks[h].phis
        self.init = {}
        for i, ph in enumerate(self.phis):
            self.init[("phi", i)] = ex.val(st0, regs0, ph[1][prev])
        self.where = "%s block %d" % (ex.dem.get(fr.F.name, fr.F.name), h)
        self.k = IA.mk("v", ex.fresh("k"))
        self.kt = iatom(self.k)
        self.cells = {}      # key -> symbol (None while unknown)
        self.sym = {}        # key -> fresh symbol of the generic state (non-affine)
        self.affine = {}     # key -> step
        self.arrs = {}       # (oid, fo) -> dict(mode, name, esize, kind)
        self.kind = {}
        self.strides = {}
        self.hot = set()

    # ---- reading/writing a state vector
    def get(self, st, regs, key):
        if key[0] == "phi":
            return regs[self.phis[key[1]][0]]
        o = st.mem[key[1]]
        c = o.cells.get(key[2])
        if c is None:
            if o.init == "zero":
                return 0
            return UNDEF
        if c[0] != key[3]:
            raise Give("cell %s changes width" % (key,))
        return c[1]

    def put(self, st, regs, key, v):
        if key[0] == "phi":
            regs[self.phis[key[1]][0]] = v
        else:
            o = st.w(key[1])
            if v is UNDEF:
                o.cells.pop(key[2], None)
            else:
                o.cells[key[2]] = (key[3], v)

    def init_of(self, key):
        if key in self.init:
            return self.init[key]
        v = self.get(self.st0, None, key)
        self.init[key] = v
        return v

    def run(self, st, regs):
        """one iteration from the header"""
        outs = self.ex.region(self.fr, st, regs, self.h, self.prev, self.h, self.body, True, True)
        ats, others = [], []
        for o in outs:
            if o.kind == "at":
                if not o.phis:
                    vals = [self.ex.val(o.st, o.regs, ph[1][o.prev]) for ph in self.phis]
                    for ph, v in zip(self.phis, vals):
                        o.regs[ph[0]] = v
                    o.phis = True
                ats.append(o)
            else:
                others.append(o)
        return ats, others

    def merged(self, base, ats):
        if not ats:
            return None
        if len(ats) > 1:
            out = self.ex.merge_outs(base, ats, self.fr.F, self.h)
            if len(out) > 1:
                raise Give("paths through the loop body cannot be merged")
            return out[0]
        return ats[0]

    def changed(self, a, b, aregs, bregs):
        """keys changed from state a to state b"""
        ks = []
        for i, ph in enumerate(self.phis):
            if not self.same(aregs[ph[0]], bregs[ph[0]]):
                ks.append(("phi", i))
        arrs = []
        for oid, x in a.mem.items():
            y = b.mem.get(oid)
            if y is x:
                continue
            if y is None:
                raise Give("object disappears")
            if y.freed != x.freed:
                raise Give("loop frees %s" % x.name)
            if (x.arr is None) != (y.arr is None):
                raise Give("array mode change")
            if x.arr is None:
                if x.init != y.init:
                    raise Give("block clear of %s" % x.name)
                for q in set(x.cells) | set(y.cells):
                    u, v = x.cells.get(q), y.cells.get(q)
                    if u is v or (u is not None and v is not None and u[0] == v[0] and self.same(u[1], v[1])):
                        continue
                    if v is None:
                        if u[1] is UNDEF:
                            continue
                        raise Give("cell of %s dropped" % x.name)
                    if u is not None and u[0] != v[0]:
                        raise Give("cell of %s changes width" % x.name)
                    ks.append(("cell", oid, q, v[0]))
            else:
                if x.stride != y.stride:
                    if x.stride is not None:
                        raise Give("stride change")
                    self.strides[oid] = y.stride
                for fo, v in y.arr.items():
                    u = x.arr.get(fo)
                    if u is not None and len(u.log) == len(v.log) and all(p is q for p, q in zip(u.log, v.log)):
                        continue
                    arrs.append((oid, fo, v))
        return ks, arrs

    def same(self, u, v):
        if u is v:
            return True
        if isinstance(u, (Ptr, tuple)) or isinstance(v, (Ptr, tuple)):
            return u == v
        if isinstance(u, RBits) and isinstance(v, RBits):
            return S._req(u.r, v.r)
        if isinstance(u, PInt) and isinstance(v, PInt):
            return u.p == v.p
        if type(u) != type(v):
            return False
        return u == v

    def step(self, u, v):
        """constant difference v - u of integers / pointers"""
        if isinstance(u, (int, I)) and isinstance(v, (int, I)) and not isinstance(u, bool) and not isinstance(v, bool):
            return isub(v, u)
        if isinstance(u, Ptr) and isinstance(v, Ptr) and u.obj == v.obj:
            return isub(v.off, u.off)
        return None

    def at_affine(self, key, kt):
        v = self.init_of(key)
        d = imul(self.affine[key], kt)
        if isinstance(v, Ptr):
            return Ptr(v.obj, iadd(v.off, d))
        return iadd(v, d)

    def mksym(self, key, sample):
        nm = self.ex.fresh("s")
        if is_real(sample):
            return rvar(nm)
        if isinstance(sample, (B, bool)):
            return bvar(nm)
        if isinstance(sample, (int, I)):
            return ivar(nm)
        if isinstance(sample, Ptr):
            i = self.init_of(key)
            if isinstance(i, Ptr) and i.obj == sample.obj:
                return Ptr(i.obj, ivar(nm))
            return HAVOC
        if isinstance(sample, RBits):
            return RBits(rvar(nm))
        return HAVOC

    # ---- generic state
    def generic(self, extra=()):
        st = self.st0.copy()
        regs = list(self.regs0)
        for i in range(len(self.phis)):
            k = ("phi", i)
            self.put(st, regs, k, self.init_of(k))
        for k in self.affine:
            self.put(st, regs, k, self.at_affine(k, self.kt))
        for k, s in self.sym.items():
            self.put(st, regs, k, s)
        for oid, s in self.strides.items():
            st.w(oid).stride = s
        for (oid, fo), d in self.arrs.items():
            o = st.w(oid)
            nm = d["name"]
            if d["kind"] == "real":
                base = (lambda i, nm=nm: rsel(nm, i))
            elif d["kind"] == "int":
                base = (lambda i, nm=nm: isel(nm, i))
            else:
                base = (lambda i: HAVOC)
            a = SymArr(d["esize"], d["kind"], base, nm)
            if d["mode"] == "acc":
                a.acc = d["tag"]
            o.arr[fo] = a
        st.assume(ile(0, self.kt))
        for c in extra:
            st.assume(c)
        return st, regs

    # ---- discovery
    def discover(self):
        ex = self.ex
        # two sample iterations from the initial state
        st = self.st0.copy()
        regs = list(self.regs0)
        for i in range(len(self.phis)):
            self.put(st, regs, ("phi", i), self.init[("phi", i)])
        seq = [(st.copy(), list(regs))]
        for _ in range(2):
            s2, r2 = seq[-1][0].copy(), list(seq[-1][1])
            smp, ex.sampling = ex.sampling, ex.sampling if ex.sampling is not None else set()
            try:
                ats, _o = self.run(s2, r2)
            except Infeasible:
                break
            except AccFail:
                raise
            finally:
                hot, ex.sampling = ex.sampling, smp
            self.hot |= hot
            if not ats:
                break
            o = ats[0] if len(ats) == 1 else self.ex.merge_outs(seq[-1][0], ats, self.fr.F, self.h)[0]
            seq.append((o.st, o.regs))
        if len(seq) < 2:
            return False
        ks, arrs = self.changed(seq[0][0], seq[1][0], seq[0][1], seq[1][1])
        if len(seq) > 2:
            k2, a2 = self.changed(seq[1][0], seq[2][0], seq[1][1], seq[2][1])
            ks = list(dict.fromkeys(ks + k2))
            arrs = arrs + a2
        for k in ks:
            v1 = self.get(seq[1][0], seq[1][1], k)
            c = self.step(self.init_of(k), v1)
            ok = c is not None
            if ok and len(seq) > 2:
                c2 = self.step(v1, self.get(seq[2][0], seq[2][1], k))
                ok = c2 is not None and c2 == c
            if ok:
                self.affine[k] = c
            else:
                self.sym[k] = self.mksym(k, v1 if v1 is not UNDEF else self.init_of(k))
        for oid, fo, v in arrs:
            self.add_arr(oid, fo, v)
        for _round in range(40):
            if not self.round():
                return True
        raise Give("loop analysis does not stabilise")

    def add_arr(self, oid, fo, v):
        if (oid, fo) in self.arrs:
            return False
        o0 = self.st0.mem[oid]
        a0 = o0.arr.get(fo) if o0.arr is not None else None
        d = {"mode": "lam", "name": self.ex.fresh("A"), "esize": v.esize, "kind": v.kind}
        if a0 is not None and a0.acc is not None:
            d["mode"] = "acc"
            d["tag"] = self.ex.fresh("cur")
            d["outer"] = a0.acc
        elif a0 is not None and id(a0.base) in self.hot:
            d["mode"] = "acc"
            d["tag"] = self.ex.fresh("cur")
        self.arrs[(oid, fo)] = d
        return True

    def fail_acc(self, tag):
        for d in self.arrs.values():
            if d.get("tag") == tag:
                if "outer" in d:
                    raise AccFail(d["outer"])
                d["mode"] = "inj"
                return
        raise AccFail(tag)

    def round(self, extra=()):
        """one generic iteration; True if the assumed shape had to change"""
        st, regs = self.generic(extra)
        base = st.copy()
        bregs = list(regs)
        try:
            ats, others = self.run(st, regs)
        except AccFail as e:
            self.fail_acc(e.tag)
            return True
        o = self.merged(base, ats)
        if o is None:
            raise Give("no back edge in the generic iteration")
        ch = False
        ks, arrs = self.changed(base, o.st, bregs, o.regs)
        known = set(self.affine) | set(self.sym)
        for k in ks:
            if k not in known:
                self.sym[k] = self.mksym(k, self.get(o.st, o.regs, k))
                ch = True
        for oid, fo, v in arrs:
            if self.add_arr(oid, fo, v):
                ch = True
        if ch:
            return True
        # affine guesses must hold
        for k in list(self.affine):
            v = self.get(o.st, o.regs, k)
            w = self.at_affine(k, iadd(self.kt, 1))
            c = self.step(w, v)
            if c != 0:
                c2 = self.step(self.get(base, bregs, k), v)
                if c2 is not None and isinstance(c2, int) and c2 != self.affine[k]:
                    self.affine[k] = c2
                    return True
                if c is not None and ex_eq(self.ex, o.st, c):
                    continue
                del self.affine[k]
                self.sym[k] = self.mksym(k, v)
                return True
        # types of the fresh symbols
        for k, s in list(self.sym.items()):
            v = self.get(o.st, o.regs, k)
            if s is HAVOC or v is UNDEF:
                continue
            if is_real(v) != is_real(s) and not isinstance(v, (Ptr, RBits, PInt)):
                if is_real(v):
                    self.sym[k] = rvar(self.ex.fresh("s"))
                    if isinstance(self.init_of(k), int):
                        self.init[k] = Fraction(self.init[k])
                    return True
                if isinstance(v, int):
                    continue
                raise Give("variable changes type")
        self.o, self.base, self.bregs, self.others = o, base, bregs, others
        # values that must not mention in-flight accumulators
        acctags = tuple(d["tag"] for d in self.arrs.values() if d["mode"] == "acc")
        if acctags:
            bad = self.mentions(o, others, lambda f: isinstance(f, tuple) and isinstance(f[1], str) and f[1].startswith(acctags))
            if bad:
                for d in self.arrs.values():
                    if d["mode"] == "acc" and bad.startswith(d["tag"]):
                        self.fail_acc(d["tag"])
                return True
        # arrays read in the loop that writes them
        for key, d in self.arrs.items():
            if d["mode"] != "lam":
                continue
            if self.mentions(o, others, lambda f: f == ("arr", d["name"])):
                if d["kind"] == "ptr":
                    raise Give("pointer array updated in place")
                d["mode"] = "acc"
                d["tag"] = self.ex.fresh("cur")
                return True
        return False

    def mentions(self, o, others, pred):
        def chk(v):
            if isinstance(v, (R, I, B)):
                for f in freevars(v):
                    if pred(f):
                        return f[1] if isinstance(f, tuple) else True
            elif isinstance(v, Ptr):
                return chk(v.off)
            elif isinstance(v, PInt):
                return chk(v.p) if isinstance(v.p, Ptr) else None
            elif isinstance(v, RBits):
                return chk(v.r)
            elif isinstance(v, tuple):
                for x in v:
                    r = chk(x)
                    if r:
                        return r
            return None
        for k in list(self.sym) + list(self.affine):
            r = chk(self.get(o.st, o.regs, k))
            if r:
                return r
        for c in o.st.pc[len(self.base.pc):]:
            r = chk(c)
            if r:
                return r
        for x in others:
            for c in x.st.pc[len(self.base.pc):]:
                r = chk(c)
                if r:
                    return r
        for (oid, fo), d in self.arrs.items():
            for e in o.st.mem[oid].arr[fo].log:
                for v in entry_terms(e):
                    r = chk(v)
                    if r:
                        return r
        return None

    # ---- classification of the non-affine variables
    def classify(self):
        o = self.o
        self.cf = {}          # key -> function(kt) -> value
        self.smap = {}        # symbol id -> closed form at self.kt
        for k in self.affine:
            self.cf[k] = (lambda kt, k=k: self.at_affine(k, kt))
        ids = {}
        for k, s in self.sym.items():
            i = symid(s)
            if i is not None:
                ids[i] = k
        todo = dict(self.sym)
        prog = True
        while todo and prog:
            prog = False
            for k in list(todo):
                s = todo[k]
                v = self.get(o.st, o.regs, k)
                deps = {ids[f] for f in fvs(v) if f in ids} & set(todo)
                if deps - {k}:
                    continue
                if v is UNDEF or s is HAVOC and not deps:
                    self.cf[k] = self.delay(k, v)
                elif not deps:
                    self.cf[k] = self.delay(k, v)
                else:
                    f = self.recur(k, s, v)
                    if f is None:
                        raise Give("no closed form for %s (%s -> %s)" % (self.keyname(k), s, str(v)[:300]))
                    self.cf[k] = f
                i = symid(s)
                if i is not None:
                    self.smap[i] = symval(s, self.cf[k](self.kt))
                del todo[k]
                prog = True
        if todo:
            raise Give("mutually recursive loop variables %s" % [self.keyname(k) for k in todo])

    def keyname(self, k):
        if k[0] == "phi":
            return "phi%d" % k[1]
        return "%s+%d" % (self.st0.mem[k[1]].name, k[2])

    def sub(self, t, kt=None):
        """replace generic symbols by their closed forms (at kt instead of k)"""
        m = dict(self.smap)
        t = subv(t, m)
        if kt is not None:
            t = subv(t, {self.k.id: kt})
        return t

    def delay(self, key, v):
        ini = self.init_of(key)
        vk = self.sub(v)

        def f(kt):
            prevv = subv(vk, {self.k.id: isub(kt, 1)})
            if isinstance(kt, int):
                return ini if kt <= 0 else prevv
            if ini is UNDEF or self.same(ini, prevv):
                return prevv
            if getattr(self, "pos", False) and kt is self.T:
                return prevv
            try:
                a = ini
                if is_real(prevv) and isinstance(a, int):
                    a = Fraction(a)
                return self.ex.ite(ile(kt, 0), a, prevv)
            except S.Unmergeable:
                return HAVOC
        return f

    def recur(self, key, s, v):
        ini = self.init_of(key)
        jn = IA.mk("v", self.ex.fresh("j"))
        jt = iatom(jn)
        if isinstance(s, R):
            if isinstance(ini, int):
                ini = Fraction(ini)
            if not is_real(ini):
                return None
            g = delta(v, s)
            if g is not None and not contains(g, s):
                gj = self.sub(g, jt)
                return lambda kt: radd(ini, rsum(jn, kt, gj))
            mm = minmax(v, s)
            if mm is not None and not contains(mm[1], s):
                gj = self.sub(mm[1], jt)
                return lambda kt: T.mk_minover(mm[0], jn, kt, gj, ini)
            return None
        if isinstance(s, I):
            g = delta(v, s)
            if g is not None and not contains(g, s):
                gj = self.sub(g, jt)
                return lambda kt: iadd(ini, isum(jn, kt, gj))
            return None
        if isinstance(s, Ptr) and isinstance(v, Ptr):
            g = delta(v.off, s.off)
            if g is not None and not contains(g, s.off):
                gj = self.sub(g, jt)
                return lambda kt: Ptr(ini.obj, iadd(ini.off, isum(jn, kt, gj)))
            return None
        if isinstance(s, B):
            # latch: v = s or c(k)   /   v = s and c(k)
            if v.op in ("or", "and") and any(x is s for x in v.args):
                rest = [x for x in v.args if x is not s]
                c = bor(*rest) if v.op == "or" else band(*rest)
                if not contains(c, s):
                    cj = self.sub(c, jt)
                    if v.op == "and":
                        return lambda kt: band(S.tob(ini), forall(jn, 0, kt, cj))
                    return lambda kt: bor(S.tob(ini), bnot(forall(jn, 0, kt, bnot(cj))))
            return None
        return None

    # ---- arrays
    def array_entries(self):
        """closed form of the updates: (oid, fo) -> function(kt) -> log entries"""
        self.acf = {}
        ex = self.ex
        submaps = {}
        for (oid, fo), d in self.arrs.items():
            if d["mode"] == "inj":
                submaps[(oid, fo)] = d
        for key, d in self.arrs.items():
            oid, fo = key
            log = self.o.st.mem[oid].arr[fo].log
            jn = IA.mk("v", ex.fresh("kb"))
            jt = iatom(jn)
            conv = (lambda t, jt=jt: self.sub(self.inj_sub(t), jt))
            ents = []
            if d["mode"] == "acc":
                for e in log:
                    if e[0] != "acc":
                        raise Give("accumulation expected")
                    ents.append(("acc", e[1], e[2]))

                def mk(kt, ents=ents, jn=jn, conv=conv):
                    out = []
                    for e in ents:
                        out.append(("acc", ((jn, kt),) + tuple((bv, conv(N)) for bv, N in e[1]),
                                    tuple((conv(i), conv(v)) for i, v in e[2])))
                    return tuple(out)
                self.acf[key] = mk
                continue
            singles = []
            multi = []
            for e in log:
                if e[0] == "w":
                    if multi:
                        multi.append(((), e[1], e[2]))
                    else:
                        singles.append((e[1], e[2]))
                elif e[0] == "lam":
                    for i, v in e[3]:
                        multi.append((((e[1], e[2]),), i, v))
                elif e[0] == "lamn":
                    multi.append((e[1], e[2], e[3]))
                elif e[0] == "copy":
                    bn = IA.mk("v", ex.fresh("c"))
                    multi.append((((bn, e[2]),), iadd(e[1], iatom(bn)), e[3](iatom(bn))))
                else:
                    raise Give("array update %s in a loop" % e[0])

            def mk2(kt, singles=singles, multi=multi, jn=jn, conv=conv):
                out = []
                if singles:
                    out.append(("lam", jn, kt, [(conv(i), conv(v)) for i, v in singles]))
                for bvs, i, v in multi:
                    if not bvs:
                        out.append(("lam", jn, kt, [(conv(i), conv(v))]))
                    else:
                        out.append(("lamn", ((jn, kt),) + tuple((b, conv(N)) for b, N in bvs), conv(i), conv(v)))
                return tuple(out)
            if multi and len(singles) + len(multi) > 1:
                self.check_disjoint(key, singles, multi)
            self.acf[key] = mk2

    def check_disjoint(self, key, singles, multi):
        """several update statements under a nested loop: sequencing them loop by loop is
        only right when different iterations of the outer loop touch different elements"""
        ex = self.ex
        k2 = IA.mk("v", ex.fresh("k2"))
        allw = [((), i) for i, v in singles] + [(b, i) for b, i, v in multi]

        def inst(bvs, idx, kt):
            m = {}
            facts = []
            for bv, N in bvs:
                x = ivar(ex.fresh("q"))
                facts += [ile(0, x), ilt(x, subv(self.sub(subst(N, m)), {self.k.id: kt}))]
                m[bv.id] = x
            return facts, subv(self.sub(subst(idx, m)), {self.k.id: kt})
        for n1, (b1, i1) in enumerate(allw):
            for n2, (b2, i2) in enumerate(allw):
                if n1 == n2:
                    continue
                f1, x1 = inst(b1, i1, self.kt)
                f2, x2 = inst(b2, i2, iatom(k2))
                pc = self.st0.pc + tuple(c for c in f1 + f2 + [ile(0, self.kt), ilt(self.kt, iatom(k2))] if c is not True)
                if ex.prover.decide(pc, ieq(x1, x2)) is not False:
                    raise Give("interleaved array updates")

    def inj_sub(self, t):
        """reads of arrays updated in place: the element read was not written by an
        earlier iteration, so it still has its value from before the loop"""
        m = {}
        for key, d in self.arrs.items():
            if d["mode"] == "inj" and isinstance(t, (R, I, B)) and ("arr", d["name"]) in freevars(t):
                a = self.st0.mem[key[0]].arr.get(key[1])
                if a is None:
                    raise Give("in-place update of a new array")
                stx = self.st0.copy()
                m[("arr", d["name"])] = (lambda i, a=a, stx=stx: self.ex.sa_read(stx, a, i))
        if not m:
            return t
        return subst(t, m)

    def check_inj(self):
        """prove that reads of in-place updated arrays see the pre-loop value"""
        for key, d in self.arrs.items():
            if d["mode"] != "inj":
                continue
            reads = {}

            def visit(v, ctx):
                for i in sel_indices(v, d["name"]):
                    reads[(S.T._key(i), tuple((b.id) for b, _ in ctx))] = (i, ctx)
            for k in list(self.sym) + list(self.affine):
                v = self.get(self.o.st, self.o.regs, k)
                for x in parts(v):
                    visit(x, ())
            for o in [self.o] + self.others:
                for c in o.st.pc[len(self.base.pc):]:
                    visit(c, ())
            for (oid, fo), d2 in self.arrs.items():
                for e in self.o.st.mem[oid].arr[fo].log:
                    if e[0] == "lam":
                        ctx = ((e[1], e[2]),)
                    elif e[0] == "lamn" or e[0] == "acc":
                        ctx = tuple(e[1])
                    else:
                        ctx = ()
                    for v in entry_terms(e):
                        for x in parts(v):
                            visit(x, ctx)
            writes = []
            for e in self.o.st.mem[key[0]].arr[key[1]].log:
                if e[0] == "w":
                    writes.append((e[1], ()))
                elif e[0] == "lam":
                    writes += [(i, ((e[1], e[2]),)) for i, v in e[3]]
                elif e[0] == "lamn":
                    writes.append((e[2], tuple(e[1])))
                elif e[0] == "copy":
                    bn = IA.mk("v", self.ex.fresh("c"))
                    writes.append((iadd(e[1], iatom(bn)), ((bn, e[2]),)))
                else:
                    raise Give("in-place update shape")
            j = ivar(self.ex.fresh("jj"))
            for ri, rctx in reads.values():
                for wi, wctx in writes:
                    pc = list(self.o.st.pc) + [ile(0, j), ilt(j, self.kt)]
                    m = {}
                    for b, N in wctx:
                        x = ivar(self.ex.fresh("w"))
                        m[b.id] = x
                        pc += [ile(0, x), ilt(x, subv(self.sub(N), {self.k.id: j}))]
                    w2 = subst(subv(self.sub(wi), {self.k.id: j}), m)
                    for b, N in rctx:
                        pc += [ile(0, iatom(b)), ilt(iatom(b), N)]
                    if self.ex.prover.decide(tuple(c for c in pc if c is not True), ieq(w2, self.sub(ri))) is not False:
                        raise Give("array %s is read after an earlier iteration changed it" % self.st0.mem[key[0]].name)

    # ---- trip count
    def trip(self):
        conds = [self.sub(self.inj_sub(c)) for c in self.o.st.pc[len(self.base.pc):]]
        flat = []
        for c in conds:
            if isinstance(c, B) and c.op == "and":
                flat += list(c.args)
            elif c is not True:
                flat.append(c)
        guard = None
        rest = []
        for c in flat:
            g = self.guard(c) if guard is None else None
            if g is not None:
                guard = (c,) + g
            else:
                rest.append(c)
        if guard is None:
            raise Give("no recognisable loop guard in %s" % (flat,))
        return guard, rest

    def guard(self, c):
        if not isinstance(c, B):
            return None
        neg = False
        x = c
        if c.op == "not" and c.args[0].op == "ieq":
            neg, x = True, c.args[0]
        if x.op not in ("ile", "ieq") or (x.op == "ieq" and not neg):
            return None
        p = x.args[0]
        if isinstance(p, int):
            return None
        kid = self.k.id
        coef = p.m.get((kid,), 0)
        if coef == 0:
            return None
        for m in p.m:
            if m != (kid,) and any(kid in freevars(IA.byid[a]) for a in m):
                return None
        r = isub(p, imul(coef, self.kt))
        if x.op == "ile":
            if coef < 0:
                return None
            if coef == 1:
                return ("ile", isub(1, r))
            return ("ile", iadd(idiv(ineg(r), coef), 1))
        t = iexactdiv(ineg(r), coef)
        if t is None:
            return None
        return ("ne", t)

    # ---- states in closed form
    def state(self, kt, facts):
        st = self.st0.copy()
        regs = list(self.regs0)
        for i in range(len(self.phis)):
            k = ("phi", i)
            self.put(st, regs, k, self.init_of(k))
        for k, f in self.cf.items():
            self.put(st, regs, k, f(kt))
        for oid, s in self.strides.items():
            st.w(oid).stride = s
        for key, f in self.acf.items():
            oid, fo = key
            o = st.w(oid)
            d = self.arrs[key]
            a = o.arr.get(fo)
            if a is None:
                a = SymArr(d["esize"], d["kind"], S.undef_base(o, d["kind"]), "%s.f%d" % (o.name, fo))
            else:
                a = a.copy()
            if not (isinstance(kt, int) and kt <= 0):
                a.log = a.log + f(kt)
            o.arr[fo] = a
        for c in facts:
            st.assume(c)
        return st, regs


PART = ()


def parts(v):
    if isinstance(v, (R, I, B)):
        return [v]
    if isinstance(v, Ptr):
        return parts(v.off)
    if isinstance(v, RBits):
        return parts(v.r)
    if isinstance(v, PInt) and isinstance(v.p, Ptr):
        return parts(v.p)
    if isinstance(v, tuple):
        return [y for x in v for y in parts(x)]
    return []


def fvs(v):
    s = set()
    for x in parts(v):
        s |= freevars(x)
    return s


def subv(t, m):
    if isinstance(t, Ptr):
        return Ptr(t.obj, subst(t.off, m))
    if isinstance(t, PInt):
        return PInt(subv(t.p, m)) if isinstance(t.p, Ptr) else t
    if isinstance(t, RBits):
        return RBits(subst(t.r, m))
    if isinstance(t, tuple):
        return tuple(subv(x, m) for x in t)
    if isinstance(t, (R, I, B)):
        return subst(t, m)
    return t


def symid(s):
    if isinstance(s, R):
        return s.id
    if isinstance(s, B):
        return s.id
    if isinstance(s, I):
        (m, c), = s.m.items()
        return m[0]
    if isinstance(s, Ptr):
        return symid(s.off)
    if isinstance(s, RBits):
        return symid(s.r)
    return None


def symval(s, v):
    if isinstance(s, Ptr):
        return v.off if isinstance(v, Ptr) else HAVOC
    if isinstance(s, RBits):
        return v.r if isinstance(v, RBits) else HAVOC
    return v


def minmax(v, s):
    """v = min/max(s, g): returns (kind, g)"""
    if isinstance(v, R) and v.op == "fn" and v.args[0] in ("min", "max") and any(x is s for x in v.args[1]):
        return (v.args[0], T.rmnx(v.args[0], *[x for x in v.args[1] if x is not s]))
    if not isinstance(v, R) or v.op != "ite":
        return None
    c, a, b = v.args
    if c.op not in ("rlt", "rle"):
        return None
    x, y = c.args
    # ite(x < y, a, b)
    if a is s:
        g = b
        if x is s and y is g:
            return ("min", g)
        if y is s and x is g:
            return ("max", g)
    elif b is s:
        g = a
        if x is g and y is s:
            return ("min", g)
        if y is g and x is s:
            return ("max", g)
    return None


def entry_terms(e):
    if e[0] == "w":
        return [e[1], e[2]]
    if e[0] == "lam":
        return [x for iv in e[3] for x in iv] + [e[2]]
    if e[0] == "lamn":
        return [e[2], e[3]] + [N for _, N in e[1]]
    if e[0] == "acc":
        return [x for iv in e[2] for x in iv] + [N for _, N in e[1]]
    if e[0] == "fill":
        return [e[1]]
    if e[0] == "copy":
        q = ivar("%%copy")
        return [e[1], e[2], e[3](q)]
    return []


def sel_indices(v, name):
    out = []
    seen = set()
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, I):
            st.extend(IA.byid[a] for m in x.m for a in m)
            continue
        if not isinstance(x, (R, B, IA)) or (x.id, type(x)) in seen:
            continue
        seen.add((x.id, type(x)))
        if x.op == "sel":
            if x.args[0] == name:
                out.append(x.args[1][0])
            st.extend(x.args[1])
            continue
        for y in x.args:
            if isinstance(y, tuple):
                st.extend(y)
            elif not isinstance(y, (str, int, Fraction)):
                st.append(y)
    return out


def ex_eq(ex, st, c):
    return ex.decide(st, ieq(c, 0)) is True


def summarise(ex, fr, st, regs, h, prev, body):
    ls = LS(ex, fr, st, regs, h, prev, body)
    try:
        return _summarise(ex, ls)
    except Give as e:
        raise Unsupported("loop in %s: %s" % (ls.where, e))


def _summarise(ex, ls):
    ex.ob_suppress += 1
    try:
        if not ls.discover():
            # no iteration continues: just execute
            st, regs = ls.st0.copy(), list(ls.regs0)
            for i in range(len(ls.phis)):
                ls.put(st, regs, ("phi", i), ls.init[("phi", i)])
            ex.ob_suppress -= 1
            try:
                ats, others = ls.run(st, regs)
            finally:
                ex.ob_suppress += 1
            if ats:
                raise Give("inconsistent zero-iteration analysis")
            return others
        ls.classify()
        (gc, gkind, tc), rest = ls.trip()
        # re-run with the guard assumed until the shape is stable
        for _ in range(40):
            if not ls.round((ilt(ls.kt, tc),)):
                break
        else:
            raise Give("does not stabilise under the guard")
        ls.classify()
        (gc, gkind, tc2), rest = ls.trip_again(gc, tc)
    finally:
        ex.ob_suppress -= 1
    out = []
    T_ = tc
    nonneg = ex.decide(ls.st0, ile(0, T_))
    cases = []
    if gkind == "ne" and nonneg is not True:
        ex.oblige(ls.st0, ile(0, T_), "loop counter reaches its bound in %s" % ls.where, "loop")
        nonneg = True
    if nonneg is True:
        cases.append((T_, []))
    else:
        if ex.decide(ls.st0, ile(T_, 0)) is not False:
            cases.append((0, [ile(T_, 0)]))
        if ex.decide(ls.st0, ile(T_, 0)) is not True:
            cases.append((T_, [ilt(0, T_)]))
    # the checked generic iteration (obligations counted)
    for Tk, facts in cases:
        if isinstance(Tk, int) and Tk == 0:
            st, regs = ls.st0.copy(), list(ls.regs0)
            for i in range(len(ls.phis)):
                ls.put(st, regs, ("phi", i), ls.init[("phi", i)])
            for c in facts:
                st.assume(c)
            ats, others = ls.run(st, regs)
            if ats:
                raise Give("guard analysis")
            out += others
            continue
        ls.check_inj()
        ls.T = Tk
        ls.pos = bool(facts) or ex.decide(ls.st0, ilt(0, Tk)) is True
        ls.array_entries()
        extra = tuple(facts) + (ilt(ls.kt, Tk),)
        brk = [ls.sub(ls.inj_sub(c)) for c in rest]
        jn = IA.mk("v", ex.fresh("jb"))
        nob = forall(jn, 0, Tk, subst(band(*brk), {ls.k.id: iatom(jn)})) if brk else True
        # iteration with obligations, from the invariant's own state
        before = forall(jn, 0, ls.kt, subst(band(*brk), {ls.k.id: iatom(jn)})) if brk else True
        st, regs = ls.state(ls.kt, [ile(0, ls.kt)] + list(extra) + ([before] if before is not True else []))
        acc = any(d["mode"] == "acc" for d in ls.arrs.values())
        if acc:
            # in-flight accumulators are opaque to the body: same execution as the discovery
            for key, d in ls.arrs.items():
                if d["mode"] == "acc":
                    o = st.w(key[0])
                    a = SymArr(d["esize"], d["kind"], (lambda i, nm=d["name"]: rsel(nm, i)), d["name"])
                    a.acc = d["tag"]
                    o.arr[key[1]] = a
        base = st.copy()
        ats, others = ls.run(st, regs)
        o = ls.merged(base, ats)
        if o is None:
            raise Give("generic iteration lost its back edge")
        ls.check_step(o, base)
        # leaving early
        if others:
            K = IA.mk("v", ex.fresh("K"))
            kt = iatom(K)
            bef = forall(jn, 0, kt, subst(band(*brk), {ls.k.id: iatom(jn)})) if brk else True
            st, regs = ls.state(kt, [ile(0, kt), ilt(kt, Tk)] + list(facts) + ([bef] if bef is not True else []))
            ats, oth = ls.run(st, regs)
            out += oth
        # leaving at the bound
        st, regs = ls.state(Tk, list(facts) + ([nob] if nob is not True else []))
        gneg = bnot(subst(gc, {ls.k.id: Tk}))
        if gneg is not True and gneg is not False:
            st.assume(gneg)
        ats, oth = ls.run(st, regs)
        if ats:
            raise Give("loop continues past its trip count")
        out += oth
    ex.loops_summarised.append(ls.where)
    return out


def _trip_again(self, gc, tc):
    conds = [self.sub(self.inj_sub(c)) for c in self.o.st.pc[len(self.base.pc):]]
    flat = []
    for c in conds:
        if isinstance(c, B) and c.op == "and":
            flat += list(c.args)
        elif c is not True:
            flat.append(c)
    rest = [c for c in flat if c is not gc]
    return (gc, None, tc), rest


LS.trip_again = _trip_again


def _check_step(self, o, base):
    """the generic iteration leads from the invariant at k to the invariant at k+1"""
    ex = self.ex
    k1 = iadd(self.kt, 1)
    for k, f in self.cf.items():
        v = self.get(o.st, o.regs, k)
        w = f(k1)
        if self.same(v, w) or v is UNDEF or w is HAVOC:
            continue
        for x, y in pairparts(v, w):
            if x is y:
                continue
            if is_real(x) or is_real(y):
                g = req(x, y)
                if isinstance(y, R) and (has_op(y, ("minover", "maxover"))):
                    continue   # by definition of the running minimum
                st_, info = ex.prover.prove(list(o.st.pc), unroll_last(g, k1, self.kt))
            elif isinstance(x, (B, bool)):
                continue
            else:
                st_, info = ex.prover.prove(list(o.st.pc), unroll_last(ieq(x, y), k1, self.kt))
            if st_ != "proved":
                raise Give("invariant not inductive for %s" % self.keyname(k))
    ks, arrs = self.changed(base, o.st, [None] * 0 or base_regs(self, base), o.regs)
    known = set(self.cf)
    for k in ks:
        if k not in known:
            raise Give("frame of the invariant: %s changes" % self.keyname(k))
    for oid, fo, v in arrs:
        if (oid, fo) not in self.acf:
            raise Give("frame of the invariant: array changes")


LS.check_step = _check_step


def base_regs(self, base):
    regs = list(self.regs0)
    for i in range(len(self.phis)):
        k = ("phi", i)
        self.put(base, regs, k, self.cf[k](self.kt) if k in self.cf else self.init_of(k))
    return regs


def pairparts(v, w):
    a, b = parts1(v), parts1(w)
    if len(a) != len(b):
        raise Give("shape of the invariant")
    return list(zip(a, b))


def parts1(v):
    if isinstance(v, Ptr):
        return [v.off]
    if isinstance(v, RBits):
        return [v.r]
    if isinstance(v, PInt):
        return [v.p.off]
    return [v]


def has_op(t, ops):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, I):
            st.extend(IA.byid[a] for m in x.m for a in m)
            continue
        if not isinstance(x, (R, B, IA)) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ops:
            return True
        for y in x.args:
            if isinstance(y, tuple):
                st.extend(y)
            elif not isinstance(y, (str, int, Fraction)):
                st.append(y)
    return False


def unroll_last(g, k1, k):
    """sum_{j<k+1} f = sum_{j<k} f + f(k), inside a goal"""
    memo = {}

    def go(t):
        if isinstance(t, (bool, int, Fraction, str)) or t is None:
            return t
        key = (t.id, isinstance(t, IA))
        if key in memo:
            return memo[key]
        if isinstance(t, I):
            out = 0
            for m, c in t.m.items():
                p = c
                for a in m:
                    p = imul(p, go(IA.byid[a]))
                out = iadd(out, p)
            r = out
        elif isinstance(t, IA):
            if t.op == "isum" and t.args[1] is k1:
                r = iadd(T.isum_raw(t.args[0], k, t.args[2]), subst(t.args[2], {t.args[0].id: k}))
            else:
                r = iatom(t)
        elif isinstance(t, R):
            if t.op == "sum" and t.args[1] is k1:
                r = radd(T.rsum_raw(t.args[0], k, t.args[2]), subst(t.args[2], {t.args[0].id: k}))
            elif t.op in ("add", "sub", "mul", "div"):
                f = {"add": radd, "sub": rsub, "mul": rmul, "div": rdiv}[t.op]
                r = f(go(t.args[0]), go(t.args[1]))
            elif t.op == "ite":
                r = rite(t.args[0], go(t.args[1]), go(t.args[2]))
            else:
                r = t
        elif isinstance(t, B):
            if t.op == "req":
                r = req(go(t.args[0]), go(t.args[1]))
            elif t.op == "ieq":
                r = ieq(go(t.args[0]), 0)
            else:
                r = t
        else:
            r = t
        memo[key] = r
        return r
    return go(g)
