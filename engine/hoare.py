"""Loops closed by a stated invariant.

A contract may give candidate invariants for a loop the automatic summaries of
loops.py cannot close.  The changed variables, cells and arrays are forgotten
(replaced by fresh symbols), the candidates that hold on entry are assumed, one
iteration is executed, and every candidate has to hold again at the back edge;
candidates that do not are dropped and the iteration is redone (so the surviving
conjunction is inductive).  What leaves the loop leaves it with the invariant.

cands(env) yields
  ("assert", label, f)             f(s) -> formula
  ("define", label, key, f)        f(s) -> value (scalar key) or index -> value (array key);
                                   the variable is replaced by that value instead of a fresh symbol
with s(key) the current value of a variable (offset for pointers, index->value for arrays).
env: ints, reals, ptrs, arrs (lists of keys), init(key), k (ghost iteration count), v (the contract's variables).
"""
from terms import *
import sym as S
from sym import Ptr, SymArr, UNDEF, HAVOC, PInt, RBits
from loops import LS, Give, is_real


class Env:
    pass


def invariant(cands, only=None):
    def h(ex, fr, st, regs, hd, prev):
        import loops
        if isinstance(only, int) and sum(k != hd and hd in b for k, b in fr.F.loops.items()) != only:
            return None         # for the loops at that nesting depth
        nobs = len(ex.obs)
        try:
            return _run(ex, fr, st.copy(), list(regs), hd, prev, cands, only)
        except (Give, S.Unsupported) as e:
            del ex.obs[nobs:]
            if only == "strict":
                raise S.Unsupported("invariant: %s" % e)
            return None
    return h


def _run(ex, fr, st0, regs0, hd, prev, cands, only):
    F = fr.F
    ls = LS(ex, fr, st0, regs0, hd, prev, F.loops[hd])
    keys, arrs = {}, {}
    for i in range(len(ls.phis)):
        v = ls.init[("phi", i)]
        keys[("phi", i)] = None
    kind = {}

    def fresh_for(key, sample):
        nm = ex.fresh("h")
        if isinstance(sample, Ptr):
            i = ls.init_of(key)
            if isinstance(i, Ptr) and i.obj == sample.obj:
                sd = ls.strides.get(i.obj) or st0.mem[i.obj].stride
                if sd:
                    return Ptr(i.obj, iadd(i.off, imul(sd, ivar(nm))))
                return Ptr(i.obj, ivar(nm))
            return HAVOC
        if is_real(sample):
            return rvar(nm)
        if isinstance(sample, RBits):
            return RBits(rvar(nm))
        if isinstance(sample, (bool, B)):
            return bvar(nm)
        if isinstance(sample, (int, I)):
            return ivar(nm)
        return HAVOC

    for k in keys:
        keys[k] = fresh_for(k, ls.init_of(k))
    kv = ivar(ex.fresh("it"))
    defs = {}
    affine = {}

    def aff(key, kt):
        i = ls.init_of(key)
        d = imul(affine[key], kt)
        return Ptr(i.obj, iadd(i.off, d)) if isinstance(i, Ptr) else iadd(i, d)

    def value(key, s, defs):
        if key == "k":
            return kv
        if key in affine:
            x = aff(key, kv)
            return x.off if isinstance(x, Ptr) else x
        if key in defs:
            return defs[key](s)
        if key[0] == "arr":
            d = arrs[key[1:]]
            nm = d["name"]
            return (lambda i: rsel(nm, i)) if d["kind"] == "real" else (lambda i: isel(nm, i))
        v = keys[key]
        return v.off if isinstance(v, Ptr) else v

    def generic(defs, asserts):
        st, regs = st0.copy(), list(regs0)
        s = lambda key: value(key, s, defs)
        for k, x in keys.items():
            if k in affine:
                x = aff(k, kv)
            elif k in defs:
                d = defs[k](s)
                x = Ptr(x.obj, d) if isinstance(x, Ptr) else d
            ls.put(st, regs, k, x)
        for oid, sd in ls.strides.items():
            st.w(oid).stride = sd
        for (oid, fo), d in arrs.items():
            o = st.w(oid)
            if d["kind"] not in ("real", "int"):
                raise Give("pointer array changes in a loop under an invariant")
            o.arr[fo] = SymArr(d["esize"], d["kind"], value(("arr", oid, fo), s, defs), d["name"])
        st.assume(ile(0, kv))
        for c in asserts:
            f = c[2](s)
            if f is not True:
                st.assume(f)
        return st, regs, s

    def reader(st, regs, iters):
        def s(key):
            if key[0] == "arr":
                o = st.mem[key[1]]
                a = o.arr[key[2]]
                return lambda i: ex.sa_read(st, a, i)
            if key == "k":
                return iters
            x = ls.get(st, regs, key)
            if x is UNDEF or x is HAVOC:
                raise KeyError(key)
            if isinstance(x, Ptr):
                return x.off
            if isinstance(x, (bool, B)):
                return S.toi(x)
            return x
        return s

    ex.ob_suppress += 1
    tm = ex.prover.timeout
    ex.prover.timeout = min(tm, 1000)
    try:
        # counters: constant step from the first iteration, confirmed below
        st, regs = st0.copy(), list(regs0)
        for i in range(len(ls.phis)):
            ls.put(st, regs, ("phi", i), ls.init[("phi", i)])
        base, bregs = st.copy(), list(regs)
        try:
            ats, others = ls.run(st, regs)
        except S.Infeasible:
            ats = []
        if ats:
            cks = [("phi", i) for i in range(len(ls.phis))]
            for o in ats:
                cks += [k for k in ls.changed(base, o.st, bregs, o.regs)[0] if k not in cks]
            for k in cks:
                if k[0] != "phi" and (ls.init_of(k) is UNDEF or any(ls.get(o.st, o.regs, k) is UNDEF for o in ats)):
                    continue
                cs = [ls.step(ls.init_of(k), ls.get(o.st, o.regs, k)) for o in ats]
                if all(isinstance(c, int) and c == cs[0] and c != 0 for c in cs):
                    affine[k] = cs[0]
                    keys.setdefault(k, fresh_for(k, ls.init_of(k)))
        if not ats:
            raise Give("the body is never entered")
        # what the loop changes
        for _ in range(30):
            st, regs, s = generic({}, [])
            base, bregs = st.copy(), list(regs)
            ats, others = ls.run(st, regs)
            new = False
            for o in ats:
                ks, ar = ls.changed(base, o.st, bregs, o.regs)
                for k in list(affine):
                    if ls.step(aff(k, iadd(kv, 1)), ls.get(o.st, o.regs, k)) != 0:
                        del affine[k]
                        new = True
                for k in ks:
                    if k in affine:
                        continue
                    if k not in keys:
                        keys[k] = fresh_for(k, ls.get(o.st, o.regs, k))
                        new = True
                    else:
                        v = ls.get(o.st, o.regs, k)
                        x = keys[k]
                        if x is HAVOC or v is UNDEF:
                            continue
                        if is_real(v) and not is_real(x) and isinstance(x, (int, I)):
                            keys[k] = rvar(ex.fresh("h"))
                            new = True
                        elif isinstance(v, Ptr) and isinstance(x, Ptr) and v.obj != x.obj:
                            keys[k] = HAVOC
                            new = True
                for oid, fo, v in ar:
                    if (oid, fo) not in arrs:
                        arrs[(oid, fo)] = {"name": ex.fresh("H"), "esize": v.esize, "kind": v.kind}
                        new = True
            if not new:
                break
        else:
            raise Give("changed variables do not stabilise")
        if not ats:
            raise Give("no back edge")
        # constants of the loop: a changed key whose generic value never differs
        env = Env()
        env.affine = list(affine)
        env.cnts = [k for k in affine if not isinstance(ls.init_of(k), Ptr)]
        keys_ = {k: x for k, x in keys.items() if k not in affine}
        env.ints = [k for k, x in keys_.items() if isinstance(x, (int, I))]
        env.reals = [k for k, x in keys_.items() if is_real(x)]
        env.ptrs = [k for k, x in keys_.items() if isinstance(x, Ptr)]
        env.arrs = [("arr",) + a for a in arrs]
        env.v = getattr(ex, "data_pre", None)
        env.ex, env.ls = ex, ls
        env.where = ls.where
        env.objname = lambda key: st0.mem[key[1]].name
        istate, iregs = st0.copy(), list(regs0)
        for i in range(len(ls.phis)):
            ls.put(istate, iregs, ("phi", i), ls.init[("phi", i)])
        si = reader(istate, iregs, 0)
        env.init = si
        env.size = lambda key: st0.mem[key[1]].size
        al = list(cands(env))
        for k in affine:
            i = ls.init_of(k)
            if isinstance(i, Ptr) and affine[k] > 0:
                al.append(("assert", "pointer within its object", lambda s, k=k, n=st0.mem[i.obj].size: ile(s(k), n)))

        def sk(s):
            return lambda key: kv if key == "k" else s(key)

        def holds(o_st, f):
            if f is True:
                return True
            return ex.prover.prove(list(o_st.pc), f)[0] == "proved"

        def eq(a, b):
            if is_real(a) or is_real(b):
                return req(a, b)
            return ieq(a, b)

        def defeq(c, s):
            key, f = c[2], c[3]
            if key[0] == "arr":
                d = arrs[key[1:]]
                b = fresh_iv()
                i = iatom(b)
                n = idiv(st0.mem[key[1]].size, d["esize"])
                return forall(b, 0, n, eq(s(key)(i), f(s)(i)))
            return eq(s(key), f(s))

        def formula(c, s):
            try:
                return c[2](s) if c[0] == "assert" else defeq(c, s)
            except KeyError:
                return False
        asserts = [c for c in al if c[0] == "assert" and holds(istate, formula(c, si))]
        dl = [c for c in al if c[0] == "define" and holds(istate, formula(c, si))]
        for _ in range(60):
            defs, used = {}, []
            for c in dl:
                if c[2] not in defs:
                    defs[c[2]] = c[3]
                    used.append(c)
            cur = [(c[0], c[1], (lambda s, c=c: c[2](sk(s)))) for c in asserts]
            st, regs, s = generic(defs, cur)
            try:
                ats, others = ls.run(st, regs)
            except S.Fail:
                if not used:
                    raise Give("fails")
                raise
            drop = []
            for o in ats:
                so = reader(o.st, o.regs, iadd(kv, 1))
                for c in asserts + used:
                    if c in drop:
                        continue
                    if not holds(o.st, formula(c, so)):
                        drop.append(c)
            if not drop:
                break
            asserts = [c for c in asserts if c not in drop]
            dl = [c for c in dl if c not in drop]
        else:
            raise Give("no inductive subset")
    finally:
        ex.ob_suppress -= 1
        ex.prover.timeout = tm
    if __import__("os").environ.get("VERIF_DEBUG"):
        print("invariant of", ls.where, "counters", affine, "changed", list(keys_), list(arrs), "kept:", [c[1] for c in asserts + used])
    defs = {c[2]: c[3] for c in reversed(used)}
    cur = [(c[0], c[1], (lambda s, c=c: c[2](sk(s)))) for c in asserts]
    st, regs, s = generic(defs, cur)
    ats, others = ls.run(st, regs)
    for c in asserts + used:
        ex.obs.append(S.Ob("invariant of the loop in %s: %s" % (ls.where, c[1]), (), True, "loop"))
    ex.loops_summarised.append(ls.where + " [stated invariant: %s]" % "; ".join(c[1] for c in asserts + used))
    return others


def fresh_iv():
    return IA.mk("v", "hq%d" % __import__("terms")._nid())
