"""Discharging obligations.

back ends:
  poly   exact polynomial / rational-function normal form (terms.py)
  z3     z3 5.x through its python API (linear/nonlinear integers and reals,
         uninterpreted arrays, quantified facts in the hypotheses)
  cvc5   second opinion when z3 answers unknown
"""
import time
import z3
from fractions import Fraction
from terms import *
import terms as T

STATS = {"z3_calls": 0, "z3_time": 0.0, "poly_calls": 0, "poly_time": 0.0, "cvc5_calls": 0, "cvc5_time": 0.0}


class Z3Conv:
    """lin=True: non-linear real terms become sums of abstract monomials (sound for unsat)"""

    def __init__(self, lin=False):
        self.lin = lin
        self.abstracted = False
        self.lctx = PolyCtx(limit=3000) if lin else None
        self.memo = {}
        self.side = []      # axioms about the terms translated (sqrt etc.)
        self.names = {}
        self.arrs = {}
        self.pctx = PolyCtx()

    def i(self, t):
        if isinstance(t, int):
            return z3.IntVal(t)
        if isinstance(t, IA):
            return self.ia(t)
        r = self.memo.get(t.id)
        if r is None:
            parts = []
            for m, c in t.m.items():
                p = z3.IntVal(c)
                fs = [self.ia(IA.byid[a]) for a in m]
                if fs:
                    q = fs[0]
                    for f in fs[1:]:
                        q = q * f
                    p = q if c == 1 else p * q
                parts.append(p)
            r = z3.Sum(parts) if len(parts) > 1 else parts[0]
            self.memo[t.id] = r
        return r

    def ia(self, a):
        r = self.memo.get(a.id)
        if r is not None:
            return r
        o = a.op
        if o == "v":
            r = z3.Int("i!" + a.args[0])
        elif o == "b2i":
            r = z3.If(self.b(a.args[0]), z3.IntVal(1), z3.IntVal(0))
        elif o == "ite":
            r = z3.If(self.b(a.args[0]), self.i(a.args[1]), self.i(a.args[2]))
        elif o == "sel":
            f = self.arr("ai!" + a.args[0], len(a.args[1]), z3.IntSort())
            r = f(*[self.i(x) for x in a.args[1]])
        elif o in ("div", "rem"):
            x, y = self.i(a.args[0]), self.i(a.args[1])
            q = z3.If(x >= 0, x / y, -((-x) / y)) if isinstance(a.args[1], int) and a.args[1] > 0 else \
                z3.Function("idiv", z3.IntSort(), z3.IntSort(), z3.IntSort())(x, y)
            r = q if o == "div" else x - y * q
        elif o == "fn":
            nm, args = a.args
            zs = [self.any(x) for x in args]
            f = z3.Function("fi!" + nm, *([z.sort() for z in zs] + [z3.IntSort()]))
            r = f(*zs)
            if nm in T.FN_RANGE:
                lo, hi = T.FN_RANGE[nm]
                self.side += [self.i(lo) <= r, r < self.i(hi)]
        elif o == "isum":
            r = z3.Int("isum!%d" % a.id)
        else:
            raise Unsupported("z3 int " + o)
        self.memo[a.id] = r
        return r

    def arr(self, name, n, rng):
        k = (name, n)
        f = self.arrs.get(k)
        if f is None:
            f = self.arrs[k] = z3.Function(name, *([z3.IntSort()] * n + [rng]))
        return f

    def any(self, x):
        if isinstance(x, (I, int)) and not isinstance(x, bool):
            return self.i(x)
        if isinstance(x, (B, bool)):
            return self.b(x)
        return self.r(x)

    def r(self, t):
        if is_num(t):
            return z3.RealVal(str(Fraction(t)))
        if isinstance(t, tuple):
            return z3.Real("special_%s" % (t,))
        r = self.memo.get(t.id)
        if r is not None:
            return r
        st = [t]
        while st:
            x = st[-1]
            if x.id in self.memo:
                st.pop()
                continue
            if x.op in ("add", "sub", "mul", "div"):
                need = [a for a in x.args if isinstance(a, R) and a.id not in self.memo]
                if need:
                    st.extend(need)
                    continue
            self.memo[x.id] = self._r(x)
            st.pop()
        return self.memo[t.id]

    def lin_term(self, x):
        """a non-linear product / quotient / function as a linear combination of monomials"""
        self.abstracted = True
        try:
            p = self.lctx.poly(x)
        except (TooBig, Unsupported):
            return z3.Real("nl!%d" % x.id)
        parts = []
        for m, c in p.items():
            cz = z3.RealVal(str(Fraction(c)))
            if not m:
                parts.append(cz)
                continue
            if len(m) == 1:
                v = PA[m[0]]
                if isinstance(v, R) and v is not x and v.op in ("v", "sel", "ite", "i2r"):
                    parts.append(cz * self.r(v))
                    continue
            parts.append(cz * z3.Real("mono!" + "_".join(map(str, m))))
        return z3.Sum(parts) if parts else z3.RealVal(0)

    def _r(self, x):
        o, a = x.op, x.args
        if self.lin:
            if o == "mul" and not (is_num(a[0]) or is_num(a[1])):
                return self.lin_term(x)
            if o == "div" and not is_num(a[1]):
                return self.lin_term(x)
            if o == "fn" and a[0] not in ("fabs", "floor", "ceil", "trunc", "min", "max") and all(isinstance(y, (R, Fraction)) for y in a[1]):
                return self.lin_term(x)
        if o == "v":
            return z3.Real("r!" + a[0])
        if o == "add":
            return self.r(a[0]) + self.r(a[1])
        if o == "sub":
            return self.r(a[0]) - self.r(a[1])
        if o == "mul":
            return self.r(a[0]) * self.r(a[1])
        if o == "div":
            return self.r(a[0]) / self.r(a[1])
        if o == "ite":
            return z3.If(self.b(a[0]), self.r(a[1]), self.r(a[2]))
        if o == "i2r":
            return z3.ToReal(self.i(a[0]))
        if o == "sel":
            f = self.arr("ar!" + a[0], len(a[1]), z3.RealSort())
            return f(*[self.i(y) for y in a[1]])
        if o == "fn":
            nm, args = a
            zs = [self.any(y) for y in args]
            if nm in ("min", "max"):
                # a fresh constant characterised by side conditions: no nested case distinctions
                r = z3.Real("%s!%d" % (nm, x.id))
                self.side.append(z3.And([r <= z if nm == "min" else r >= z for z in zs]))
                self.side.append(z3.Or([r == z for z in zs]))
                return r
            if nm == "fabs":
                return z3.If(zs[0] >= 0, zs[0], -zs[0])
            if nm == "floor":
                return z3.ToReal(z3.ToInt(zs[0]))
            if nm == "ceil":
                return -z3.ToReal(z3.ToInt(-zs[0]))
            if nm == "trunc":
                return z3.If(zs[0] >= 0, z3.ToReal(z3.ToInt(zs[0])), -z3.ToReal(z3.ToInt(-zs[0])))
            f = z3.Function("f!" + nm, *([z.sort() for z in zs] + [z3.RealSort()]))
            r = f(*zs)
            if nm == "sqrt":
                s = z3.Real("sqrt!%d" % x.id)
                self.side.append(z3.Implies(zs[0] >= 0, z3.And(s >= 0, s * s == zs[0])))
                self.side.append(s == r)
                return s
            if nm == "exp":
                self.side.append(r > 0)
            return r
        if o in ("sum", "minover", "maxover"):
            try:
                p = self.pctx.poly(x)
                k = pkey(p)
                if len(p) == 1 and list(p.values())[0] == 1 and len(list(p)[0]) == 1:
                    return z3.Real("atom!%d" % list(p)[0][0])
                parts = []
                for m, c in p.items():
                    q = z3.RealVal(str(Fraction(c)))
                    for at in m:
                        v = PA[at]
                        if isinstance(v, R) and v.op not in ("sum", "minover", "maxover"):
                            q = q * self.r(v)
                        else:
                            q = q * z3.Real("atom!%d" % at)
                    parts.append(q)
                return z3.Sum(parts) if parts else z3.RealVal(0)
            except TooBig:
                return z3.Real("sum!%d" % x.id)
        raise Unsupported("z3 real " + o)

    def b(self, t):
        if t is True or t is False:
            return z3.BoolVal(t)
        r = self.memo.get(t.id)
        if r is not None:
            return r
        o, a = t.op, t.args
        if o == "v":
            r = z3.Bool("b!" + str(a[0]))
        elif o == "not":
            r = z3.Not(self.b(a[0]))
        elif o == "and":
            r = z3.And([self.b(x) for x in a])
        elif o == "or":
            r = z3.Or([self.b(x) for x in a])
        elif o == "ile":
            r = self.i(a[0]) <= 0
        elif o == "ieq":
            r = self.i(a[0]) == 0
        elif o == "rlt":
            r = self.r(a[0]) < self.r(a[1])
        elif o == "rle":
            r = self.r(a[0]) <= self.r(a[1])
        elif o == "req":
            r = self.r(a[0]) == self.r(a[1])
        elif o == "forall":
            v = self.ia(a[0])
            n0 = len(self.side)
            body = self.b(a[3])
            sd = self.side[n0:]
            del self.side[n0:]
            if sd:
                body = z3.Implies(z3.And(sd), body)
            r = z3.ForAll([v], z3.Implies(z3.And(self.i(a[1]) <= v, v < self.i(a[2])), body))
        elif o == "fn":
            nm, args = a
            zs = [self.any(y) for y in args]
            f = z3.Function("fb!" + nm, *([z.sort() for z in zs] + [z3.BoolSort()]))
            r = f(*zs)
        else:
            raise Unsupported("z3 bool " + o)
        self.memo[t.id] = r
        return r


def has_forall(c):
    st = [c]
    while st:
        x = st.pop()
        if isinstance(x, B):
            if x.op == "forall":
                return True
            st.extend(y for y in x.args if isinstance(y, B))
    return False


def range_key():
    return tuple((k, str(v)) for k, v in T.FN_RANGE.items())


def relevant(pc, goal, depth=12):
    """cone of influence of the goal in the path condition"""
    fv = set(freevars(goal)) if goal is not None else set()
    rest = list(pc)
    out = []
    for _ in range(depth):
        new = []
        hit = False
        for c in rest:
            f = freevars(c)
            if not f or (f & fv):
                out.append(c)
                fv |= f
                hit = True
            else:
                new.append(c)
        rest = new
        if not hit:
            break
    return out


_cache = {}


def has_quant(c):
    return isinstance(c, B) and (c.op == "forall" or c.op in ("and", "or", "not") and any(has_quant(x) for x in c.args))


def sat(conds, timeout=2000, want_model=False, mbqi=True):
    """'sat' / 'unsat' / 'unknown' (+ model env)"""
    for c in conds:
        if c is False:
            return ("unsat", None)
    conds = [c for c in conds if c is not True]
    if not conds:
        return ("sat", None)
    key = (tuple(sorted(set(c.id for c in conds))), want_model, range_key(), mbqi)
    r = _cache.get(key)
    if r is not None and (r[0] != "unknown" or r[2] >= timeout):
        return r[:2]
    t0 = time.time()
    try:
        cv = Z3Conv(True)
        s = z3.Solver() if mbqi else z3.SimpleSolver()
        s.set("timeout", timeout)
        if not mbqi:
            s.set("mbqi", False)
        s.add(*[cv.b(c) for c in conds])
        s.add(*cv.side)
        if cv.abstracted:
            STATS["z3_calls"] += 1
            if s.check() == z3.unsat:
                STATS["z3_time"] += time.time() - t0
                _cache[key] = ("unsat", None, timeout)
                return ("unsat", None)
    except (z3.Z3Exception, Unsupported):
        pass
    cv = Z3Conv()
    s = z3.Solver() if mbqi else z3.SimpleSolver()
    s.set("timeout", timeout)
    if not mbqi:
        s.set("mbqi", False)
    try:
        zs = [cv.b(c) for c in conds]
        s.add(*zs)
        s.add(*cv.side)
        res = s.check()
    except z3.Z3Exception as e:
        res = z3.unknown
    STATS["z3_calls"] += 1
    STATS["z3_time"] += time.time() - t0
    out = "sat" if res == z3.sat else ("unsat" if res == z3.unsat else "unknown")
    model = None
    if out == "sat" and want_model:
        model = s.model()
    _cache[key] = (out, model, timeout)
    return (out, model)


import os
DEBUG = os.environ.get("VERIF_DEBUG")


def show_deep(x):
    if isinstance(x, R) and x.op == "sum":
        return "sum(%s, %s, %s)" % (x.args[0], x.args[1], {tuple(str(T.PA[a]) for a in m): c for m, c in PolyCtx().poly(x.args[2]).items()})
    return str(x)


class Prover:
    def __init__(self, timeout=4000):
        self.timeout = timeout
        self.dcache = {}

    def decide(self, pc, c, timeout=None, lazy=False):
        """True / False / None"""
        if c is True or c is False:
            return c
        ids = None
        for p in pc:
            if p is c:
                return True
        n = bnot(c)
        if n is True or n is False:
            return not n
        for p in pc:
            if p is n:
                return False
        if lazy:
            return None
        rel = relevant(pc, c)
        key = (c.id, frozenset(p.id for p in rel), range_key())
        if key in self.dcache:
            return self.dcache[key]
        t = timeout or min(self.timeout, 700)
        r = None
        q = any(has_quant(p) for p in rel)
        if sat(rel + [n], t, mbqi=not q)[0] == "unsat":
            r = True
        elif sat(rel + [c], t, mbqi=not q)[0] == "unsat":
            r = False
        self.dcache[key] = r
        return r

    # ---- obligations -----------------------------------------------------
    def prove(self, pc, goal, depth=0, budget=None):
        """-> (status, info); status in proved/refuted/unknown.
        refuted info: dict(model=z3 model or None)"""
        if goal is True:
            return ("proved", "trivial")
        if depth == 0 and goal is not False:
            s = unit_subst(pc)
            if s is not None:
                pc2 = [subst(c, s[0]) if isinstance(c, B) else c for c in pc if c is not s[1]]
                if any(c is False for c in pc2):
                    return ("proved", "trivial")
                old = dict(T.FN_RANGE)
                try:
                    for k, (lo, hi) in old.items():
                        T.FN_RANGE[k] = (subst(lo, s[0]), subst(hi, s[0]))
                    st, i = self.prove([c for c in pc2 if c is not True], subst(goal, s[0]), 0, budget)
                finally:
                    T.FN_RANGE.update(old)
                return (st, None) if st == "refuted" else (st, i)
        if goal is False:
            st, m = sat(relevant_all(pc), self.timeout, True)
            if st == "unsat":
                return ("proved", "z3")
            return ("refuted" if st == "sat" else "unknown", m)
        if goal.op == "and":
            info = set()
            for g in goal.args:
                st, i = self.prove(pc, g, depth, budget)
                if st != "proved":
                    return (st, i)
                info.add(i)
            return ("proved", "+".join(sorted(info)))
        if goal.op == "forall":
            v = ivar("sk%d" % T._nid())
            body = subst(goal.args[3], {goal.args[0].id: v})
            return self.prove(list(pc) + [ile(goal.args[1], v), ilt(v, goal.args[2])], body, depth, budget)
        if goal.op == "req":
            return self.prove_eq(pc, goal.args[0], goal.args[1], depth, budget)
        if goal.op == "or":
            # move negated disjuncts to the hypotheses, keep the last equality as the goal
            eqs = [g for g in goal.args if isinstance(g, B) and g.op in ("req", "forall")]
            if len(eqs) == 1:
                hyp = [bnot(g) for g in goal.args if g is not eqs[0]]
                if sat(relevant_all(list(pc) + hyp), self.timeout)[0] == "unsat":
                    return ("proved", "z3")
                st, i = self.prove(list(pc) + hyp, eqs[0], depth, budget)
                return (st, i)
        return self.prove_smt(pc, goal)

    def prove_smt(self, pc, goal, timeout=None):
        rel = relevant(pc, goal)
        st, m = sat(rel + [bnot(goal)], timeout or self.timeout, True)
        if st == "unsat":
            return ("proved", "z3")
        if st == "unknown":
            r = cvc5_unsat(rel + [bnot(goal)], timeout or self.timeout)
            if r == "unsat":
                return ("proved", "cvc5")
            return ("unknown", "solver unknown")
        # all of the path condition, in case the cone cut too much
        if len(rel) != len(pc):
            st, m2 = sat(list(pc) + [bnot(goal)], timeout or self.timeout, True)
            if st == "unsat":
                return ("proved", "z3")
            if st == "sat":
                m = m2
        if os.environ.get("VERIF_DUMP"):
            cv = Z3Conv(True)
            for c in list(pc) + [bnot(goal)]:
                x = cv.b(c).sexpr()
                print("DUMP", x[:3000])
                import re
                for q in set(re.findall(r"atom!(\d+)", x)):
                    print("   ATOM", q, show_deep(T.PA[int(q)]))
        return ("refuted", m)

    def congruence(self, pc, a, b):
        """an integer atom of a or b that the hypotheses equate to a term of the other side (by comparing the
        positions at which the two sides read the same array)"""
        dec = lambda c, extra=(): self.decide(list(pc) + [x for x in extra if x is not True] if extra else pc, c)
        try:
            ctx = PolyCtx(dec)
            pa, pb = ctx.poly(a), ctx.poly(b)
        except T.TooBig:
            return None
        sa, sb, bound = {}, {}, set()
        for p, q, s in ((pa, pb, sa), (pb, pa, sb)):
            at = {x for m in p if p[m] != q.get(m) for x in m}
            at2 = {x for m in q if q[m] != p.get(m) for x in m}
            for x in at - at2:
                bound |= reads(patom_terms(x), s)
        n = 0
        for arr in sa:
            xs, ys = [[(i, q[i]) for i in q if i not in p] for q, p in ((sa[arr], sb.get(arr, {})), (sb.get(arr, {}), sa[arr]))]
            for _, x in xs:
                for _, y in ys:
                    for i, j in zip(x, y):
                        d = isub(i, j)
                        if not isinstance(d, I) or bound & freevars(d):
                            continue
                        n += 1
                        if n > 60:
                            return None
                        if self.decide(pc, ieq(d, 0), 1500) is not True:
                            continue
                        cs = [(IA.byid[mn[0]], k) for mn, k in d.m.items() if len(mn) == 1 and k in (1, -1)]
                        # the deepest atom goes
                        for at, k in sorted(cs, key=lambda q: (q[0].op == "v", -depth_of(q[0]))):
                            rest = isub(d, imul(k, iatom(at)))
                            if occurs(at, rest):
                                continue
                            return {at.id: imul(-k, rest)}
        return None

    def prove_eq(self, pc, a, b, depth=0, budget=None, rounds=0):
        t0 = time.time()
        dec = lambda c, extra=(): self.decide(list(pc) + [x for x in extra if x is not True] if extra else pc, c)
        T.UNIT.update(unit_arrays(pc))
        st, info = poly_equal(a, b, dec)
        T.UNIT.clear()
        STATS["poly_calls"] += 1
        STATS["poly_time"] += time.time() - t0
        if st == "yes":
            return ("proved", info)
        # case split on the undecided conditional expressions
        c = find_ite(a, b, lambda c: self.decide(pc, c))
        if c is not None and depth < 14:
            infos = set()
            for lit in (c, bnot(c)):
                s2, i2 = self.prove_eq(list(pc) + [lit], a, b, depth + 1, budget)
                if s2 != "proved":
                    return (s2, i2)
                infos.add(i2)
            return ("proved", "+".join(sorted(infos)))
        if pc and sat(list(pc), 1000)[0] == "unsat":
            return ("proved", "z3")
        if rounds < 8:
            m = self.congruence(pc, a, b)
            if m:
                return self.prove_eq(pc, subst(a, m), subst(b, m), depth, budget, rounds + 1)
        # equations found by the case splits are used to eliminate a variable
        u = unit_subst(pc) if rounds < 8 else None
        if u is not None:
            pc2 = [subst(c, u[0]) if isinstance(c, B) else c for c in pc if c is not u[1]]
            old = dict(T.FN_RANGE)
            try:
                for k, (lo, hi) in old.items():
                    T.FN_RANGE[k] = (subst(lo, u[0]), subst(hi, u[0]))
                r = ("proved", "trivial") if any(c is False for c in pc2) else \
                    self.prove_eq([c for c in pc2 if c is not True], subst(a, u[0]), subst(b, u[0]), depth, budget, rounds + 1)
            except ZeroDivisionError:
                r = ("unknown", None)
            finally:
                T.FN_RANGE.update(old)
            if r[0] == "proved":
                return r
        if DEBUG:
            print("NOT EQUAL under", [str(c)[:80] for c in pc][-6:])
            ctx = T.PolyCtx(dec)
            pa, pb = ctx.poly(a), ctx.poly(b)
            for m in set(pa) | set(pb):
                if pa.get(m, 0) != pb.get(m, 0):
                    print("  ", pa.get(m, 0), pb.get(m, 0), [str(T.PA[x])[:300] for x in m])
        # hypotheses may be needed
        st2, m = self.prove_smt(pc, req_raw(a, b), timeout=min(self.timeout, 3000) if st == "no" else self.timeout)
        if st2 == "proved":
            return (st2, m)
        if st == "no" and st2 == "unknown":
            return ("unknown", "normal forms differ")
        return (st2, m)


def patom_terms(x):
    v = T.PA[x]
    if isinstance(v, R):
        return v
    return tuple(patom_terms(y) for m in v[1] for y in m) if isinstance(v[1], dict) else ()


def reads(t, out):
    """array reads in t: {(array, is real): {ids of the indices: indices}}; returns the bound variables"""
    seen, st, bound = set(), [t], set()
    while st:
        x = st.pop()
        if isinstance(x, (tuple, list)):
            st.extend(x)
            continue
        if not isinstance(x, (R, I, IA, B)) or (type(x), x.id) in seen:
            continue
        seen.add((type(x), x.id))
        if isinstance(x, I):
            for m in x.m:
                st.extend(IA.byid[q] for q in m)
            continue
        if x.op in ("sum", "minover", "maxover", "isum", "forall"):
            bound.add(x.args[0].id)
            st.extend(x.args[1:])
            continue
        if x.op == "sel":
            k = tuple(i if isinstance(i, int) else ("#", i.id) for i in x.args[1])
            out.setdefault((x.args[0], isinstance(x, R)), {})[k] = x.args[1]
        st.extend(y for y in x.args if not isinstance(y, str))
    return bound


def depth_of(a):
    if a.op == "v" or not a.args:
        return 0
    d, st = 0, [(a, 0)]
    while st:
        x, k = st.pop()
        if isinstance(x, (tuple, list)):
            st.extend((y, k) for y in x)
        elif isinstance(x, I):
            st.extend((IA.byid[q], k + 1) for m in x.m for q in m)
        elif isinstance(x, IA):
            st.extend((y, k) for y in x.args)
        d = max(d, k)
    return d


def occurs(at, t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, (tuple, list)):
            st.extend(x)
        elif isinstance(x, I):
            for m in x.m:
                for q in m:
                    if q == at.id:
                        return True
                    st.append(IA.byid[q])
        elif isinstance(x, (IA, B, R)):
            st.extend(x.args)
    return False


def req_raw(a, b):
    return req(a, b)


def unit_subst(pc):
    """an equation  variable = term  among the hypotheses (p = 0, or p <= 0 and -p <= 0)"""
    les = {c.args[0].id for c in pc if isinstance(c, B) and c.op == "ile" and isinstance(c.args[0], I)}
    for c in pc:
        if not isinstance(c, B) or c.op not in ("ieq", "ile") or not isinstance(c.args[0], I):
            continue
        if c.op == "ile" and T.ineg(c.args[0]).id not in les:
            continue
        p = c.args[0]
        for mon, k in p.m.items():
            if len(mon) != 1 or k not in (1, -1):
                continue
            a = IA.byid[mon[0]]
            if a.op != "v":
                continue
            rest = isub(p, imul(k, iatom(a)))
            if isinstance(rest, I) and a.id in freevars(rest):
                continue
            return {a.id: imul(-k, rest)}, c
    return None


def unit_arrays(pc):
    """names of the integer arrays whose entries are bounded by 0 and 0"""
    out = set()
    for c in pc:
        if isinstance(c, B) and c.op == "forall" and isinstance(c.args[3], B) and c.args[3].op == "and":
            ps = [x.args[0] for x in c.args[3].args if isinstance(x, B) and x.op == "ile" and isinstance(x.args[0], I)]
            for p in ps:
                if len(p.m) == 1 and T.ineg(p) in ps:
                    (m, k), = p.m.items()
                    if len(m) == 1 and IA.byid[m[0]].op == "sel":
                        out.add(IA.byid[m[0]].args[0])
    return out


def relevant_all(pc):
    return [c for c in pc if c is not True]


def find_ite(a, b, decide):
    """an undecided condition of an ite occurring in a or b (deepest first)"""
    seen = set()
    st = [a, b]
    cands = []
    bound = frozenset()
    while st:
        x = st.pop()
        if isinstance(x, (tuple, list)):
            st.extend(x)
            continue
        if not isinstance(x, (R, I, IA, B)) or x.id in seen:
            continue
        seen.add(x.id)
        if isinstance(x, I):
            for m in x.m:
                st.extend(IA.byid[q] for q in m)
            continue
        if isinstance(x, R) and x.op in ("sum", "minover", "maxover"):
            bound = bound | {x.args[0].id}
            st.append(x.args[2])
            continue
        if isinstance(x, (R, IA)) and x.op == "ite":
            d = decide(x.args[0])
            if d is None:
                cands.append(x.args[0])
            st.extend(x.args[1:] if d is None else [x.args[1] if d else x.args[2]])
            if d is None:
                st.append(x.args[0])
            continue
        if isinstance(x, IA) and x.op == "b2i":
            if decide(x.args[0]) is None:
                cands.append(x.args[0])
            continue
        if isinstance(x, R) and x.op == "fn" and x.args[0] == "fabs":
            pass
        st.extend(y for y in x.args if not isinstance(y, str))
    cands = [c for c in cands if isinstance(c, B) and not (bound and bound & freevars(c))]
    if not cands:
        return None
    # split on an atomic condition
    c = min(cands, key=lambda z: z.id)
    while isinstance(c, B) and c.op in ("and", "or", "not"):
        nxt = None
        for y in c.args:
            if isinstance(y, B) and decide(y) is None:
                nxt = y
                break
        if nxt is None:
            break
        c = nxt
    return c


def cvc5_unsat(conds, timeout):
    """second opinion through cvc5 on the SMT-LIB text of the same query"""
    t0 = time.time()
    try:
        import cvc5
        cv = Z3Conv()
        s = z3.Solver()
        s.add(*[cv.b(c) for c in conds])
        s.add(*cv.side)
        txt = s.sexpr()
        tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
        sol = cvc5.Solver(tm) if tm else cvc5.Solver()
        sol.setOption("tlimit-per", str(timeout))
        sol.setLogic("ALL")
        ip = cvc5.InputParser(sol)
        ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt + "\n(check-sat)\n", "q")
        sm = ip.getSymbolManager()
        out = "unknown"
        while True:
            cmd = ip.nextCommand()
            if cmd.isNull():
                break
            res = cmd.invoke(sol, sm)
            if "unsat" in str(res):
                out = "unsat"
            elif str(res).strip() == "sat":
                out = "sat"
        return out
    except Exception as e:
        return "unknown"
    finally:
        STATS["cvc5_calls"] += 1
        STATS["cvc5_time"] += time.time() - t0
