"""C14: the sparse matrix container behaves as the matrix its entries define"""
from lin import *
import hoare

PROP = Property("C14", "h_linalg.cc", ["nimble_linear_solver.cc"])


# ---- allocation
def alloc_inv(env):
    v = env.v
    yield ("assert", "entries", lambda s: ile(s("k"), v.nnz))
    for x in env.ints:
        yield ("assert", "largest row seen", lambda s, x=x: bor(band(ieq(s("k"), 0), ieq(s(x), 0)), band(ilt(0, s("k")), ieq(s(x), v.ii[isub(s("k"), 1)]))))
        yield ("assert", "row of the last entry seen", lambda s, x=x: ite_b(s, x, v))
    for a in env.arrs:
        for x in env.ints:
            yield ("assert", "rows up to the current one start where they should", lambda s, a=a, x=x: ALL(0, iadd(s(x), 1), lambda r: ieq(s(a)(r), v.first[r])))


def ite_b(s, x, v):
    return bor(band(ieq(s("k"), 0), ieq(s(x), -1)), band(ilt(0, s("k")), ieq(s(x), v.ii[isub(s("k"), 1)])))


def post_alloc(v):
    return [("number of rows", ieq(v.ret, v.nr)),
            ("row starts", ALL(0, iadd(v.nr, 1), lambda r: ieq(v.new("first")[r], v.first[r]))),
            ("all entries zero", ALL(0, v.nnz, lambda k: req(v.new("a")[k], Fr(0))))]


PROP.task("allocation", "m_alloc", [NR, NNZ, II, JJ, IA_("first", lambda v: iadd(v.nr, 1), "inout", lo=0, hi=lambda v: iadd(v.nnz, 1)), AIO],
          pre=wf, post=post_alloc, ret="int", gen=gen_crs, invariants=[("AllocateNonzeros", hoare.invariant(alloc_inv))])


# ---- finding an entry
def find_inv(env):
    v = env.v
    lo, hi = v.first[v.r], v.first[iadd(v.r, 1)]
    for x in env.ints:
        yield ("assert", "in the row (lower)", lambda s, x=x: ile(lo, s(x)))
        yield ("assert", "in the row (upper)", lambda s, x=x: ile(s(x), hi))
        yield ("assert", "before the entry", lambda s, x=x: ile(s(x), v.p))
        yield ("assert", "after the entry", lambda s, x=x: ilt(v.p, s(x)))
        for y in env.ints:
            if x != y:
                yield ("assert", "column at the trial position", lambda s, x=x, y=y: ieq(s(x), v.jj[s(y)]))
                yield ("assert", "interval not empty", lambda s, x=x, y=y: ilt(s(x), s(y)))
                yield ("assert", "interval shrinks", lambda s, x=x, y=y: ile(isub(s(y), s(x)), isub(isub(hi, lo), s("k"))))
                for z in env.ints:
                    if z != y and z != x:
                        yield ("assert", "midpoint", lambda s, x=x, y=y, z=z: ieq(s(x), idiv(iadd(s(y), s(z)), 2)))


ROW = In("r", 0, lambda v: v.nr)
COL = In("col", 0, lambda v: v.nr)
POS = In("p", 0, lambda v: v.nnz)


def at_p(v):
    return wf(v) + sorted_cols(v) + [ieq(v.ii[v.p], v.r), ieq(v.jj[v.p], v.col)]


def gen_p(rng):
    g = gen_crs(rng)
    r = max(range(g["nr"]), key=lambda r: g["first"][r + 1] - g["first"][r])
    p = rng.randrange(g["nnz"]) if rng.random() < .4 else rng.randrange(g["first"][r], g["first"][r + 1])
    g.update(p=p, r=g["ii"][p], col=g["jj"][p])
    return g


FIND = [("FindIndex", hoare.invariant(find_inv))]
PROP.task("position of a stored entry", "m_find", IDX + [ROW, COL, POS], pre=at_p, post=lambda v: [("position", ieq(v.ret, v.p))], ret="int", gen=gen_p,
          invariants=FIND)


# ---- absent entries are refused
def absent_inv(env):
    v = env.v
    lo, hi = v.first[v.r], v.first[iadd(v.r, 1)]
    for x in env.ints:
        yield ("assert", "in the row (lower)", lambda s, x=x: ile(lo, s(x)))
        yield ("assert", "in the row (upper)", lambda s, x=x: ile(s(x), hi))
        yield ("assert", "in the row (strictly)", lambda s, x=x: ilt(s(x), hi))
        for y in env.ints:
            if x != y:
                yield ("assert", "interval not empty", lambda s, x=x, y=y: ilt(s(x), s(y)))
                yield ("assert", "column at the trial position", lambda s, x=x, y=y: ieq(s(x), v.jj[s(y)]))


def post_absent(v):
    return [("the entry returned is the one asked for", band(ile(v.first[v.r], v.ret), ilt(v.ret, v.first[iadd(v.r, 1)]), ieq(v.jj[v.ret], v.col)))]


def gen_any(rng):
    g = gen_crs(rng)
    g.update(r=rng.randrange(g["nr"]), col=rng.randrange(g["nr"]))
    return g


def absent(v):
    return [ALL(v.first[v.r], v.first[iadd(v.r, 1)], lambda k: bnot(ieq(v.jj[k], v.col)))]


PROP.task("an entry that is not stored is refused", "m_find", IDX + [ROW, COL, K("p", 0)], pre=lambda v: wf(v) + absent(v), throws=lambda v: True, ret="int",
          gen=gen_any, invariants=[("FindIndex", hoare.invariant(absent_inv))])

PROP.task("reading an entry", "m_at", SHAPE + [ROW, COL, POS], pre=at_p, post=lambda v: [("value", req(v.ret, v.a[ifn("pos", v.r, v.col)]))], ret="real", gen=gen_p,
          contracts=[find_contract])
PROP.task("adding to an entry", "m_put", SHAPE_IO + [ROW, COL, Rl("x"), POS], pre=at_p,
          post=lambda v: [("only that entry changes", ALL(0, v.nnz, lambda k: req(v.new("a")[k], v.a[k] + ite(ieq(k, ifn("pos", v.r, v.col)), v.x, Fr(0)))))], gen=gen_p,
          contracts=[find_contract])

X = RA("x", lambda v: v.nr)
Y = RA("y", lambda v: v.nr, "inout")


def gen_mv(rng):
    g = gen_crs(rng)
    g["x"] = [rng.uniform(-2, 2) for _ in range(g["nr"])]
    g["y"] = [rng.uniform(-2, 2) for _ in range(g["nr"])]
    return g


def Ax(v, x, i):
    return SUM(v.nnz, lambda k: ite(ieq(v.ii[k], i), v.a[k] * x[v.jj[k]], Fr(0)))


PROP.task("matrix times vector", "m_matvec", SHAPE + [X, Y],
          post=lambda v: [("result", ALL(0, v.nr, lambda i: req(v.new("y")[i], Ax(v, v.x, i))))], gen=gen_mv)

same = lambda v, c, x: [("entries", ALL(0, v.nnz, lambda k: req(v.new("a")[k], ite(c(k), x, v.a[k]))))]
PROP.task("all values", "m_setall", SHAPE_IO + [Rl("x")], pre=wf, post=lambda v: same(v, lambda k: ile(0, k), v.x), gen=gen_crs)
PROP.task("row values", "m_setrow", SHAPE_IO + [ROW, Rl("x")], pre=wf, post=lambda v: same(v, lambda k: ieq(v.ii[k], v.r), v.x), gen=gen_any)
PROP.task("column values", "m_setcol", SHAPE_IO + [COL, Rl("x")], pre=wf, post=lambda v: same(v, lambda k: ieq(v.jj[k], v.col), v.x), gen=gen_any)


# ---- diagonal matrices
ND = In("n", 0, NMAX)
DA = RA("d", lambda v: v.n)


def gen_d(rng):
    n = rng.randrange(0, 9)
    return {"n": n, "d": [rng.uniform(.1, 3) for _ in range(n)], "x": [rng.uniform(-3, 3) for _ in range(n)], "y": [0.0] * n}


PROP.task("diagonal matrix times vector", "m_diagvec", [ND, DA, RA("x", lambda v: v.n), RA("y", lambda v: v.n, "inout")],
          post=lambda v: [("result", ALL(0, v.n, lambda i: req(v.new("y")[i], v.d[i] * v.x[i])))], gen=gen_d)


def prec_inv(env):
    v = env.v
    yield ("assert", "entries", lambda s: ile(s("k"), v.nnz))
    for x in env.ints + env.cnts:
        def idx(s, x=x):
            km = isub(s("k"), 1)
            return bor(band(ieq(s("k"), 0), ieq(s(x), 0)), band(ilt(0, s("k")), ieq(s(x), iadd(v.ii[km], iite(ile(v.dp[v.ii[km]], km), 1, 0)))))
        yield ("assert", "diagonals seen", idx)
        for a in env.arrs:
            yield ("assert", "their inverses", lambda s, a=a, x=x: ALL(0, s(x), lambda q: req(s(a)(q), Fr(1) / v.a[v.dp[q]])))


def has_diag(v):
    return [ALL(0, v.nr, lambda r: band(ile(0, v.dp[r]), ilt(v.dp[r], v.nnz), ieq(v.ii[v.dp[r]], r), ieq(v.jj[v.dp[r]], r))),
            ALL(0, v.nnz, lambda k: bor(bnot(ieq(v.jj[k], v.ii[k])), ieq(v.dp[v.ii[k]], k))),
            ALL(0, v.nr, lambda r: rne(v.a[v.dp[r]], Fr(0)))]


def gen_diag(rng):
    g = gen_crs(rng, True)
    g["dp"] = [next(k for k in range(g["nnz"]) if g["ii"][k] == r and g["jj"][k] == r) for r in range(g["nr"])]
    g["m"] = [0.0] * g["nr"]
    return g


DP = IA_("dp", lambda v: v.nr)
PROP.task("diagonal preconditioner", "m_prec", SHAPE + [RA("m", lambda v: v.nr, "inout"), DP], pre=lambda v: wf(v) + has_diag(v),
          post=lambda v: [("inverse of the diagonal", ALL(0, v.nr, lambda r: req(v.new("m")[r], Fr(1) / v.a[v.dp[r]])))], gen=gen_diag,
          invariants=[("PopulateDiagonalPreconditioner", hoare.invariant(prec_inv))])
