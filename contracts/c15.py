"""C15: the conjugate gradient solver reports success only for a solution"""
from lin import *
import hoare
import math
from sym import Ptr, PTR
from loops import Give


PROP = Property("C15", "h_linalg.cc", ["nimble_linear_solver.cc"])


def Ax(v, x, i):
    return SUM(v.nnz, lambda k: ite(ieq(v.ii[k], i), v.a[k] * x(v.jj[k]), Fr(0)))


def diag(v, r):
    return Fr(1) / v.a[v.dp[r]]


def res(v, x, i):
    return v.b[i] - Ax(v, x, i)


def norm(v, x):
    """squared residual, weighted by the inverse of the diagonal"""
    return SUM(v.nr, lambda i: res(v, x, i) * (res(v, x, i) * diag(v, i)))


def c_prec(ex, st, a):
    """PopulateDiagonalPreconditioner (C14): M holds the inverses of the diagonal"""
    v = ex.data_pre
    p = ex.load(st, Ptr(a[1].obj, iadd(a[1].off, 8)), PTR)
    o = st.w(p.obj)
    z = o.arr[0]
    z = z.copy()
    z.log = z.log + (("copy", 0, v.nr, lambda r: diag(v, r)),)
    o.arr[0] = z


def cg_inv(env):
    v = env.v
    if not env.reals or len(env.arrs) < 3:
        raise Give("not the iteration loop")
    xs = [a for a in env.arrs if env.objname(a) == "x"]
    if len(xs) != 1:
        raise Give("the iterate is not changed")
    xk = xs[0]
    for a in env.arrs:
        if a != xk:
            yield ("define", "residual", a, lambda s: (lambda i: res(v, s(xk), i)))
            for x in env.reals:
                yield ("define", "weighted residual norm", x, lambda s, a=a: SUM(v.nr, lambda i: s(a)(i) * (s(a)(i) * diag(v, i))))
    for k in env.ints + env.cnts:
        yield ("assert", "iterations within the limit", lambda s, k=k: ile(s(k), v.maxit))


def post(v):
    x1 = lambda i: v.new("x")[i]
    x0 = lambda i: v.x[i]
    return [("success is a flag", bor(ieq(v.ret, 0), ieq(v.ret, 1))),
            ("iterations within the limit", band(ile(0, v.new("it")[0]), ile(v.new("it")[0], v.maxit))),
            ("failure means the limit was reached", bor(ieq(v.ret, 1), ieq(v.new("it")[0], v.maxit))),
            ("success means the residual is within the tolerance", bor(ieq(v.ret, 0), rle(norm(v, x1), v.tol * norm(v, x0))))]


def pre(v):
    return wf(v) + [ALL(0, v.nr, lambda r: rlt(Fr(0), v.a[v.dp[r]]))]


def gen(rng):
    """symmetric and positive definite: diagonally dominant, badly scaled, or B^T B + shift (ill-conditioned, for which the
    residual rises before it falls); tolerances and limits of every size"""
    nr = rng.randrange(1, 6) if rng.random() < .6 else rng.randrange(6, 11)
    M = {}
    how = rng.randrange(4)
    if how == 3:
        nr = rng.randrange(6, 24)
        for i in range(nr):
            M[i, i] = 2.0
            if i:
                M[i, i - 1] = M[i - 1, i] = -1.0
    elif how < 2:
        for i in range(nr):
            for j in range(i):
                if rng.random() < .5:
                    M[i, j] = M[j, i] = rng.uniform(-1, 1)
        for i in range(nr):
            M[i, i] = .3 + rng.uniform(0, 2) + sum(abs(M[k]) for k in M if k[0] == i)
        if how == 1:
            s = [10 ** rng.uniform(-2, 2) for _ in range(nr)]
            M = {k: M[k] * s[k[0]] * s[k[1]] for k in M}
    else:
        B = [[rng.uniform(-1, 1) for _ in range(nr)] for _ in range(nr)]
        e = 10 ** rng.uniform(-4, 0)
        for i in range(nr):
            for j in range(i + 1):
                M[i, j] = M[j, i] = sum(B[k][i] * B[k][j] for k in range(nr)) + (e if i == j else 0)
    g = gen_crs_of(nr, list(M), rng)
    g["a"] = [M[r, c] for r, c in zip(g["ii"], g["jj"])]
    g["dp"] = [next(k for k in range(g["nnz"]) if g["ii"][k] == r and g["jj"][k] == r) for r in range(nr)]
    g.update(b=[rng.uniform(-2, 2) for _ in range(nr)], x=[rng.uniform(-1, 1) for _ in range(nr)],
             tol=rng.choice([10 ** rng.uniform(-8, -1), rng.uniform(.1, .99)]), maxit=rng.choice([0, 1, 2, 3, 4, 5, 7, 100]), it=[-1])
    if how == 3:
        w = rng.uniform(0, 1)
        g.update(b=[1 + w * math.sin((3 + w) * i * i) for i in range(nr)], x=[0.0] * nr, maxit=rng.randrange(1, nr), tol=rng.uniform(.5, .99))
    return g


DP = IA_("dp", lambda v: v.nr, lo=0, hi=lambda v: v.nnz)
PROP.task("conjugate gradients", "m_cg", SHAPE + [RA("b", lambda v: v.nr), RA("x", lambda v: v.nr, "inout"), Rl("tol"), In("maxit", 0, NMAX), IA_("it", 1, "inout"), DP],
          npre=pre, post=post, ret="int", gen=gen, contracts=[(r"PopulateDiagonalPreconditioner\(", c_prec)], invariants=[("CG_SolveSystem", hoare.invariant(cg_inv))], timeout=300)

V2 = [In("n", 0, NMAX), RA("x", lambda v: v.n), RA("y", lambda v: v.n)]
for nm, fn, p in (("inner product", "m_dot", None), ("inner product of vectors", "m_dotv", lambda v: [ilt(0, v.n)])):
    PROP.task(nm, fn, V2, pre=p, post=lambda v: [("sum of products", req(v.ret, SUM(v.n, lambda i: v.x[i] * v.y[i])))], ret="real")
