"""shared vocabulary for the materials"""
from hex import *
import terms as _t

NMAX = 1 << 20
PAR = [Rl("K"), Rl("mu"), Rl("rho"), In("n", 0, NMAX), Rl("t0"), Rl("t1"), RA("Fn", lambda v: imul(9, v.n)), RA("F", lambda v: imul(9, v.n)),
       RA("Sn", lambda v: imul(6, v.n)), RA("S", lambda v: imul(6, v.n), "out")]
CONC = [{"n": k} for k in (0, 1, 2, 8)]


def fmat(v, p):
    return [[v.F[imul(9, p) + FI[i][j]] for j in range(3)] for i in range(3)]


def gen_f(rng, near=True):
    n = rng.randrange(0, 9)
    out = []
    for _ in range(n):
        a = [[(1.0 if i == j else 0.0) + rng.uniform(-0.35, 0.35) for j in range(3)] for i in range(3)]
        if rng.random() < 0.3:
            from spec import rot
        f = [0.0] * 9
        for i in range(3):
            for j in range(3):
                f[FI[i][j]] = a[i][j]
        out += f
    return {"n": n, "F": out, "Fn": out[::-1], "Sn": [rng.uniform(-5, 5) for _ in range(6 * n)], "K": rng.uniform(0.5, 10),
            "mu": rng.uniform(0.1, 5), "rho": rng.uniform(0.1, 5), "t0": 0.25, "t1": 0.5}


# ---- the left stretch of F as a function of F (assumed contract of Polar_Decomp) ----
def _left(F):
    import numpy as np
    a = np.array([[F[FI[i][j]] for j in range(3)] for i in range(3)], dtype=float)
    w, q = np.linalg.eigh(a @ a.T)
    return (q * np.sqrt(np.maximum(w, 0))) @ q.T, a


def _mkv(k):
    i, j = SYM_PAIRS[k]

    def f(*F):
        return float(_left(F)[0][i][j])
    return f


def _mkr(k):
    def f(*F):
        import numpy as np
        V, a = _left(F)
        r = np.linalg.solve(V, a)
        for i in range(3):
            for j in range(3):
                if FI[i][j] == k:
                    return float(r[i][j])
    return f


for _k in range(6):
    _t.FN["polarV%d" % _k] = _mkv(_k)
for _k in range(9):
    _t.FN["polarR%d" % _k] = _mkr(_k)


def polarV(F):
    return [rfn("polarV%d" % k, *F) for k in range(6)]


def polar_decomp(ex, st, args):
    F = [ex.load(st, Ptr(args[0].obj, iadd(args[0].off, 8 * i)), DBL) for i in range(9)]
    if any(x is UNDEF for x in F):
        raise Fail("Polar_Decomp of uninitialised values")
    V = polarV(F)
    for k in range(6):
        ex.store(st, Ptr(args[1].obj, iadd(args[1].off, 8 * k)), V[k], DBL)
    for k in range(9):
        ex.store(st, Ptr(args[2].obj, iadd(args[2].off, 8 * k)), rfn("polarR%d" % k, *F), DBL)
    return None


POLAR = [(r"Polar_Decomp<|Polar_Decomp\(", polar_decomp)]
