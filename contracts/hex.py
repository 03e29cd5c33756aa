"""specification of the eight-node brick shared by several properties"""
from spec import *
import itertools

# corners of the reference cube in Exodus order
CORNER = [(-1, -1, -1), (1, -1, -1), (1, 1, -1), (-1, 1, -1), (-1, -1, 1), (1, -1, 1), (1, 1, 1), (-1, 1, 1)]
VAL = Fr(0.577350269189626)


def shape(n, x):
    c = CORNER[n]
    return Fr(1, 8) * (Fr(1) + c[0] * x[0]) * (Fr(1) + c[1] * x[1]) * (Fr(1) + c[2] * x[2])


def dshape(n, d, x):
    c = CORNER[n]
    r = Fr(c[d], 8)
    for k in range(3):
        if k != d:
            r = r * (Fr(1) + c[k] * x[k])
    return r


def f_tables():
    v = 0.577350269189626
    pts = [[v * c for c in CORNER[p]] for p in range(8)]
    D, N = [], []
    for p in pts:
        for n in range(8):
            N.append(float(shape(n, [Fr(x) for x in p])))
            for d in range(3):
                D.append(float(dshape(n, d, [Fr(x) for x in p])))
    return N, D


F_N, F_D = f_tables()


def rand_hex(rng, scale=None):
    s = scale or rng.choice([0.1, 1.0, 5.0])
    off = [rng.uniform(-3, 3) for _ in range(3)]
    l = [rng.uniform(0.5, 2) for _ in range(3)]
    out = []
    for n in range(8):
        for d in range(3):
            out.append(s * (l[d] * 0.5 * CORNER[n][d] + rng.uniform(-.1, .1)) + off[d])
    return out


def gen_tables(rng):
    if rng.random() < 0.6:
        return {"D": F_D, "N": F_N, "W": [1.0] * 8}
    return {"D": [x + rng.uniform(-.05, .05) for x in F_D], "N": [x + rng.uniform(-.05, .05) for x in F_N],
            "W": [rng.uniform(0.5, 1.5) for _ in range(8)]}


def jac(D, x, p):
    """sum_n x_n (x) dN_n at integration point p"""
    return [[sum3([x[3 * n + i] * D[24 * p + 3 * n + j] for n in range(8)]) for j in range(3)] for i in range(3)]


def cof(a):
    """cofactor matrix: cof(a)^T = det(a) a^-1"""
    return [[a[(i + 1) % 3][(j + 1) % 3] * a[(i + 2) % 3][(j + 2) % 3] - a[(i + 1) % 3][(j + 2) % 3] * a[(i + 2) % 3][(j + 1) % 3]
             for j in range(3)] for i in range(3)]


# ---- the inverse of a 3x3 matrix, as a function (contract of Invert3x3; discharged in C01) ----
def _ninv(i, j):
    def f(*m):
        a = [list(m[0:3]), list(m[3:6]), list(m[6:9])]
        d = _ndet(*m)
        if d == 0:
            return float("nan")
        return (a[(j + 1) % 3][(i + 1) % 3] * a[(j + 2) % 3][(i + 2) % 3] - a[(j + 1) % 3][(i + 2) % 3] * a[(j + 2) % 3][(i + 1) % 3]) / d
    return f


def _ndet(*m):
    return (m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]))


import terms as _t
_t.FN["det3"] = _ndet
for _i in range(3):
    for _j in range(3):
        _t.FN["inv3_%d%d" % (_i, _j)] = _ninv(_i, _j)


def DET(m):
    return rfn("det3", *[m[i][j] for i in range(3) for j in range(3)])


def INV(m):
    a = [m[i][j] for i in range(3) for j in range(3)]
    return [[rfn("inv3_%d%d" % (i, j), *a) for j in range(3)] for i in range(3)]


class DBL:
    kind, bits, store, size = "float", 64, 8, 8


def invert3x3(ex, st, args):
    """contract: requires det(m) > 0; ensures inv = m^-1, returns det(m); writes nothing else"""
    m = [[ex.load(st, Ptr(args[0].obj, iadd(args[0].off, 8 * (3 * i + j))), DBL) for j in range(3)] for i in range(3)]
    if any(x is UNDEF for r in m for x in r):
        raise Fail("Invert3x3 of uninitialised values")
    ex.oblige(st, rlt(Fr(0), DET(m)), "Invert3x3 is called with a positive determinant", "pre")
    v = INV(m)
    for i in range(3):
        for j in range(3):
            ex.store(st, Ptr(args[1].obj, iadd(args[1].off, 8 * (3 * i + j))), v[i][j], DBL)
    return DET(m)


INVERT = [(r"^Invert3x3\(", invert3x3)]
