"""specification vocabulary shared by the contracts"""
from vlib import *
from terms import *
from fractions import Fraction as Fr

# storage of full and symmetric 3x3 tensors
FI = [[0, 3, 8], [6, 1, 4], [5, 7, 2]]
SI = [[0, 3, 5], [3, 1, 4], [5, 4, 2]]
RI = [[0, 1, 2], [3, 4, 5], [6, 7, 8]]
SYM_PAIRS = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (2, 0)]
_n = [0]


def mat(a, idx):
    return [[a[idx[i][j]] for j in range(3)] for i in range(3)]


def full(a):
    return mat(a, FI)


def sym(a):
    return mat(a, SI)


def rowm(a):
    return mat(a, RI)


def mmul(a, b):
    return [[sum3([a[i][k] * b[k][j] for k in range(3)]) for j in range(3)] for i in range(3)]


def mT(a):
    return [[a[j][i] for j in range(3)] for i in range(3)]


def mscale(s, a):
    return [[s * a[i][j] for j in range(3)] for i in range(3)]


def madd(a, b):
    return [[a[i][j] + b[i][j] for j in range(3)] for i in range(3)]


def msub(a, b):
    return [[a[i][j] - b[i][j] for j in range(3)] for i in range(3)]


def comm(a, b):
    return msub(mmul(a, b), mmul(b, a))


def sum3(l):
    r = Fr(0)
    for x in l:
        r = r + x
    return r


def det3(a):
    return (a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1])
            - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
            + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]))


EYE = [[Fr(1 if i == j else 0) for j in range(3)] for i in range(3)]


def eqmat(name, a, b):
    return [("%s[%d][%d]" % (name, i, j), req(a[i][j], b[i][j])) for i in range(3) for j in range(3)]


def fresh(name="q"):
    _n[0] += 1
    return IA.mk("v", "%s!%d" % (name, _n[0]))


def SUM(n, f):
    q = fresh("s")
    return rsum(q, n, f(iatom(q)))


def ISUM(n, f):
    q = fresh("s")
    return isum(q, n, f(iatom(q)))


def ALL(lo, hi, f):
    q = fresh("a")
    return forall(q, lo, hi, f(iatom(q)))


def eqarr(name, n, f, g):
    """for concrete n a list of goals; else one quantified goal"""
    if isinstance(n, int):
        return [("%s[%d]" % (name, i), req(f(i), g(i))) for i in range(n)]
    return [(name, ALL(0, n, lambda i: req(f(i), g(i))))]


def ite(c, a, b):
    return rite(c, a, b)


def rabs(x):
    return rfn("fabs", x)


def rot(rng):
    """a random rotation matrix as 3 rows"""
    import math
    while True:
        q = [rng.gauss(0, 1) for _ in range(4)]
        n = math.sqrt(sum(x * x for x in q))
        if n > 1e-3:
            break
    w, x, y, z = [c / n for c in q]
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]


def to_full(m):
    r = [0.0] * 9
    for i in range(3):
        for j in range(3):
            r[FI[i][j]] = m[i][j]
    return r


def nmul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
