"""C01: 3x3 tensor algebra"""
from spec import *
import math

PROP = Property("C01", "h_utils.cc", assumptions=[
    "the eigenvalue routine (rational approximation of cos(acos(x)/3)), and the two polar decompositions built on it, "
    "are checked on random inputs only"])
T = PROP.task


def t(name, fn, params, post, **kw):
    T(name, fn, params, post=post, **kw)


A9, B9, R9 = RA("a", 9), RA("b", 9), RA("r", 9, "out")
A6, B6, R6 = RA("a", 6), RA("b", 6), RA("r", 6, "out")


def symeq(name, r, m):
    return [("%s[%d][%d]" % (name, i, j), req(r[SI[i][j]], m[i][j])) for i in range(3) for j in range(3)]


t("AtA", "u_sq_ft_f", [A9, R6], lambda v: symeq("AtA", v.new("r"), mmul(mT(full(v.a)), full(v.a))), what="square of the transpose")
t("AAt", "u_sq_f_ft", [A9, R6], lambda v: symeq("AAt", v.new("r"), mmul(full(v.a), mT(full(v.a)))))
t("scale", "u_mul_sf", [Rl("s"), A9, R9], lambda v: eqmat("sA", full(v.new("r")), mscale(v.s, full(v.a))))
t("scale in place", "u_mul_sf_alias", [Rl("s"), RA("r", 9, "inout")],
  lambda v: eqmat("sA", full(v.new("r")), mscale(v.s, full(v.r))))
t("sum", "u_sum_ff", [A9, B9, R9], lambda v: eqmat("A+B", full(v.new("r")), madd(full(v.a), full(v.b))))
t("sum in place", "u_sum_ff_alias", [RA("r", 9, "inout"), B9],
  lambda v: eqmat("A+B", full(v.new("r")), madd(full(v.r), full(v.b))))
t("sum of symmetric and full", "u_sum_sf", [A6, B9, R9], lambda v: eqmat("S+B", full(v.new("r")), madd(sym(v.a), full(v.b))))
t("product", "u_mul_ff", [A9, B9, R9], lambda v: eqmat("AB", full(v.new("r")), mmul(full(v.a), full(v.b))))
t("symmetric times full", "u_mul_symf", [A6, B9, R9], lambda v: eqmat("SB", full(v.new("r")), mmul(sym(v.a), full(v.b))))
t("scaled product", "u_mul_sff", [Rl("s"), A9, B9, R9],
  lambda v: eqmat("sAB", full(v.new("r")), mscale(v.s, mmul(full(v.a), full(v.b)))))
t("transpose of full times symmetric", "u_mul_fsym_t", [A9, B6, R9],
  lambda v: eqmat("(AS)^T", full(v.new("r")), mT(mmul(full(v.a), sym(v.b)))))
t("rotate", "u_rotate", [A6, B9, R6],
  lambda v: symeq("RtSR", v.new("r"), mmul(mT(full(v.b)), mmul(sym(v.a), full(v.b)))))
t("unrotate", "u_unrotate", [A6, B9, R6],
  lambda v: symeq("RSRt", v.new("r"), mmul(full(v.b), mmul(sym(v.a), mT(full(v.b))))))
t("cross product", "u_cross", [RA("a", 3), RA("b", 3), RA("r", 3, "out")],
  lambda v: eqarr("axb", 3, lambda i: v.new("r")[i],
                  lambda i: v.a[(i + 1) % 3] * v.b[(i + 2) % 3] - v.a[(i + 2) % 3] * v.b[(i + 1) % 3]))
t("determinant", "u_det", [A9], lambda v: [("det", req(v.ret, det3(full(v.a))))], ret="real")


def frob2(m):
    return sum3([m[i][j] * m[i][j] for i in range(3) for j in range(3)])


t("norm of symmetric", "u_norm_sym", [A6],
  lambda v: [("norm^2", req(v.ret * v.ret, frob2(sym(v.a)))), ("norm >= 0", rle(Fr(0), v.ret))], ret="real")
t("norm of full", "u_norm_full", [A9],
  lambda v: [("norm^2", req(v.ret * v.ret, frob2(full(v.a)))), ("norm >= 0", rle(Fr(0), v.ret))], ret="real")
t("zero", "u_zero", [RA("r", 9, "inout")], lambda v: eqarr("0", 9, lambda i: v.new("r")[i], lambda i: Fr(0)))
t("copy full", "u_seteq_full", [A9, R9], lambda v: eqarr("=", 9, lambda i: v.new("r")[i], lambda i: v.a[i]))
t("copy symmetric", "u_seteq_sym", [A6, R6], lambda v: eqarr("=", 6, lambda i: v.new("r")[i], lambda i: v.a[i]))
H = Fr(1, 2)
t("symmetric part", "u_sympart", [A9, R6],
  lambda v: symeq("sym", v.new("r"), mscale(H, madd(full(v.a), mT(full(v.a))))))
t("skew part", "u_skewpart", [A9, R9],
  lambda v: eqmat("skew", full(v.new("r")), mscale(H, msub(full(v.a), mT(full(v.a))))))
def nz(rng):
    return {"a": [rng.uniform(-1, 1) + (2.5 if i < 3 else 0) for i in range(9)]}
def nz_r(rng):
    return {"a": [rng.uniform(-1, 1) + (2.5 if i % 4 == 0 else 0) for i in range(9)]}


for nm, fn, ix, g in [("inverse", "u_invert_full", full, nz), ("inverse of a row-major array", "u_invert3x3", rowm, nz_r)]:
    t(nm, fn, [A9, R9], lambda v, ix=ix:
      eqmat("A inv", mmul(ix(v.a), ix(v.new("r"))), EYE) + eqmat("inv A", mmul(ix(v.new("r")), ix(v.a)), EYE) +
      [("returns the determinant", req(v.ret, det3(ix(v.a))))],
      pre=lambda v, ix=ix: [rlt(Fr(0), det3(ix(v.a)))], ret="real", gen=g)


def bch(x, y):
    c = comm(x, y)
    return madd(madd(madd(x, y), mscale(H, c)),
                madd(mscale(Fr(1, 12), madd(comm(x, c), comm(y, comm(y, x)))), mscale(Fr(-1, 24), comm(y, comm(x, c)))))


t("Baker-Campbell-Hausdorff to 4th order", "u_bch", [A9, B9, R9],
  lambda v: eqmat("bch", full(v.new("r")), bch(full(v.a), full(v.b))), timeout=200)
t("Baker-Campbell-Hausdorff, symmetric first argument", "u_bch_sym", [A6, B9, R9],
  lambda v: eqmat("bch", full(v.new("r")), bch(sym(v.a), full(v.b))), timeout=200)
t("sign transfer", "u_multsign", [Rl("x"), Rl("y")],
  lambda v: [("x*sign(y)", req(v.ret, ite(rlt(v.y, Fr(0)), -v.x, v.x)))], ret="real")
t("minimum", "u_minimum", [Rl("x"), Rl("y")],
  lambda v: [("min", req(v.ret, ite(rlt(v.x, v.y), v.x, v.y)))], ret="real")
for fn in ("u_if_then", "u_if_then_else"):
    t("selection " + fn, fn, [In("b", 0, 2), Rl("x"), Rl("y")],
      lambda v: [("select", req(v.ret, ite(ieq(v.b, 1), v.x, v.y)))], ret="real")
t("selection or zero", "u_if_then_else_zero", [In("b", 0, 2), Rl("x")],
  lambda v: [("select", req(v.ret, ite(ieq(v.b, 1), v.x, Fr(0))))], ret="real")


# rotations -------------------------------------------------------------------
def rot_near(rng):
    return {"a": to_full(rot(rng))}


def is_rot(v):
    m = full(v.a)
    g = [req(x, y) for r1, r2 in zip(mmul(m, mT(m)), EYE) for x, y in zip(r1, r2)]
    return g + [req(det3(m), Fr(1))]


def trace(m):
    return m[0][0] + m[1][1] + m[2][2]


def c_of(v):
    return H * (trace(full(v.a)) - Fr(1))


EPS = Fr(22204460492503131, 10**32) * 10


def logrot(v):
    c = c_of(v)
    th = rfn("acos", c)
    sk = mscale(H, msub(full(v.a), mT(full(v.a))))
    return eqmat("theta/sin(theta) skew", full(v.new("r")), mscale(th / rfn("sin", th), sk))


t("logarithm of a rotation", "u_log_rotation", [A9, R9], logrot,
  pre=lambda v: [rlt(Fr(-999999, 1000000), c_of(v)), rlt(c_of(v), Fr(999999, 1000000)),
                 rlt(Fr(0), rfn("acos", c_of(v)))], gen=rot_near)


# bounded (native random inputs): the approximate spectral routines ---------------
def rnd_def(rng):
    m = nmul(rot(rng), [[rng.uniform(0.6, 1.6) if i == j else rng.uniform(-0.2, 0.2) for j in range(3)] for i in range(3)])
    return {"a": to_full(m)}


def rnd_sym(rng):
    q = rot(rng)
    d = [rng.uniform(0.3, 3) for _ in range(3)]
    m = nmul(nmul(q, [[d[i] if i == j else 0 for j in range(3)] for i in range(3)]), [list(x) for x in zip(*q)])
    return {"a": [m[0][0], m[1][1], m[2][2], m[0][1], m[1][2], m[2][0]]}


def near(name, a, b, tol=1e-6):
    return [("%s[%d][%d]" % (name, i, j), rle(rabs(a[i][j] - b[i][j]), Fr(tol))) for i in range(3) for j in range(3)]


def eig(v):
    m = sym(v.a)
    out = []
    for k in range(3):
        x = [v.new("v")[3 * k + i] for i in range(3)]
        n2 = sum3([y * y for y in x])
        out.append(("eigenvector %d non-zero" % k, rlt(Fr(0), n2)))
        for i in range(3):
            d = sum3([m[i][j] * x[j] for j in range(3)]) - v.new("e")[k] * x[i]
            out.append(("eigenpair %d" % k, rle(d * d, Fr(1e-10) * (n2 + Fr(1e-30)))))
        for k2 in range(k):
            y = [v.new("v")[3 * k2 + i] for i in range(3)]
            d = sum3([x[i] * y[i] for i in range(3)])
            out.append(("orthogonal", rle(d * d, Fr(1e-10) * n2 * sum3([q * q for q in y]))))
    return out


t("eigenpairs of a symmetric tensor", "u_eigen", [A6, RA("e", 3, "out"), RA("v", 9, "out")], eig, gen=rnd_sym, native_only=True,
  max_random=3000)


def polar(v):
    V, R = sym(v.new("s")), full(v.new("q"))
    return near("VR=F", mmul(V, R), full(v.a)) + near("RtR=I", mmul(mT(R), R), EYE)


t("polar decomposition", "u_polar", [A9, RA("s", 6, "out"), RA("q", 9, "out")], polar, gen=rnd_def, native_only=True,
  max_random=3000)


def polar_left(v):
    # the logarithm commutes with V and its trace is log det F
    V, L = sym(v.new("s")), sym(v.new("l"))
    return polar(v) + near("LV=VL", mmul(L, V), mmul(V, L)) + \
        [("tr L = log det F", rle(rabs(trace(L) - rfn("log", det3(full(v.a)))), Fr(1e-6)))]


t("left polar decomposition with logarithm", "u_polar_left",
  [A9, RA("s", 6, "out"), RA("q", 9, "out"), RA("l", 6, "out")], polar_left, gen=rnd_def, native_only=True, max_random=3000)
