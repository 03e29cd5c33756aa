"""C03: deformation gradients"""
from hex import *

PROP = Property("C03", "h_element.cc", ["nimble_element.cc"])


def gen(rng):
    g = gen_tables(rng)
    g["X"], g["x"] = rand_hex(rng, 1.0), rand_hex(rng, 1.0)
    return g


def post(v):
    out = []
    for p in range(8):
        A, B = jac(v.D, v.x, p), jac(v.D, v.X, p)
        F = [[v.new("F")[9 * p + FI[i][j]] for j in range(3)] for i in range(3)]
        out += eqmat("F dX/dxi = dx/dxi at point %d" % p, mmul(F, B), A)
    return out


PROP.task("deformation gradient at the 8 points", "el_defgrad",
          [RA("D", 192), RA("W", 8), RA("X", 24), RA("x", 24), RA("F", 72, "out")], post=post, gen=gen,
          pre=lambda v: [rlt(Fr(0), det3(jac(v.D, v.X, p))) for p in range(8)])
