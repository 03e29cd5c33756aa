"""C05: lumped mass"""
from hex import *

PROP = Property("C05", "h_element.cc", ["nimble_element.cc"])


def gen(rng):
    g = gen_tables(rng)
    g["X"] = rand_hex(rng, 1.0)
    g["rho"] = rng.uniform(0.1, 10)
    return g


def mass(v, i):
    m = Fr(0)
    for p in range(8):
        m = m + v.W[p] * v.rho * v.N[8 * p + i] * sum3([v.N[8 * p + j] for j in range(8)]) * det3(jac(v.D, v.X, p))
    return m


PRE = lambda v: [rlt(Fr(0), det3(jac(v.D, v.X, p))) for p in range(8)]
PAR = [RA("N", 64), RA("D", 192), RA("W", 8), Rl("rho"), RA("X", 24), RA("m", 8, "out")]
for n in range(8):
    PROP.task("mass of node %d is the row sum of the consistent mass" % n, "el_mass", PAR,
              post=lambda v, n=n: [("m", req(v.new("m")[n], mass(v, n)))], pre=PRE, gen=gen, nrandom=20)
