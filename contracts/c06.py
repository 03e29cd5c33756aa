"""C06: volume and volume averages"""
from hex import *

PROP = Property("C06", "h_element.cc", ["nimble_element.cc"])


def gen(rng):
    g = gen_tables(rng)
    g["W"] = [1.0] * 8
    g["x"] = rand_hex(rng, 1.0)
    return g


PRE = lambda v: [rlt(Fr(0), DET(jac(v.D, v.x, p))) for p in range(8)] + [req(v.W[p], Fr(1)) for p in range(8)]


def vol(v):
    return sum3([DET(jac(v.D, v.x, p)) for p in range(8)])


def post(v):
    out = [("volume", req(v.ret, vol(v)))]
    num = lambda i: sum3([v.q[imul(p, v.nq) + i] * DET(jac(v.D, v.x, p)) for p in range(8)])
    if isinstance(v.nq, int):
        out += [("average %d" % i, req(v.new("ave")[i] * vol(v), num(i))) for i in range(v.nq)]
    else:
        out += [("average of every quantity", ALL(0, v.nq, lambda i: req(v.new("ave")[i], num(i) / vol(v))))]
    return out


PROP.task("volume and volume averages", "el_volave",
          [RA("D", 192), RA("W", 8), In("nq", 0, 60), RA("x", 24), RA("q", lambda v: imul(8, v.nq)), RA("ave", lambda v: v.nq, "out")],
          pre=PRE, post=post, ret="real", gen=gen, contracts=INVERT, conc=[{"nq": k} for k in (0, 1, 2, 6, 9)])
