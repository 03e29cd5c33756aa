"""C07: characteristic length of a hexahedral element"""
from blk import *
import sys
import terms as _t

PROP = Property("C07", ["h_element.cc", "h_block.cc"], ["nimble_element.cc", "nimble_data_utils.cc", "nimble_linear_solver.cc"])


def gen(rng):
    x = rand_hex(rng)
    s = [rng.choice([0, -20, 20]) for _ in range(3)]
    if rng.random() < 0.3:
        k = rng.randrange(3)
        x = [a * (0.05 if i % 3 == k else 1) for i, a in enumerate(x)]
    return {"x": [a + s[i % 3] for i, a in enumerate(x)]}


MAXDBL = Fr(sys.float_info.max)


def post(v):
    d2 = [sum3([(v.x[3 * a + k] - v.x[3 * b + k]) * (v.x[3 * a + k] - v.x[3 * b + k]) for k in range(3)])
          for a in range(8) for b in range(a)]
    box = [rmax(*[v.x[3 * n + k] for n in range(8)]) - rmin(*[v.x[3 * n + k] for n in range(8)]) for k in range(3)]
    return [("smallest nodal distance or extent", req(v.ret, rmin(rsqrt(rmin(MAXDBL, *d2)), *box)))]


PROP.task("characteristic length", "el_charlen", [RA("x", 24)], post=post, ret="real", gen=gen,
          pre=lambda v: [band(rlt(-MAXDBL, v.x[i]), rlt(v.x[i], MAXDBL)) for i in range(24)], timeout=120)


def post_dt(v):
    e = fresh("e")
    c = rsqrt(v.K / v.rho)
    body = rfn("el_len", *coords(v, iatom(e), v.X, v.u)) / c
    return [("minimum over the elements of length over sound speed", req(v.ret, _t.mk_minover("min", e, v.ne, body, MAXDBL)))]


PROP.task("block critical time step", "b_dt", [Rl("K"), Rl("rho")] + MESH + [RA("u", lambda v: imul(3, v.nn)), CONN], post=post_dt, ret="real", gen=gen_mesh,
          pre=lambda v: [rlt(Fr(0), v.K), rlt(Fr(0), v.rho)], contracts=ELEM, conc=CONC)
