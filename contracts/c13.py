"""C13: the tangent stiffness matrix is the sum of the element tangents"""
from blk import *
from lin import find_contract, gen_crs_of, FIRST
import lin

PROP = Property("C13", "h_block.cc", ["nimble_element.cc", "nimble_data_utils.cc", "nimble_linear_solver.cc"])
TAN = [((i * 7 + i // 36) % 11 - 4) for i in range(288)]


@memo
def n_tangent(*a):
    x, C = a[:24], a[24:]
    K = [0.0] * 576
    for p in range(8):
        f = _flat(_n_jac(x, p))
        d = _ndet(*f)
        inv = [[_ninv(i, j)(*f) for j in range(3)] for i in range(3)]
        B = [[0.0] * 24 for _ in range(6)]
        for n in range(8):
            g = [sum(F_D[24 * p + 3 * n + j] * inv[j][k] for j in range(3)) for k in range(3)]
            B[0][3 * n] = B[3][3 * n + 1] = B[5][3 * n + 2] = g[0]
            B[1][3 * n + 1] = B[3][3 * n] = B[4][3 * n + 2] = g[1]
            B[2][3 * n + 2] = B[4][3 * n + 1] = B[5][3 * n] = g[2]
        c = C[36 * p:36 * p + 36]
        CB = [[sum(c[6 * r + s] * B[s][j] for s in range(6)) for j in range(24)] for r in range(6)]
        for i in range(24):
            for j in range(24):
                K[24 * i + j] += d * sum(B[r][i] * CB[r][j] for r in range(6))
    return K


from blk import _flat, _n_jac, _ndet, _ninv, _t, _pick
_t.FN["el_in"] = lambda *a: a
for _k in range(576):
    _t.FN["el_K%d" % _k] = (lambda k: lambda a: n_tangent(*a)[k])(_k)


def c_tangent(ex, st, a):
    """element tangent: a function of the current coordinates and the material tangent"""
    x, C = rd(ex, st, a[1], 24, "ComputeTangent"), rd(ex, st, a[2], 288, "ComputeTangent")
    h = rfn("el_in", *(x + C))
    wr(ex, st, a[3], [rfn("el_K%d" % k, h) for k in range(576)])


def post(v):
    def one(e, k):
        x = coords(v, e, v.X, v.u)
        h = rfn("el_in", *(x + [v.K * Fr(c) for c in TAN]))
        g = [v.gid[node(v, e, a)] for a in range(8)]
        t = []
        for a in range(8):
            for i in range(3):
                for b in range(8):
                    for j in range(3):
                        t.append(ite(ieq(ifn("pos", iadd(imul(3, g[a]), i), iadd(imul(3, g[b]), j)), k), rfn("el_K%d" % (24 * (3 * a + i) + 3 * b + j), h), Fr(0)))
        return sum3(t)
    return [("entry = sum of the element tangents at its pair of unknowns",
             ALL(0, v.nnz, lambda k: req(v.new("a")[k], v.a[k] + SUM(v.ne, lambda e: one(e, k)))))]


def gen(rng):
    while True:
        nn, ne, X, conn = rand_mesh(rng, 2)
        ng = nn - rng.randrange(0, 2)
        gid = list(range(nn))
        rng.shuffle(gid)
        gid = [min(g, ng - 1) for g in gid]
        nr = 3 * ng
        pairs = {(r, r) for r in range(nr)}
        for e in range(ne):
            g = [gid[c] for c in conn[8 * e:8 * e + 8]]
            pairs |= {(3 * a + i, 3 * b + j) for a in g for b in g for i in range(3) for j in range(3)}
        out = {"nn": nn, "ne": ne, "X": X, "conn": conn, "gid": gid, "u": [rng.uniform(-.05, .05) for _ in X], "K": rng.uniform(.5, 5)}
        out.update(gen_crs_of(nr, pairs, rng))
        return out


PROP.task("tangent stiffness assembly", "b_tangent", [Rl("K")] + MESH + [RA("u", lambda v: imul(3, v.nn)), CONN, IA_("gid", lambda v: v.nn, lo=0, hi=lambda v: v.nn),
          lin.NR, lin.NNZ, lin.II, lin.JJ, lin.FIRST, lin.AIO], npre=lambda v: [valid(v, v.X, v.u)] + lin.wf(v), post=post, gen=gen,
          contracts=[(r"HexElement::ComputeTangent\(double const\*", c_tangent), find_contract], conc=CONC, timeout=300, nrandom=10, max_random=60)
