"""C11: element tangent stiffness"""
from hex import *

PROP = Property("C11", "h_element.cc", ["nimble_element.cc"])


def gen(rng):
    g = gen_tables(rng)
    g["x"] = rand_hex(rng, 1.0)
    return g


# strain components per node: rows of B_n (engineering shears, order xx yy zz xy yz zx)
def bmat(g):
    z = Fr(0)
    return [[g[0], z, z], [z, g[1], z], [z, z, g[2]], [g[1], g[0], z], [z, g[2], g[1]], [g[2], z, g[0]]]


def stiff(v, n, i, cache={}):
    """row (node n, direction i): sum_p w_p det(J_p) B_n^T C_p B_m"""
    key = id(v)
    if key not in cache:
        cache.clear()
        cache[key] = []
        for p in range(8):
            J = jac(v.D, v.x, p)
            G = INV(J)
            B = [bmat([sum3([v.D[24 * p + 3 * m + j] * G[j][k] for j in range(3)]) for k in range(3)]) for m in range(8)]
            cache[key].append((v.W[p] * DET(J), B))
    out = {}
    for m in range(8):
        for j in range(3):
            s = Fr(0)
            for p in range(8):
                w, B = cache[key][p]
                for a in range(6):
                    if B[n][a][i] == Fr(0):
                        continue
                    for b in range(6):
                        if B[m][b][j] == Fr(0):
                            continue
                        s = s + w * B[n][a][i] * v.C[36 * p + 6 * a + b] * B[m][b][j]
            out[(m, j)] = s
    return out


PRE = lambda v: [rlt(Fr(0), DET(jac(v.D, v.x, p))) for p in range(8)]
PAR = [RA("D", 192), RA("W", 8), RA("x", 24), RA("C", 288), RA("K", 576, "out")]
for n in range(8):
    def post(v, n=n):
        out = []
        for i in range(3):
            s = stiff(v, n, i)
            out += [("K[%d][%d]" % (3 * n + i, 3 * m + j), req(v.new("K")[24 * (3 * n + i) + 3 * m + j], s[(m, j)])) for m in range(8) for j in range(3)]
        return out
    PROP.task("rows of node %d: integral of B^T C B" % n, "el_tangent", PAR, post=post, pre=PRE, gen=gen, contracts=INVERT, nrandom=4,
              max_random=100, timeout=300)


def lemma():
    """a symmetric material tangent gives a symmetric element tangent; rigid translations give no force"""
    g = [[rvar("g%d%d" % (n, k)) for k in range(3)] for n in range(8)]
    for k in range(3):
        g[7][k] = -sum3([g[n][k] for n in range(7)])
    C = [[rvar("C%d%d" % (min(a, b), max(a, b))) for b in range(6)] for a in range(6)]
    B = [bmat(x) for x in g]
    k = lambda n, i, m, j: sum3([B[n][a][i] * C[a][b] * B[m][b][j] for a in range(6) for b in range(6)])
    out = [("symmetric", (), req(k(0, i, 1, j), k(1, j, 0, i))) for i in range(3) for j in range(3)]
    out += [("translation", (), req(sum3([k(0, i, m, j) for m in range(8)]), Fr(0))) for i in range(3) for j in range(3)]
    return out


PROP.task("lemma: symmetry and rigid translations", None, [], lemma=lemma)
