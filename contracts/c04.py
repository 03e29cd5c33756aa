"""C04: internal nodal forces"""
from hex import *

PROP = Property("C04", "h_element.cc", ["nimble_element.cc"])


def gen(rng):
    g = gen_tables(rng)
    g["x"] = rand_hex(rng, 1.0)
    return g


def sig(v, p):
    return [[v.S[6 * p + SI[i][j]] for j in range(3)] for i in range(3)]


def force(v, n):
    """f_n = - sum_p w_p sigma_p det(J_p) J_p^-T dN_n"""
    f = [Fr(0)] * 3
    for p in range(8):
        J = jac(v.D, v.x, p)
        G = INV(J)
        g = [DET(J) * sum3([v.D[24 * p + 3 * n + j] * G[j][k] for j in range(3)]) for k in range(3)]
        s = sig(v, p)
        for i in range(3):
            f[i] = f[i] - v.W[p] * sum3([s[i][k] * g[k] for k in range(3)])
    return f


PRE = lambda v: [rlt(Fr(0), DET(jac(v.D, v.x, p))) for p in range(8)]
PAR = [RA("D", 192), RA("W", 8), RA("x", 24), RA("S", 48), RA("f", 24, "out")]
for n in range(8):
    PROP.task("force at node %d is minus the integral of B^T sigma" % n, "el_force", PAR,
              post=lambda v, n=n: [("f[%d]" % i, req(v.new("f")[3 * n + i], force(v, n)[i])) for i in range(3)], pre=PRE, gen=gen, contracts=INVERT,
              nrandom=20, max_random=400)




def lemma():
    """the resultant force vanishes when the shape-function derivatives sum to zero (per point)"""
    out = []
    p = 0
    D = [[rvar("d%d_%d" % (n, k)) for k in range(3)] for n in range(8)]
    for k in range(3):
        D[7][k] = -sum3([D[n][k] for n in range(7)])
    J = [[rvar("J%d%d" % (i, j)) for j in range(3)] for i in range(3)]
    s = [[rvar("s%d%d" % (min(i, j), max(i, j))) for j in range(3)] for i in range(3)]
    C = cof(J)

    def f(n, i):
        g = [sum3([C[k][j] * D[n][j] for j in range(3)]) for k in range(3)]
        return sum3([s[i][k] * g[k] for k in range(3)])
    for i in range(3):
        out.append(("resultant force %d" % i, (), req(sum3([f(n, i) for n in range(8)]), Fr(0))))
    # moments: sum_n x_n cross f_n = 0 with J = sum x_n dN_n
    X = [[rvar("x%d_%d" % (n, k)) for k in range(3)] for n in range(8)]
    J2 = [[sum3([X[n][i] * D[n][j] for n in range(8)]) for j in range(3)] for i in range(3)]
    # sum_n x_n (x) f_n = s cof(J) J^T-type product = det(J) s, hence symmetric
    for a in range(3):
        for b in range(a):
            la = sum3([sum3([J[a][j] * C[k][j] for j in range(3)]) * s[b][k] for k in range(3)])
            lb = sum3([sum3([J[b][j] * C[k][j] for j in range(3)]) * s[a][k] for k in range(3)])
            out.append(("resultant moment", (), req(la, lb)))
    return out


PROP.task("lemma: forces and moments of one element balance", None, [], lemma=lemma)
