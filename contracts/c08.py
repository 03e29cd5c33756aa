"""C08: linear elastic stress"""
from mat import *

PROP = Property("C08", "h_material.cc", ["nimble_material.cc"])


def post(v):
    def body(p, k):
        i, j = SYM_PAIRS[k]
        F = fmat(v, p)
        eps = [[(F[a][b] + F[b][a]) / 2 - (1 if a == b else 0) for b in range(3)] for a in range(3)]
        tr = sum3([eps[a][a] for a in range(3)])
        s = 2 * v.mu * (eps[i][j] - (tr / 3 if i == j else 0))
        if i == j:
            s = s + v.K * tr
        return req(v.new("S")[imul(6, p) + k], s)
    return [("sigma[%d]" % k, ALL(0, v.n, lambda p, k=k: body(p, k))) for k in range(6)]


PROP.task("stress = K tr(eps) I + 2 mu dev(eps) at every point", "m_el_stress", PAR, post=post, gen=gen_f, conc=CONC)
PROP.task("moduli, density and state variables are those given", "m_el_props", [Rl("K"), Rl("mu"), Rl("rho"), RA("r", 4, "out")],
          post=lambda v: [("bulk", req(v.new("r")[0], v.K)), ("shear", req(v.new("r")[1], v.mu)), ("density", req(v.new("r")[2], v.rho)),
                          ("states", req(v.new("r")[3], Fr(0)))])
