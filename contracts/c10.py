"""C10: material tangents"""
from mat import *

PROP = Property("C10", "h_material.cc", ["nimble_material.cc"])
PAR = [Rl("K"), Rl("mu"), Rl("rho"), In("n", 0, NMAX), RA("C", lambda v: imul(36, v.n), "out")]


def cij(v, a, b):
    lam = v.K - 2 * v.mu / 3
    if a < 3 and b < 3:
        return lam + 2 * v.mu if a == b else lam
    return v.mu if a == b else Fr(0)


for fn, nm in (("m_el_tangent", "elastic"), ("m_nh_tangent", "neo-Hookean")):
    PROP.task("%s tangent is the isotropic stiffness" % nm, fn, PAR,
              post=lambda v: [("C[%d][%d]" % (a, b), ALL(0, v.n, lambda p, a=a, b=b: req(v.new("C")[imul(36, p) + (6 * a + b)], cij(v, a, b))))
                              for a in range(6) for b in range(6)], conc=[{"n": k} for k in (0, 1, 2, 8)])


def lemma():
    """C applied to a strain (engineering shears) is the elastic stress"""
    K, mu = rvar("K"), rvar("mu")

    class Vw:
        pass
    v = Vw()
    v.K, v.mu = K, mu
    e = [rvar("e%d" % i) for i in range(6)]
    tr = e[0] + e[1] + e[2]
    out = []
    for a in range(6):
        s = sum3([cij(v, a, b) * (e[b] if b < 3 else 2 * e[b]) for b in range(6)])
        w = 2 * mu * (e[a] - (tr / 3 if a < 3 else 0))
        if a < 3:
            w = w + K * tr
        out.append(("tangent times strain is the elastic stress", (), req(s, w)))
    return out


PROP.task("lemma: tangent times strain is the elastic stress", None, [], lemma=lemma)
