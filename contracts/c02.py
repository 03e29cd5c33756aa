"""C02: shape functions and quadrature of the 8-node brick"""
from hex import *

PROP = Property("C02", "h_element.cc", ["nimble_element.cc"])
T = PROP.task
TOL = Fr(1, 10**12)


def rpts(rng):
    return {"pts": [rng.uniform(-1, 1) for _ in range(24)]}


def values(v):
    out = []
    for p in range(8):
        x = [v.pts[3 * p + d] for d in range(3)]
        out += [("N%d at point %d" % (n, p), req(v.new("vals")[8 * p + n], shape(n, x))) for n in range(8)]
    return out


def derivs(v):
    out = []
    for p in range(8):
        x = [v.pts[3 * p + d] for d in range(3)]
        out += [("dN%d/d%s at point %d" % (n, "rst"[d], p), req(v.new("d")[24 * p + 3 * n + d], dshape(n, d, x)))
                for n in range(8) for d in range(3)]
    return out


T("shape function values", "el_values", [RA("pts", 24), RA("vals", 64, "out")], post=values, gen=rpts)
T("shape function derivatives", "el_derivs", [RA("pts", 24), RA("d", 192, "out")], post=derivs, gen=rpts)


def tables(v):
    out = []
    P = [[v.new("pts")[3 * p + d] for d in range(3)] for p in range(8)]
    # near(): the tables are constants, compared to 1e-12
    near = lambda a, b: rle((a - b) * (a - b), TOL * TOL)
    for p in range(8):
        for d in range(3):
            out.append(("point %d is the Gauss point next to corner %d" % (p, p),
                        band(near(P[p][d] * P[p][d], Fr(1, 3)), rlt(Fr(0), P[p][d] * CORNER[p][d]))))
        out.append(("weight %d" % p, near(v.new("wts")[p], Fr(1))))
        for n in range(8):
            out.append(("stored N%d at point %d" % (n, p), near(v.new("vals")[8 * p + n], shape(n, P[p]))))
            for d in range(3):
                out.append(("stored dN%d/d%s at point %d" % (n, "rst"[d], p),
                            near(v.new("d")[24 * p + 3 * n + d], dshape(n, d, P[p]))))
    # exactness of the rule for tri-cubic monomials
    for a in range(4):
        for b in range(4):
            for c in range(4):
                s = sum3([v.new("wts")[p] * P[p][0] ** a * P[p][1] ** b * P[p][2] ** c for p in range(8)])
                e = Fr(1)
                for k in (a, b, c):
                    e = e * (Fr(0) if k % 2 else Fr(2, k + 1))
                out.append(("integral of r^%d s^%d t^%d" % (a, b, c), near(s, e)))
    return out


T("tables built by the constructor", "el_tables", [RA("pts", 24, "out"), RA("wts", 8, "out"), RA("vals", 64, "out"), RA("d", 192, "out")],
  post=tables)
T("dimension, nodes and points per element", "el_sizes", [IA_("r", 3, "out")],
  post=lambda v: [("%d" % i, ieq(v.new("r")[i], x)) for i, x in enumerate((3, 8, 8))])


def lemma():
    """consequences of the contracts above: partition of unity, interpolation at the corners, linear completeness"""
    x = [rvar("x"), rvar("y"), rvar("z")]
    out = [("partition of unity", (), req(sum3([shape(n, x) for n in range(8)]), Fr(1)))]
    for d in range(3):
        out.append(("derivatives sum to zero", (), req(sum3([dshape(n, d, x) for n in range(8)]), Fr(0))))
        out.append(("linear completeness", (), req(sum3([shape(n, x) * Fr(CORNER[n][d]) for n in range(8)]), x[d])))
        for e in range(3):
            out.append(("gradient of a linear field", (), req(sum3([dshape(n, e, x) * Fr(CORNER[n][d]) for n in range(8)]),
                                                              Fr(1 if d == e else 0))))
    for n in range(8):
        for m in range(8):
            out.append(("N%d at corner %d" % (n, m), (), req(shape(n, [Fr(c) for c in CORNER[m]]), Fr(1 if n == m else 0))))
    return out


T("lemma: partition of unity and completeness", None, [], lemma=lemma)
