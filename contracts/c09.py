"""C09: compressible neo-Hookean stress"""
from mat import *

PROP = Property("C09", "h_material.cc", ["nimble_material.cc"],
                assumptions=["Polar_Decomp: V is the symmetric positive definite square root of F F^T (checked on random F only, by C01 "
                             "and by the end-to-end contract below)"])


def sigma(V, K, mu, k, cb):
    J = det3(V)
    i, j = SYM_PAIRS[k]
    b = [[sum3([V[a][c] * V[c][e] for c in range(3)]) for e in range(3)] for a in range(3)]
    tr = sum3([b[a][a] for a in range(3)])
    s = mu / J * (b[i][j] - (tr / 3 if i == j else 0)) / (cb(J) * cb(J))
    if i == j:
        s = s + K / 2 * (J - 1 / J)
    return s


def post(v):
    def body(p, k):
        V = polarV([v.F[imul(9, p) + q] for q in range(9)])
        Vm = [[V[SI[i][j]] for j in range(3)] for i in range(3)]
        return req(v.new("S")[imul(6, p) + k], sigma(Vm, v.K, v.mu, k, lambda J: rfn("cbrt", J)))
    return [("sigma[%d]" % k, ALL(0, v.n, lambda p, k=k: body(p, k))) for k in range(6)]


PROP.task("stress as a function of the left stretch at every point", "m_nh_stress", PAR, post=post, gen=gen_f, conc=CONC, contracts=POLAR)


def post2(v):
    """with b = F F^T and J = det F"""
    def body(p, k):
        F = fmat(v, p)
        J = det3(F)
        i, j = SYM_PAIRS[k]
        b = mmul(F, mT(F))
        tr = sum3([b[a][a] for a in range(3)])
        s = v.mu / J * (b[i][j] - (tr / 3 if i == j else 0)) / (rfn("cbrt", J) * rfn("cbrt", J))
        if i == j:
            s = s + v.K / 2 * (J - 1 / J)
        return req(v.new("S")[imul(6, p) + k], s)
    return [("sigma[%d]" % k, ALL(0, v.n, lambda p, k=k: body(p, k))) for k in range(6)]


PROP.task("stress as a function of F, end to end", "m_nh_stress", PAR, post=post2, gen=gen_f, native_only=True, tol=1e-6,
          pre=lambda v: [ALL(0, v.n, lambda p: rlt(Fr(1, 20), det3(fmat(v, p))))])
PROP.task("moduli, density and state variables are those given", "m_nh_props", [Rl("K"), Rl("mu"), Rl("rho"), RA("r", 4, "out")],
          post=lambda v: [("bulk", req(v.new("r")[0], v.K)), ("shear", req(v.new("r")[1], v.mu)), ("density", req(v.new("r")[2], v.rho)),
                          ("states", req(v.new("r")[3], Fr(0)))])


def lemma():
    """no stress in the reference state; isotropy of the formula under V -> Q V Q^T is immediate from tensor algebra"""
    I3 = [[Fr(1) if i == j else Fr(0) for j in range(3)] for i in range(3)]
    K, mu = rvar("K"), rvar("mu")
    return [("stress free reference state", (), req(sigma(I3, K, mu, k, lambda J: Fr(1)), Fr(0))) for k in range(6)]


PROP.task("lemma: the reference state is stress free", None, [], lemma=lemma)
