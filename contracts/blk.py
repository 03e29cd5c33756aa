"""contracts of the element routines, as used by their callers (discharged in C03..C07, C11)"""
from hex import *
import terms as _t

NMAX = 1 << 20


def _n_jac(x, p):
    return [[sum(x[3 * n + i] * F_D[24 * p + 3 * n + j] for n in range(8)) for j in range(3)] for i in range(3)]


def _flat(m):
    return [m[i][j] for i in range(3) for j in range(3)]


_memo = {}


def memo(f):
    nm = f.__name__

    def g(*a):
        k = (nm, a)
        if k not in _memo:
            if len(_memo) > 20000:
                _memo.clear()
            _memo[k] = f(*a)
        return _memo[k]
    return g


@memo
def n_mass(rho, *x):
    out = []
    for n in range(8):
        s = 0.0
        for p in range(8):
            d = _ndet(*_flat(_n_jac(x, p)))
            s += F_N[8 * p + n] * sum(F_N[8 * p + m] for m in range(8)) * d * rho
        out.append(s)
    return out


@memo
def n_charlen(*x):
    import math
    pts = [x[3 * i:3 * i + 3] for i in range(8)]
    d = min(math.dist(a, b) for i, a in enumerate(pts) for b in pts[:i])
    return min([d] + [max(p[k] for p in pts) - min(p[k] for p in pts) for k in range(3)])


@memo
def n_defgrad(*Xx):
    X, x = Xx[:24], Xx[24:]
    out = [0.0] * 72
    for p in range(8):
        a = _flat(_n_jac(X, p))
        inv = [[_ninv(i, j)(*a) for j in range(3)] for i in range(3)]
        b = _n_jac(x, p)
        m = nmul(b, inv)
        for i in range(3):
            for j in range(3):
                out[9 * p + FI[i][j]] = m[i][j]
    return out


@memo
def n_force(*a):
    x, S = a[:24], a[24:]
    out = [0.0] * 24
    for p in range(8):
        J = _n_jac(x, p)
        f = _flat(J)
        d = _ndet(*f)
        inv = [[_ninv(i, j)(*f) for j in range(3)] for i in range(3)]
        for n in range(8):
            g = [sum(F_D[24 * p + 3 * n + j] * inv[j][k] for j in range(3)) for k in range(3)]
            for i in range(3):
                out[3 * n + i] -= d * sum(S[6 * p + SI[i][k]] * g[k] for k in range(3))
    return out


from hex import _ninv, _ndet


def _pick(f, k):
    return lambda *a: f(*a)[k]


for _k in range(8):
    _t.FN["el_mass%d" % _k] = _pick(n_mass, _k)
for _k in range(72):
    _t.FN["el_F%d" % _k] = _pick(n_defgrad, _k)
for _k in range(24):
    _t.FN["el_f%d" % _k] = _pick(n_force, _k)
_t.FN["el_len"] = n_charlen


def rd(ex, st, p, n, what):
    out = [ex.load(st, Ptr(p.obj, iadd(p.off, 8 * i)), DBL) for i in range(n)]
    if any(x is UNDEF for x in out):
        raise Fail(what + ": reads uninitialised values")
    return out


def wr(ex, st, p, vals):
    for i, x in enumerate(vals):
        ex.store(st, Ptr(p.obj, iadd(p.off, 8 * i)), x, DBL)


def c_mass(ex, st, a):
    x = rd(ex, st, a[2], 24, "ComputeLumpedMass")
    wr(ex, st, a[3], [rfn("el_mass%d" % n, a[1], *x) for n in range(8)])


def c_len(ex, st, a):
    return rfn("el_len", *rd(ex, st, a[1], 24, "ComputeCharacteristicLength"))


def c_defgrad(ex, st, a):
    X, x = rd(ex, st, a[1], 24, "ComputeDeformationGradients"), rd(ex, st, a[2], 24, "ComputeDeformationGradients")
    wr(ex, st, a[3], [rfn("el_F%d" % k, *(X + x)) for k in range(72)])


def c_force(ex, st, a):
    x, S = rd(ex, st, a[1], 24, "ComputeNodalForces"), rd(ex, st, a[2], 48, "ComputeNodalForces")
    wr(ex, st, a[3], [rfn("el_f%d" % k, *(x + S)) for k in range(24)])


ELEM = [(r"HexElement::ComputeLumpedMass\(double, double const\*", c_mass),
        (r"HexElement::ComputeCharacteristicLength\(", c_len),
        (r"HexElement::ComputeDeformationGradients\(double const\*", c_defgrad),
        (r"HexElement::ComputeNodalForces\(double const\*", c_force)]


def gcoef(k, i):
    return ((k * 7 + i * 13 + (k + 1) * (i + 2) % 5) % 17 - 8) / 8.0


def _nmat(k):
    return lambda *a: sum(gcoef(k, i) * a[i] for i in range(30))


for _k in range(8):
    _t.FN["mat%d" % _k] = _nmat(_k)


def c_mat(ex, st, a):
    return rfn("mat%d" % a[0], *rd(ex, st, a[1], 30, "material"))


MATERIAL = [(r"^vf_mat$", c_mat)]


# ---- random meshes: a row of distorted bricks sharing faces, shuffled node numbers
def rand_mesh(rng, nemax=4):
    ne = rng.randrange(0, nemax + 1)
    nn = 4 * (ne + 1) + rng.randrange(0, 3)
    ids = list(range(nn))
    rng.shuffle(ids)
    X = [0.0] * (3 * nn)
    for l in range(ne + 1):
        for c in range(4):
            b = CORNER[c]
            for k in range(3):
                X[3 * ids[4 * l + c] + k] = (0.5 * b[k] if k < 2 else float(l)) + rng.uniform(-.1, .1)
    conn = []
    for e in range(ne):
        conn += [ids[4 * e + c] for c in range(4)] + [ids[4 * (e + 1) + c] for c in range(4)]
    return nn, ne, X, conn


def gen_mesh(rng):
    nn, ne, X, conn = rand_mesh(rng)
    return {"nn": nn, "ne": ne, "X": X, "conn": conn, "u": [rng.uniform(-.05, .05) for _ in X], "K": rng.uniform(.5, 5), "rho": rng.uniform(.5, 3)}


def node(v, e, a):
    return v.conn[iadd(imul(8, e), a)]


def coords(v, e, *arrs):
    out = []
    for a in range(8):
        for k in range(3):
            i = iadd(imul(3, node(v, e, a)), k)
            out.append(sum3([z[i] for z in arrs]))
    return out


MESH = [In("nn", 1, NMAX), In("ne", 0, NMAX), RA("X", lambda v: imul(3, v.nn))]
CONN = IA_("conn", lambda v: imul(8, v.ne), lo=0, hi=lambda v: v.nn)
CONC = [{"ne": k} for k in (0, 1, 2)]


@memo
def n_valid(*x):
    return min(_ndet(*_flat(_n_jac(x, p))) for p in range(8)) - 1e-3


_t.FN["el_valid"] = n_valid


def valid(v, *arrs):
    """no element is inverted (needed by the element routines; only matters for replayed inputs)"""
    return ALL(0, v.ne, lambda e: rlt(Fr(0), rfn("el_valid", *coords(v, e, *arrs))))
