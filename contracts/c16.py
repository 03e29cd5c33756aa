"""C16: boundary and initial conditions prescribe exactly their nodes, component and value"""
from lin import *
import hoare
from sym import Ptr
from loops import Give
import terms as _t

PROP = Property("C16", "h_bc.cc")
UNDEF_, INIT, VEL, DISP, TRAC = 0, 1, 2, 3, 4
EXPLICIT, QUASI = 0, 1
_t.FN["bcx"] = lambda x, y, z, t: 1.5 * x - 0.25 * y + z * t + 0.125 * t


class DBL:
    kind, bits, store = "float", 64, 8


def c_eval(ex, st, a):
    """a condition's expression is a function of position and time (see C18)"""
    return rfn("bcx", *[ex.load(st, Ptr(a[0].obj, iadd(a[0].off, 8 * i)), DBL) for i in range(4)])


EVAL = (r"BoundaryConditionFunctor::eval\(", c_eval)


def mags(v, t, mag=None, w="w", s="set"):
    """prescribed value of the node that unknown i belongs to"""
    def m(i):
        n = getattr(v, s)[getattr(v, w)[i]]
        x = [v.X[iadd(imul(v.dim, n), k)] for k in range(v.dim)] + [Fr(0)] * (3 - v.dim)
        return ite(ieq(v.expr, 0), v.mag, rfn("bcx", *(x + [t])))
    return m


def kin(v, type_, m, u, vel):
    """the condition's effect on one prescribed unknown: (new displacement, new velocity)"""
    dt = v.t1 - v.t0
    q = ieq(v.scheme, QUASI)
    isv, isd = ieq(type_, VEL), band(ieq(type_, DISP), rlt(Fr(0), dt))
    return ((lambda i: ite(isv, ite(q, u(i) + m(i) * dt, u(i)), ite(band(isd, q), m(i), u(i)))),
            (lambda i: ite(isv, m(i), ite(isd, (m(i) - u(i)) / dt, vel(i)))))


def within(v, w, k, f, g):
    return lambda i: ite(ilt(w[i], k), f(i), g(i))


def ghost(v, w="w", s="set", m="m", c="coord"):
    """w[i] = the position in the node set of the node with prescribed unknown i, m if there is none"""
    W, S_, M, C = [getattr(v, x) for x in (w, s, m, c)]
    return [ALL(0, M, lambda k: ieq(W[iadd(imul(v.dim, S_[k]), C)], k)),
            ALL(0, imul(v.dim, v.nn), lambda i: bor(ieq(W[i], M), band(ilt(W[i], M), ieq(iadd(imul(v.dim, S_[W[i]]), C), i))))]


def inv(env, f, names):
    v = env.v
    yield ("assert", "position in the node set", lambda s: ile(s("k"), v.m))
    for a in env.arrs:
        nm = env.objname(a)
        if nm in names:
            g = f(nm)
            yield ("define", nm, a, lambda s, g=g, nm=nm: within(v, v.w, s("k"), g, lambda i: getattr(v, nm)[i]))


def kin_inv(env):
    v = env.v
    u, vel = kin(v, v.type, mags(v, v.t1), lambda i: v.u[i], lambda i: v.vel[i])
    return inv(env, lambda nm: u if nm == "u" else vel, ("u", "vel"))


def post_kin(v):
    u, vel = kin(v, v.type, mags(v, v.t1), lambda i: v.u[i], lambda i: v.vel[i])
    n = imul(v.dim, v.nn)
    return [("displacement", ALL(0, n, lambda i: req(v.new("u")[i], within(v, v.w, v.m, u, lambda j: v.u[j])(i)))),
            ("velocity", ALL(0, n, lambda i: req(v.new("vel")[i], within(v, v.w, v.m, vel, lambda j: v.vel[j])(i))))]


def NSET(s="set", m="m"):
    return [In(m, 0, NMAX), IA_(s, lambda v: getattr(v, m), lo=0, hi=lambda v: v.nn)]


def W(w="w", m="m"):
    return IA_(w, lambda v: imul(v.dim, v.nn), lo=0, hi=lambda v: iadd(getattr(v, m), 1))


def field(nm, io="in"):
    return RA(nm, lambda v: imul(v.dim, v.nn), io)


NN = In("nn", 1, NMAX)
COMMON = lambda dim, type_=None, expr=None: [K("dim", dim), In("scheme", 0, 3), In("type", 0, 4) if type_ is None else K("type", type_), In("coord", 0, dim),
                                             In("expr", 0, 2) if expr is None else K("expr", expr), Rl("mag")]


def gen_dim(dim, type_=None, expr=None, two=False):
    def gen(rng):
        nn = rng.randrange(1, 7)
        g = {"dim": dim, "nn": nn, "scheme": rng.randrange(3), "type": rng.randrange(4), "coord": rng.randrange(dim), "expr": rng.randrange(2),
             "mag": rng.uniform(-2, 2), "t0": rng.choice([0.0, .5, 1.25])}
        if type_ is not None:
            g["type"] = type_
        if expr is not None:
            g["expr"] = expr
        g["t1"] = g["t0"] + rng.choice([0.0, .25, .5, -.25])
        for f in ("X", "u", "vel"):
            g[f] = [rng.uniform(-2, 2) for _ in range(dim * nn)]

        def nodes(set_, m, w, coord):
            l = list(range(nn))
            rng.shuffle(l)
            l = l[:rng.randrange(0, nn + 1)]
            g[m], g[set_] = len(l), l
            g[w] = [len(l)] * (dim * nn)
            for k, n in enumerate(l):
                g[w][dim * n + coord] = k
        nodes("set", "m", "w", g["coord"])
        if two:
            g.update(c2=rng.randrange(dim), mag2=rng.uniform(-2, 2), type2=rng.randrange(4))
            nodes("set2", "m2", "w2", g["c2"])
        return g
    return gen


def kin_task(dim, type_, expr, what):
    PROP.task("%s, %d dimensions" % (what, dim), "bc_kin", COMMON(dim, type_, expr) + [Rl("t1"), Rl("t0"), NN, field("X"), field("u", "inout"), field("vel", "inout")] + NSET() + [W()],
              pre=ghost, post=post_kin, gen=gen_dim(dim, type_, expr), contracts=[EVAL], invariants=[("ApplyKinematicBC", hoare.invariant(kin_inv, only=1))], tol=1e-6)


def init_of(v):
    m = mags(v, Fr(0))
    return lambda i: ite(ieq(v.type, INIT), m(i), v.vel[i])


def post_init(v):
    return [("velocity", ALL(0, imul(v.dim, v.nn), lambda i: req(v.new("vel")[i], within(v, v.w, v.m, init_of(v), lambda j: v.vel[j])(i))))]


def init_task(dim, type_, expr, what):
    PROP.task("%s, %d dimensions" % (what, dim), "bc_init", COMMON(dim, type_, expr) + [NN, field("X"), field("vel", "inout")] + NSET() + [W()],
              pre=ghost, post=post_init, gen=gen_dim(dim, type_, expr), contracts=[EVAL],
              invariants=[("ApplyInitialConditions", hoare.invariant(lambda env: inv(env, lambda nm: init_of(env.v), ("vel",)), only=1))])


for dim in (3, 2):
    for e, how in ((0, "constant"), (1, "expression")):
        kin_task(dim, VEL, e, "prescribed velocity (%s)" % how)
        kin_task(dim, DISP, e, "prescribed displacement (%s)" % how)
        init_task(dim, INIT, e, "initial velocity (%s)" % how)
    kin_task(dim, INIT, None, "initial velocity is not kinematic")
    init_task(dim, VEL, None, "prescribed velocity is not initial")
    init_task(dim, DISP, None, "prescribed displacement is not initial")


# ---- the linear system: no right-hand side and a diagonal row and column for prescribed unknowns
NG = In("ng", 1, NMAX)
GID = IA_("gid", lambda v: v.nn, lo=0, hi=lambda v: v.ng)


def unknown(v, k):
    return iadd(imul(v.dim, v.gid[v.set[k]]), v.coord)


def first_w(v):
    """w[q] = the first position in the node set whose unknown is q, m if there is none"""
    return [ALL(0, v.m, lambda k: ile(v.w[unknown(v, k)], k)),
            ALL(0, imul(v.dim, v.ng), lambda q: bor(ieq(v.w[q], v.m), band(ilt(v.w[q], v.m), ieq(unknown(v, v.w[q]), q))))]


WG = IA_("w", lambda v: imul(v.dim, v.ng), lo=0, hi=lambda v: iadd(v.m, 1))


def rhs_inv(env):
    v = env.v
    yield ("assert", "position in the node set", lambda s: ile(s("k"), v.m))
    for a in env.arrs:
        if env.objname(a) == "rhs":
            yield ("define", "entries", a, lambda s: within(v, v.w, s("k"), lambda q: Fr(0), lambda q: v.rhs[q]))


def kinematic(type_):
    return bor(ieq(type_, VEL), ieq(type_, DISP))


def gen_sys(dim, type_):
    def gen(rng):
        nn, ng, coord = rng.randrange(1, 6), rng.randrange(1, 4), rng.randrange(dim)
        m = rng.randrange(0, nn + 1)
        g = {"dim": dim, "nn": nn, "ng": ng, "coord": coord, "type": rng.randrange(4) if type_ is None else type_, "m": m, "gid": [rng.randrange(ng) for _ in range(nn)],
             "set": [rng.randrange(nn) for _ in range(m)], "rhs": [rng.uniform(-2, 2) for _ in range(dim * ng)], "diag": rng.uniform(1, 2)}
        g["w"] = [m] * (dim * ng)
        for k in reversed(range(m)):
            g["w"][dim * g["gid"][g["set"][k]] + coord] = k
        if dim == 3:
            nr = 3 * ng
            g.update(gen_crs_of(nr, {(r, c) for r in range(nr) for c in range(nr) if r == c or rng.random() < .4}, rng))
            g["dp"] = [next(k for k in range(g["nnz"]) if g["ii"][k] == r and g["jj"][k] == r) for r in range(nr)]
        return g
    return gen


for type_, what in ((VEL, "prescribed velocity"), (DISP, "prescribed displacement"), (INIT, "initial velocity")):
    PROP.task("right-hand side, %s" % what, "bc_rhs", [In("dim", 2, 4), K("type", type_), In("coord", 0, lambda v: v.dim), NN, NG, GID,
                                                      RA("rhs", lambda v: imul(v.dim, v.ng), "inout")] + NSET() + [WG],
              pre=first_w, gen=gen_sys(2, type_), invariants=[("ModifyRHSForKinematicBC", hoare.invariant(rhs_inv, only=1))],
              post=lambda v: [("entries", ALL(0, imul(v.dim, v.ng), lambda q: req(v.new("rhs")[q], ite(band(kinematic(v.type), ilt(v.w[q], v.m)), Fr(0), v.rhs[q]))))])


def tan_entry(v, k, p):
    i, j = v.ii[p], v.jj[p]
    return ite(bor(ilt(v.w[i], k), ilt(v.w[j], k)), ite(ieq(i, j), v.diag, Fr(0)), v.a[p])


def tan_inv(env):
    v = env.v
    yield ("assert", "position in the node set", lambda s: ile(s("k"), v.m))
    for a in env.arrs:
        yield ("define", "entries", a, lambda s: lambda p: tan_entry(v, s("k"), p))


def c_find_diag(ex, st, a):
    """FindIndex(i, i): the position of the diagonal entry (C14)"""
    ex.oblige(st, ieq(a[1], a[2]), "diagonal entry")
    return isel("dp", a[1])


def pre_tan(v):
    rows = [ieq(v.first[v.nr], v.nnz), ALL(0, v.nnz, lambda k: band(ile(v.first[v.ii[k]], k), ilt(k, v.first[iadd(v.ii[k], 1)]))),
            ALL(0, v.nr, lambda r: ile(v.first[r], v.first[iadd(r, 1)])),
            ALL(0, v.nr, lambda r: ALL(v.first[r], v.first[iadd(r, 1)], lambda k: ieq(v.ii[k], r)))]
    return rows + first_w(v) + [ieq(v.nr, imul(3, v.ng)),
                                 ALL(0, v.nr, lambda r: band(ile(0, v.dp[r]), ilt(v.dp[r], v.nnz), ieq(v.ii[v.dp[r]], r), ieq(v.jj[v.dp[r]], r))),
                                 ALL(0, v.nnz, lambda k: bor(bnot(ieq(v.jj[k], v.ii[k])), ieq(v.dp[v.ii[k]], k)))]


for type_, what in ((VEL, "prescribed velocity"), (DISP, "prescribed displacement"), (INIT, "initial velocity")):
    PROP.task("tangent stiffness, %s" % what, "bc_tan", [K("type", type_), In("coord", 0, 3), Rl("diag"), NN, NG, GID] + SHAPE_IO + NSET() +
              [IA_("w", lambda v: v.nr, lo=0, hi=lambda v: iadd(v.m, 1)), IA_("dp", lambda v: v.nr, lo=0, hi=lambda v: v.nnz), K("dim", 3)],
              pre=pre_tan, gen=gen_sys(3, type_), contracts=[(r"CRSMatrixContainer::FindIndex\(", c_find_diag)],
              invariants=[("ModifyTangentStiffnessMatrixForKinematicBC", hoare.invariant(tan_inv, only=1))],
              post=lambda v: [("entries", ALL(0, v.nnz, lambda p: req(v.new("a")[p], tan_entry(v, v.m, p) if v.type != INIT else v.a[p])))])
