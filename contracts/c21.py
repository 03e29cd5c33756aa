"""C21: quasistatic time integration: the residual, and Newton's iteration with a line search on it"""
from lin import *
import hoare
import terms as _t
from sym import Ptr

PROP = Property("C21", "h_quasi.cc")
UNDEF_, INIT, VEL, DISP, TRAC = 0, 1, 2, 3, 4


class DBL:
    kind, bits, store = "float", 64, 8


def mix(u, i):
    return sum(u[k] * (2.0 if k == i else 0.25 * ((k * 3 + i * 5) % 4 - 1)) for k in range(len(u)))


def sq(a):
    return int(round((len(a) + .25) ** .5 - .5))


_t.FN["vf_f"] = lambda i, u, s, t, o: 0.75 * u + 0.125 * i - 0.25 * s + 0.5 * t + 0.0625 * o
_t.FN["vf_g"] = lambda i, *a: -mix(a[:-4], int(i)) + 0.125 * i + 0.5 * a[-4] - 0.25 * a[-3] + 0.5 * a[-2] + 0.0625 * a[-1]
_t.FN["vf_q"] = lambda *a: 0.5 * a[-4] + mix(a[:-4], 0) + a[-2] - a[-3] + 0.5 * a[-1]
_t.FN["vf_k"] = lambda i, j, *u: (3.0 if i == j else 0.25) + 0.125 * i - 0.0625 * j + 0.125 * u[0] * u[-1]


def f_s(i, *a):
    n, i = sq(a), int(i)
    return a[n * n + i] * (0.3 + 0.05 * a[n * i + i]) + 0.03 * a[i] * a[n * n]


_t.FN["vf_s"] = f_s
_t.FN["vf_ok"] = lambda *a: 1.0 if a[0] * a[-1] < 4.0 else -1.0


def vec(ex, st, p, n):
    return [ex.load(st, Ptr(p.obj, iadd(p.off, 8 * k)), DBL) for k in range(n)]


GHOST = [(r"^vf_f$", lambda ex, st, a: rfn("vf_f", *a)),
         (r"^vf_g$", lambda ex, st, a: rfn("vf_g", a[1], *vec(ex, st, a[2], a[0]), *a[3:])),
         (r"^vf_q$", lambda ex, st, a: rfn("vf_q", *vec(ex, st, a[1], a[0]), *a[2:])),
         (r"^vf_k$", lambda ex, st, a: rfn("vf_k", a[1], a[2], *vec(ex, st, a[3], a[0]))),
         (r"^vf_s$", lambda ex, st, a: rfn("vf_s", a[1], *vec(ex, st, a[2], a[0] * a[0]), *vec(ex, st, a[3], a[0]))),
         (r"^vf_ok$", lambda ex, st, a: rfn("vf_ok", *vec(ex, st, a[1], a[0] * a[0]), *vec(ex, st, a[2], a[0])))]


# ---- the residual, for any mesh
def unknown(v, k):
    return iadd(imul(v.dim, v.gid[v.set[k]]), v.coord)


def first_w(v):
    """w[q] = the first position in the node set whose unknown is q, m if there is none"""
    return [ALL(0, v.m, lambda k: ile(v.w[unknown(v, k)], k)),
            ALL(0, imul(v.dim, v.ng), lambda q: bor(ieq(v.w[q], v.m), band(ilt(v.w[q], v.m), ieq(unknown(v, v.w[q]), q))))]


def force(v, i):
    return rfn("vf_f", i2r(i), v.u[i], v.s, v.t, ite(ieq(v.out, 0), Fr(0), Fr(1)))


def entry(v, q):
    """minus the sum of the forces of all nodes that share the unknown"""
    r = Fr(0)
    for d in range(v.dim):
        r = r - SUM(v.nn, lambda n: ite(ieq(iadd(imul(v.dim, v.gid[n]), d), q), force(v, iadd(imul(v.dim, n), d)), Fr(0)))
    return r


def rhs_inv(env):
    v = env.v
    yield ("assert", "position in the node set", lambda s: ile(s("k"), v.m))
    for a in env.arrs:
        if env.objname(a) == "R":
            ini = env.init(a)
            yield ("define", "entries", a, lambda s: (lambda q: ite(ilt(v.w[q], s("k")), Fr(0), ini(q))))


def post_res(v):
    n = imul(v.dim, v.ng)
    R = v.new("R")
    kin = v.type in (VEL, DISP)
    j = fresh("j")
    big = _t.mk_minover("max", j, n, rabs(R[iatom(j)]), Fr(0))
    return [("internal force", ALL(0, imul(v.dim, v.nn), lambda i: req(v.new("F")[i], force(v, i)))),
            ("residual", ALL(0, n, lambda q: req(R[q], ite(ilt(v.w[q], v.m), Fr(0), entry(v, q)) if kin else entry(v, q)))),
            ("measure over every unknown", req(v.ret, rsqrt(SUM(n, lambda q: R[q] * R[q])) + 20 * big))]


def gen_res(dim, type_):
    def gen(rng):
        nn, ng, coord = rng.randrange(1, 7), rng.randrange(1, 5), rng.randrange(dim)
        m = rng.choice([0, 0, 1, rng.randrange(0, nn + 1)])
        g = {"nn": nn, "ng": ng, "coord": coord, "m": m, "gid": [rng.randrange(ng) for _ in range(nn)], "set": [rng.randrange(nn) for _ in range(m)], "s": rng.uniform(0, 1), "t": rng.uniform(1, 2),
             "out": rng.randrange(2), "u": [rng.uniform(-2, 2) * 10 ** rng.randrange(-2, 2) for _ in range(dim * nn)], "F": [9.0] * (dim * nn), "R": [7.0] * (dim * ng)}
        g["w"] = [m] * (dim * ng)
        for k in reversed(range(m)):
            g["w"][dim * g["gid"][g["set"][k]] + coord] = k
        return g
    return gen


for dim in (3, 2):
    for type_, what in ((VEL, "prescribed velocity"), (DISP, "prescribed displacement"), (INIT, "initial velocity")):
        U = lambda nm, io="in": RA(nm, lambda v, dim=dim: imul(dim, v.nn), io)
        PROP.task("residual in %dD, %s" % (dim, what), "q_res",
                  [K("dim", dim), In("nn", 1, NMAX), In("ng", 1, NMAX), IA_("gid", lambda v: v.nn, lo=0, hi=lambda v: v.ng), K("type", type_), In("coord", 0, dim), In("m", 0, NMAX),
                   IA_("set", lambda v: v.m, lo=0, hi=lambda v: v.nn), Rl("s"), Rl("t"), In("out", 0, 2), U("u"), U("F", "inout"), RA("R", lambda v, dim=dim: imul(dim, v.ng), "inout"),
                   IA_("w", lambda v, dim=dim: imul(dim, v.ng), lo=0, hi=lambda v: iadd(v.m, 1))],
                  pre=first_w, post=post_res, ret="real", gen=gen_res(dim, type_), contracts=GHOST, invariants=[("ModifyRHSForKinematicBC", hoare.invariant(rhs_inv, only=1))], timeout=200)


def std_max(ex, st, a):
    """the larger value, in a cell of its own (the caller only reads it)"""
    x, y = (ex.load(st, p, DBL) for p in a)
    o = ex.new_obj(st, 8, "max")
    ex.store(st, Ptr(o.id, 0), rite(rlt(x, y), y, x), DBL)
    return Ptr(o.id, 0)


MAX = [(r"^double const& std::max<double>\(", std_max)]


# ---- the integrator on a small model: Newton's method with a line search, for every load, tangent and element response
def ev_forces(v, u, qn, s, t, o):
    n = len(u)
    return [rfn("vf_g", i2r(i), *u, qn, s, t, o) for i in range(n)], rfn("vf_q", *u, qn, s, t, o)


def measure(R):
    big = Fr(0)
    for r in R:
        a = rabs(r)
        big = ite(rlt(big, a), a, big)
    q = Fr(0)
    for r in R:
        q = q + r * r
    return rsqrt(q) + 20 * big


def newton(v, cfg, yes):
    """the run, in the case described by the answers of yes(condition)"""
    dim, nn, gid, fixed = cfg["dim"], cfg["nn"], cfg["gid"], cfg["fixed"]
    n = dim * nn
    pos = [dim * gid[i // dim] + i % dim for i in range(n)]       # unknown of every component
    fp = {pos[i] for i in fixed}
    dt = (v.t1 - v.t0) / v.steps
    u = [v.u[i] for i in range(n)]

    def residual_of(U, qn, s, t, o):
        F, q = ev_forces(v, U, qn, s, t, o)
        R = [None] * n
        for i in range(n):
            R[pos[i]] = Fr(0) if i in fixed else -F[i]
        return U, F, q, R, measure(R)

    f = [Fr(0)] * n
    qn = v.q0
    outs = [(v.t0, u, v.q0)]
    t = v.t0
    for step in range(cfg["steps"]):
        s, t = t, t + dt
        on = cfg["freq"] != 0 and (step % cfg["freq"] == 0 or step == cfg["steps"] - 1)
        o = Fr(1) if on else Fr(0)
        # the prescribed components move, the others start from the previous step
        u = [(v.mag if fixed[i] == "displacement" else u[i] + v.vel * dt) if i in fixed else u[i] for i in range(n)]
        u, f, q, R, r = residual_of(u, qn, s, t, o)
        tol = v.rtol * r
        it = 0
        while yes(rlt(tol, r)):
            if it == cfg["maxit"]:
                return True, outs, u, f, qn
            it += 1
            K = [[rfn("vf_k", i2r(i), i2r(j), *u) for j in range(n)] for i in range(n)]
            d = Fr(0)
            for i in range(n):
                d = d + rabs(K[i][i])
            d = d / n
            A = [(d if i == j else Fr(0)) if i in fp or j in fp else K[i][j] for i in range(n) for j in range(n)]
            x = [rfn("vf_s", i2r(i), *A, *R) for i in range(n)]
            if not yes(rlt(Fr(0), rfn("vf_ok", *A, *R))):
                return True, outs, u, f, qn
            # the whole step, and the step at which the secant along it vanishes; the better one counts
            whole = residual_of([u[i] - x[pos[i]] for i in range(n)], qn, s, t, o)
            sr = sum((x[i] * R[i] for i in range(n)), Fr(0))
            st = sum((x[i] * whole[3][i] for i in range(n)), Fr(0))
            al = -sr / (st - sr)
            part = residual_of([u[i] - al * x[pos[i]] for i in range(n)], qn, s, t, o)
            u, f, q, R, r = whole if yes(rlt(whole[4], part[4])) else part
        if on:
            outs.append((t, u, q))
        qn = q
    return False, outs, u, f, qn


def cases(run):
    """every sequence of answers: (conditions, result)"""
    todo = [[]]
    while todo:
        pre = todo.pop()
        conds = []

        def yes(c):
            k = len(conds)
            if c is True or c is False:
                return c
            a = pre[k] if k < len(pre) else True
            if k >= len(pre):
                todo.append(pre[:k] + [True] * (k - len(pre)) + [False])
                pre.append(True)
            conds.append(c if a else bnot(c))
            return a
        r = run(yes)
        yield conds, r


def post_run(cfg):
    def post(v):
        n = cfg["dim"] * cfg["nn"]
        goals = []
        for conds, (failed, outs, u, f, q) in cases(lambda yes: newton(v, cfg, yes)):
            ok = lambda c: bor(*[bnot(x) for x in conds], c)
            goals.append(("fails if and only if Newton's method does", ok(bnot(ieq(v.ret, 0)) if failed else ieq(v.ret, 0))))
            if failed:
                continue
            goals += [("displacement", ok(req(v.new("u")[i], u[i]))) for i in range(n)]
            goals += [("internal force", ok(req(v.new("f")[i], f[i]))) for i in range(n)]
            goals.append(("element data of the accepted state", ok(req(v.new("q")[0], q))))
            goals.append(("number of outputs", ok(ieq(v.new("writes")[0], len(outs)))))
            for k, (t, U, Q) in enumerate(outs):
                goals.append(("output time", ok(req(v.new("outt")[k], t))))
                goals.append(("output of the element data", ok(req(v.new("outq")[k], Q))))
                goals += [("output of the displacement", ok(req(v.new("outu")[n * k + i], U[i]))) for i in range(n)]
        return goals
    return post


RUNS = [("one load step, one iteration", dict(dim=3, nn=2, gid=[1, 0], coord=1, nodes=[0], steps=1, freq=1, maxit=1)),
        ("one load step, two iterations", dict(dim=3, nn=2, gid=[1, 0], coord=0, nodes=[0], steps=1, freq=0, maxit=2)),
        ("two load steps", dict(dim=2, nn=2, gid=[0, 1], coord=1, nodes=[1], steps=2, freq=5, maxit=1)),
        ("three load steps, a tight limit", dict(dim=3, nn=1, gid=[0], coord=2, nodes=[], steps=3, freq=2, maxit=0))]


def gen_run(cfg):
    def gen(rng):
        n = cfg["dim"] * cfg["nn"]
        return {"mag": rng.uniform(-1, 1), "vel": rng.uniform(-1, 1), "rtol": rng.choice([1e-9, .2, .5, .8, .95]), "t0": rng.choice([0., -1., .5]), "t1": 2., "q0": rng.uniform(-1, 1), "u": [rng.uniform(-1, 1) for _ in range(n)],
                "f": [9.] * n, "q": [0.], "writes": [0], "outt": [0.] * 4, "outu": [0.] * 4 * n, "outq": [0.] * 4}
    return gen


for what, cfg in RUNS:
    n = cfg["dim"] * cfg["nn"]
    cfg["fixed"] = {cfg["dim"] * i + cfg["coord"]: "displacement" for i in cfg["nodes"]}
    cfg["fixed"][cfg["dim"] * (cfg["nn"] - 1)] = "velocity"       # prescribed last
    PROP.task("integration: " + what, "q_run",
              [K("dim", cfg["dim"]), K("nn", cfg["nn"]), IA_("gid", cfg["nn"], val=cfg["gid"]), K("nset", len(cfg["nodes"])), IA_("set", len(cfg["nodes"]), val=cfg["nodes"]), K("coord", cfg["coord"]),
               Rl("mag"), Rl("vel"), K("steps", cfg["steps"]), K("freq", cfg["freq"]), K("maxit", cfg["maxit"]), Rl("rtol"), Rl("t0"), Rl("t1"), Rl("q0"), RA("u", n, "inout"), RA("f", n, "out"), RA("q", 1, "out"),
               IA_("writes", 1, "out"), RA("outt", 4, "inout"), RA("outu", 4 * n, "inout"), RA("outq", 4, "inout")],
              pre=lambda v: [rlt(v.t0, v.t1), rle(Fr(0), v.rtol)], post=post_run(cfg), ret="int", gen=gen_run(cfg), contracts=GHOST + MAX, nomerge='Integrate|^q_run', timeout=600)
