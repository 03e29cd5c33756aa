"""C17: explicit time integration is the central difference (velocity Verlet) scheme"""
from lin import *
import hoare
import terms as _t

PROP = Property("C17", "h_time.cc")


def gf(c, i, a, b, t, s):
    return c + 0.25 * a - 0.125 * b + 0.0625 * t - 0.03125 * s + 0.5 * i / (i + 1.0)


_t.FN["vf_u"] = lambda i, u, v, t, s: 0.9 * u + 0.01 * gf(0.1, i, u, v, t, s)
_t.FN["vf_v"] = lambda i, u, v, t, s: 0.8 * v + 0.02 * gf(0.2, i, v, u, s, t)
_t.FN["vf_fi"] = lambda i, u, t, s, o: gf(-0.3, i, -u, o, t, s)
_t.FN["vf_fe"] = lambda i, t, s, o: gf(0.4, i, o, 0, s, t)
GHOST = [(r"^%s$" % n, lambda ex, st, a, n=n: rfn(n, *a)) for n in ("vf_u", "vf_v", "vf_fi", "vf_fe")]


def hist(w):
    """field w (u, v or a) of unknown i after k steps"""
    def f(env, k, i):
        k, i = int(k), int(i)
        key = (k, i)
        memo = env.__dict__.setdefault("_hist", {})
        if key not in memo:
            g = env.arrays
            vals = {x: env.vals[x] for x in ("steps", "freq", "t0", "t1")}
            dt = (vals["t1"] - vals["t0"]) / vals["steps"]
            if k == 0:
                u, v = g["u"](i), _t.FN["vf_v"](i, g["u"](i), g["v"](i), -1.0, -1.0)
                memo[key] = (_t.FN["vf_u"](i, u, v, vals["t0"], vals["t0"]), _t.FN["vf_v"](i, u, v, vals["t0"], vals["t0"]), g["a"](i))
            else:
                for j in range(k):
                    f(env, j, i)
                memo[key] = step_(*memo[k - 1, i], i, g["m"](i // 3), vals["t0"] + k * dt, vals["t0"] + (k - 1) * dt, dt,
                                  vals["freq"] != 0 and ((k - 1) % vals["freq"] == 0 or k == vals["steps"]), _t.FN, lambda c, a, b: a if c else b)[:3]
        return memo[key]["uva".index(w)]
    f.needs_env = True
    return f


def step_(u, v, a, i, m, t, s, dt, out, F, choose, one=1.0, zero=0.0):
    """one step of length dt ending at time t"""
    h = dt / 2
    v = v + h * a
    u, v = F["vf_u"](i, u, v, t, s), F["vf_v"](i, u, v, t, s)
    u = u + dt * v
    u, v = F["vf_u"](i, u, v, t, s), F["vf_v"](i, u, v, t, s)
    o = choose(out, one, zero)
    fi, fe = F["vf_fi"](i, u, t, s, o), F["vf_fe"](i, t, s, o)
    a = (fi + fe) / m
    v = v + h * a
    return choose(out, F["vf_u"](i, u, v, t, s), u), choose(out, F["vf_v"](i, u, v, t, s), v), a, fi, fe


for w in "uva":
    _t.FN[w + "h"] = hist(w)
SF = {n: (lambda *a, n=n: rfn(n, *a)) for n in ("vf_u", "vf_v", "vf_fi", "vf_fe")}


def H(v, k, i):
    """(u, v, a) of unknown i after k steps, unfolded by one step (or the start) where k = 0 or k = (something) + c"""
    memo = v.__dict__.setdefault("_H", {})
    key = (k, i)
    if key in memo:
        return memo[key]
    c = k if isinstance(k, int) else k.m.get((), 0)
    if k == 0 and isinstance(k, int):
        u, a = v.u[i], v.a[i]
        w = rfn("vf_v", i2r(i), u, v.v[i], Fr(-1), Fr(-1))
        r = rfn("vf_u", i2r(i), u, w, v.t0, v.t0), rfn("vf_v", i2r(i), u, w, v.t0, v.t0), a
    elif c > 0:
        r = stepped(v, isub(k, 1), i)[:3]
    else:
        r = [rfn(w + "h", i2r(k), i2r(i)) for w in "uva"]
    memo[key] = r
    return r


def DT(v):
    return (v.t1 - v.t0) / i2r(v.steps)


def time(v, k):
    return v.t0 + i2r(k) * DT(v)


def is_out(v, k):
    """output at the end of step k (counted from 0)"""
    return band(bnot(ieq(v.freq, 0)), bor(ieq(irem(k, v.freq), 0), ieq(k, isub(v.steps, 1))))


def stepped(v, k, i):
    return step_(*H(v, k, i), i2r(i), v.m[idiv(i, 3)], time(v, iadd(k, 1)), time(v, k), DT(v), is_out(v, k), SF, ite, Fr(1), Fr(0))


def inv(env):
    v = env.v
    yield ("assert", "steps", lambda s: ile(s("k"), v.steps))
    for x in env.reals:
        yield ("define", "time", x, lambda s: time(v, s("k")))
        yield ("define", "previous time", x, lambda s: time(v, isub(s("k"), 1)))
    for a in env.arrs:
        nm = env.objname(a)
        if nm in ("u", "v", "a"):
            yield ("define", nm, a, lambda s, nm=nm: (lambda i: H(v, s("k"), i)["uva".index(nm)]))
        if nm == "outf":
            yield ("define", nm, a, lambda s, nm=nm: (lambda i: ite_i(bor(ieq(i, 0), band(ilt(0, i), ile(i, s("k")), is_out(v, isub(i, 1)))), 1, 0)))
        if nm == "outt":
            yield ("define", nm, a, lambda s, nm=nm: (lambda i: ite(bor(ieq(i, 0), band(ilt(0, i), ile(i, s("k")), is_out(v, isub(i, 1)))), time(v, i), v.outt[i])))
    for x in env.ints + env.cnts:
        yield ("assert", "written once", lambda s, x=x: ieq(s(x), 1))


ite_i = iite


def post(v):
    n = imul(3, v.nn)
    N = v.steps
    last = lambda f: ALL(0, n, f)
    o = v.new
    return [("the run succeeds after exactly the given number of steps", ieq(v.ret, 0)),
            ("displacement", last(lambda i: req(o("u")[i], H(v, N, i)[0]))),
            ("velocity", last(lambda i: req(o("v")[i], H(v, N, i)[1]))),
            ("acceleration", last(lambda i: req(o("a")[i], H(v, N, i)[2]))),
            ("output happens once at the start, every so many steps and at the end", ALL(0, iadd(N, 1), lambda k: ieq(o("outf")[k], iite(bor(ieq(k, 0), band(ilt(0, k), is_out(v, isub(k, 1)))), 1, 0)))),
            ("output carries the time of its step", ALL(0, iadd(N, 1), lambda k: bor(ieq(o("outf")[k], 0), req(o("outt")[k], time(v, k))))),
            ]


def gen(rng):
    nn, steps = rng.randrange(1, 4), rng.randrange(1, 7)
    f = lambda: [rng.uniform(-2, 2) for _ in range(3 * nn)]
    t0 = rng.choice([0.0, 0.0, .5, -1.0])
    return {"nn": nn, "steps": steps, "freq": rng.choice([0, 1, 2, 3, 10]), "t0": t0, "t1": t0 + rng.uniform(.1, 2), "m": [rng.uniform(.5, 3) for _ in range(nn)],
            "u": f(), "v": f(), "a": f(), "fi": f(), "fe": f(), "outf": [0] * (steps + 1), "outt": [0.0] * (steps + 1), "pu": f(), "pv": f()}


F3 = lambda nm, io="inout": RA(nm, lambda v: imul(3, v.nn), io)
ARGS = lambda rank: [In("nn", 1, NMAX), K("rank", rank), In("steps", 1, NMAX), In("freq", 0, NMAX), Rl("t0"), Rl("t1"), RA("m", lambda v: v.nn), F3("u"), F3("v"), F3("a"), F3("fi"),
        F3("fe"), IA_("outf", lambda v: iadd(v.steps, 1), "inout"), RA("outt", lambda v: iadd(v.steps, 1), "inout"), F3("pu"), F3("pv")]
QUIET = [(r"nimble::ProfilingTimer::(push_region|ProfilingTimer|~ProfilingTimer)", lambda ex, st, a: None),
         (r"nimble::ProfilingTimer::pop_region", lambda ex, st, a: rvar(ex.fresh("clock")))]
for rank in (1, 0):
    PROP.task("integration on rank %d" % rank, "t_run", ARGS(rank),
              pre=lambda v: [rle(v.t0, v.t1), ALL(0, v.nn, lambda i: rlt(Fr(0), v.m[i])), ALL(0, iadd(v.steps, 1), lambda k: ieq(v.outf[k], 0))] ,
              post=post, ret="int", gen=gen, contracts=GHOST + QUIET, invariants=[("ExplicitTimeIntegrator::Integrate", hoare.invariant(inv, only=0))], timeout=300)

PROP.task("a final time before the initial time is rejected", "t_run", ARGS(0), pre=lambda v: [rlt(v.t1, v.t0)], post=lambda v: [], throws=lambda v: True,
          ret="int", gen=lambda r: (lambda g: {**g, "t1": g["t0"] - .25})(gen(r)), contracts=GHOST + QUIET + [(r"vsnprintf", lambda ex, st, a: 0)])
