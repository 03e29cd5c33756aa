"""C12: assembly over the elements of a block"""
from blk import *

PROP = Property("C12", "h_block.cc", ["nimble_element.cc", "nimble_data_utils.cc", "nimble_linear_solver.cc"])


def post(v):
    return [("mass = sum over the elements that share the node",
             ALL(0, v.nn, lambda i: req(v.new("m")[i], v.m[i] + SUM(v.ne, lambda e: sum3(
                 [ite(ieq(node(v, e, a), i), rfn("el_mass%d" % a, v.rho, *coords(v, e, v.X)), Fr(0)) for a in range(8)])))))]


PROP.task("block lumped mass", "b_mass", [Rl("rho")] + MESH + [CONN, RA("m", lambda v: v.nn, "inout")], post=post, gen=gen_mesh, contracts=ELEM, conc=CONC)


def layout(nq, rev):
    w = 15 + nq
    f = (lambda i: 8 * w - 1 - i) if rev else (lambda i: i)
    return ([[f(p * w + i) for i in range(9)] for p in range(8)], [[f(p * w + 9 + i) for i in range(6)] for p in range(8)],
            [[f(p * w + 15 + i) for i in range(nq)] for p in range(8)])


def response(v, e, nq, rev):
    """new deformation gradients, stresses and states of element e"""
    oF, oS, oq = layout(nq, rev)
    nd = 8 * (15 + nq)
    at = lambda o: v.dn[iadd(imul(nd, e), o)]
    X, x = coords(v, e, v.X), coords(v, e, v.X, v.u)
    F = [rfn("el_F%d" % k, *(X + x)) for k in range(72)]
    S, q = [], []
    for p in range(8):
        a = [at(o) for o in oF[p]] + F[9 * p:9 * p + 9] + [at(o) for o in oS[p]]
        a += [at(oq[p][i]) if i < nq else Fr(0) for i in range(2)]
        out = v.__dict__.get("out", 0)
        a += [v.t0, v.t1, i2r(v.gid[e]), ite(ieq(out, 0), Fr(0), Fr(1))]
        S += [rfn("mat%d" % i, *a) for i in range(6)]
        q += [rfn("mat%d" % (6 + i), *a) for i in range(nq)]
    return x, F, S, q


def data_goals(v, nq, rev):
    nd = 8 * (15 + nq)
    oF, oS, oq = layout(nq, rev)
    e = fresh("e")
    et = iatom(e)
    x, F, S, q = response(v, et, nq, rev)
    out = []
    new = lambda o: v.new("dnp1")[iadd(imul(nd, et), o)]
    for p in range(8):
        for nm, o, val, w in (("deformation gradient", oF, F, 9), ("stress", oS, S, 6), ("state", oq, q, nq)):
            for i in range(w):
                out.append(("%s %d at point %d" % (nm, i, p), forall(e, 0, v.ne, req(new(o[p][i]), val[w * p + i]))))
    return out


def nodal(v, i, k, nq, rev):
    """sum over elements of the element force at node i, direction k"""
    def one(e):
        x, F, S, q = response(v, e, nq, rev)
        return sum3([ite(ieq(node(v, e, a), i), rfn("el_f%d" % (3 * a + k), *(x + S)), Fr(0)) for a in range(8)])
    return SUM(v.ne, one)


def force_task(name, fn, nq, rev):
    nd = 8 * (15 + nq)

    def post(v):
        out = data_goals(v, nq, rev)
        for k in range(3):
            a = fresh("i")
            i = iadd(imul(3, iatom(a)), k)
            out.append(("internal force, direction %d: sum over elements" % k, forall(a, 0, v.nn, req(
                v.new("f")[i], v.f[i] + ite(ieq(v.so, 0), nodal(v, iatom(a), k, nq, rev), Fr(0))))))
        return out

    def gen(rng):
        g = gen_mesh(rng)
        g["dn"] = [rng.uniform(-1, 1) for _ in range(nd * g["ne"])]
        return g
    PROP.task(name, fn, MESH + [RA("u", lambda v: imul(3, v.nn)), CONN, IA_("gid", lambda v: v.ne, lo=0, hi=1000), Rl("t0"), Rl("t1"), In("out", 0, 2),
                                In("so", 0, 2), RA("dn", lambda v: imul(nd, v.ne)), RA("dnp1", lambda v: imul(nd, v.ne), "inout"),
                                RA("f", lambda v: imul(3, v.nn), "inout")], pre=lambda v: [valid(v, v.X), valid(v, v.X, v.u)], post=post, gen=gen, contracts=ELEM + MATERIAL, conc=CONC, timeout=300,
              nrandom=20, max_random=200)


force_task("block internal force", "b_force0", 0, False)
force_task("block internal force, material with state", "b_force2", 2, False)
force_task("block internal force, other data layout", "b_force2r", 2, True)


def post_atomic(v):
    out = [("no unsynchronised update of the force", ALL(0, imul(3, v.nn), lambda i: req(v.new("f")[i], v.f[i])))]
    for k in range(3):
        a = fresh("i")
        i = iadd(imul(3, iatom(a)), k)
        out.append(("every contribution is added atomically, direction %d" % k, forall(a, 0, v.nn, req(v.new("sh")[i], v.sh[i] + nodal(v, iatom(a), k, 0, False)))))
    return out


def gen_at(rng):
    g = gen_mesh(rng)
    g["dn"] = [rng.uniform(-1, 1) for _ in range(120 * g["ne"])]
    return g


PROP.task("element contributions are independent or atomic", "b_force_atomic",
          MESH + [RA("u", lambda v: imul(3, v.nn)), CONN, IA_("gid", lambda v: v.ne, lo=0, hi=1000), Rl("t0"), Rl("t1"),
                  RA("dn", lambda v: imul(120, v.ne)), RA("dnp1", lambda v: imul(120, v.ne), "inout"),
                  RA("f", lambda v: imul(3, v.nn), "inout"), RA("sh", lambda v: imul(3, v.nn), "inout")], pre=lambda v: [valid(v, v.X), valid(v, v.X, v.u)], post=post_atomic, gen=gen_at,
          contracts=ELEM + MATERIAL, conc=CONC, timeout=300, nrandom=20, max_random=200)
