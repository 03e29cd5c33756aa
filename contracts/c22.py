"""C22: contact entities, projections and penalty forces"""
from lin import *
import hoare
import math
import sys
import terms as _t
from sym import Ptr

PROP = Property("C22", "h_contact.cc")
NMAX = 2 ** 24
ND, NI = 28, 11
C, F, LEN, LO, HI, MID = 0, 9, 18, 19, 22, 25          # slots of an entity: coordinates, forces, length, box, centroid
TYPE, NN, N1, N2, NF, GID, LID, STAT = 0, 1, 2, 3, 4, 8, 9, 10
NODE, TRI = 1, 3


class DBL:
    kind, bits, store = "float", 64, 8


def c_add(ex, st, a):
    """Kokkos::atomic_add(p, v): *p += v"""
    p, v = a
    old = ex.load(st, p, DBL)
    o = st.w(p.obj)
    if o.arr is None:
        ex.store(st, p, old + v, DBL)
        return
    z, fld, q = ex.arr_field(o, p.off, 8, "real")
    z = z.copy()
    z.log = z.log + (("acc", (), ((q, v),)),)
    o.arr[fld] = z


ADD = [(r"vf_atomic_add\(", c_add)]


def fmin(a, b):
    return ite(rlt(b, a), b, a)


def fmax(a, b):
    return ite(rlt(a, b), b, a)


def placed(t, c, old, length):
    """slots of an entity of type t at the nine coordinates c"""
    d = list(old)
    n = 9 if t == TRI else 3
    d[C:C + n] = c[:n]
    for k in range(3):
        xs = [d[C + 3 * a + k] for a in range(3 if t == TRI else 1)]
        lo = hi = xs[0]
        for x in xs[1:]:
            lo, hi = fmin(lo, x), fmax(hi, x)
        d[LO + k] = lo - INF * length
        d[HI + k] = hi + INF * length
        d[MID + k] = sum(xs[1:], xs[0]) / Fr(len(xs))
    return d


INF = Fr(float(0.15))


def ent_state(t, p="d", q="i", io="inout"):
    return [RA(p, ND, io), IA_(q, NI, io, lo=None, hi=None)]


def same(what, v, d, i, p="d", q="i"):
    return [("%s: real slot %d" % (what, k), req(v.new(p)[k], d[k])) for k in range(ND)] + \
           [("%s: integer slot %d" % (what, k), ieq(v.new(q)[k], i[k])) for k in range(NI)]


def lst(x, n):
    return [x[k] for k in range(n)]


for t, nm in ((NODE, "node"), (TRI, "triangle")):
    def post_make(v, t=t):
        old = [Fr(0)] * ND
        old[LEN] = v.len
        d = placed(t, lst(v.c, 9), old, v.len)
        ids = [v.n1] + ([v.n2] + lst(v.nf, 4) if t == TRI else [-1] * 5)
        return same("made", v, d, [t, 3 if t == TRI else 1] + ids + [v.gid, v.lid, 0])
    PROP.task("a new " + nm, "k_make", [K("type", t), In("gid"), In("lid"), RA("c", 9 if t == TRI else 3), Rl("len"), In("n1"), In("n2"), IA_("nf", 4), RA("d", ND, "out"), IA_("i", NI, "out")],
              post=post_make)


    # the triangle of a quadrilateral: two of its nodes and the mean of all four
    def post_place(v, t=t):
        n = [v.i[N1], v.i[N2]] + [v.i[NF + a] for a in range(4)]
        x = lambda k, c: v.c[3 * n[k] + c]
        co = [x(0, c) for c in range(3)]
        if t == TRI:
            co += [x(1, c) for c in range(3)] + [(x(2, c) + x(3, c) + x(4, c) + x(5, c)) / Fr(4) for c in range(3)]
        return same("placed", v, placed(t, co, lst(v.d, ND), v.d[LEN]), lst(v.i, NI), q="i")
    ids = lambda t: [N1] if t == NODE else [N1, N2, NF, NF + 1, NF + 2, NF + 3]
    wf_ent = lambda v, t=t, i="i": [ile(0, getattr(v, i)[STAT]), ile(getattr(v, i)[STAT], 1), ieq(getattr(v, i)[TYPE], t), ieq(getattr(v, i)[NN], 3 if t == TRI else 1)] + [band(ile(0, getattr(v, i)[k]), ilt(getattr(v, i)[k], v.nn)) for k in ids(t)]

    def gen_ent(rng, t=t, nn=None):
        nn = nn or rng.choice([1, 2, 3, 7])
        i = [t, 3 if t == TRI else 1] + [rng.randrange(nn) for _ in range(6)] + [rng.randrange(9), rng.randrange(9), rng.randrange(2)]
        return {"nn": nn, "d": [rng.uniform(-2, 2) for _ in range(ND)], "i": i}

    def gen_place(rng, t=t, g=gen_ent):
        e = g(rng)
        e["c"] = [rng.uniform(-2, 2) for _ in range(3 * e["nn"])]
        return e
    PROP.task("coordinates of a " + nm, "k_place", [RA("d", ND, "inout"), IA_("i", NI, "inout")] + [In("nn", 1, NMAX), RA("c", lambda v: 3 * v.nn)],
              pre=wf_ent, post=post_place, gen=gen_place)

    def post_scatter(v, t=t):
        r = []
        for c in range(3):
            add = lambda k, c=c: [(v.i[N1], v.d[F + c])] + ([(v.i[N2], v.d[F + 3 + c])] + [(v.i[NF + a], v.d[F + 6 + c] / Fr(4)) for a in range(4)] if t == TRI else [])

            def f(k, c=c, add=add):
                s = v.c[3 * k + c]
                for n, x in add(k):
                    s = s + ite(ieq(n, k), x, Fr(0))
                return req(v.new("c")[3 * k + c], s)
            r.append(("force component %d" % c, ALL(0, v.nn, f)))
        return r
    for fn, how in (("k_scatter", ""), ("k_scatter_view", " to a view")):
        PROP.task("force of a %s scattered%s" % (nm, how), fn, [RA("d", ND), IA_("i", NI), In("nn", 1, NMAX), RA("c", lambda v: 3 * v.nn, "inout")], pre=wf_ent, post=post_scatter, gen=gen_place, contracts=ADD)

    def post_split(v, t=t):
        d = lst(v.d, ND)
        for c in range(3):
            if t == NODE:
                d[F + c] = -v.f[c]
            else:
                for a in range(3):
                    d[F + 3 * a + c] = v.N[a] * v.f[c]
        return same("split", v, d, lst(v.i, NI))
    typ = lambda v, t=t: [ieq(v.i[TYPE], t), ile(v.i[STAT], 1)]
    gen_d = lambda rng, t=t, g=gen_ent: dict({k: x for k, x in g(rng).items() if k != "nn"}, f=[rng.uniform(-3, 3) for _ in range(3)], N=[rng.uniform(0, 1) for _ in range(3)], p=[rng.uniform(-2, 2) for _ in range(3)],
                                             status=rng.randrange(2), set=rng.randrange(2))
    E = [RA("d", ND, "inout"), IA_("i", NI, "inout", lo=0, hi=9)]
    for null in (0, 1):
        if null and t == TRI:
            PROP.task("force on a triangle without coordinates", "k_split", E + [RA("f", 3), RA("N", 3), K("null", 1)], pre=typ, post=lambda v: [], ret="int", throws=lambda v: True, gen=gen_d)
        else:
            PROP.task("force on a %s%s" % (nm, " alone" if null else ""), "k_split", E + [RA("f", 3), RA("N", 3), K("null", null)], pre=typ, post=post_split, ret="int", throws=lambda v: False, gen=gen_d)

    def post_reset(v, t=t):
        i = lst(v.i, NI)
        i[STAT] = iite(ieq(v.set, 0), 0, iite(ieq(v.status, 0), 0, 1))
        return same("status", v, lst(v.d, ND), i) + [("status returned", ieq(v.ret, i[STAT]))]
    PROP.task("contact status of a " + nm, "k_reset", E + [In("status", 0, 2), In("set", 0, 2)], pre=lambda v, t=t: [ieq(v.i[TYPE], t), ile(v.i[STAT], 1)], post=post_reset, ret="int", gen=gen_d)

    def post_export(v, t=t):
        d = [v.d[k] if k not in range(F, F + 9) and k < MID else v.d2[k] for k in range(ND)]
        i = lst(v.i2, NI)
        i[TYPE], i[NN] = v.i[TYPE], v.i[NN]
        return same("exported", v, d, i, "d2", "i2")
    PROP.task("geometry of a %s exported" % nm, "k_export", [RA("d", ND), IA_("i", NI, lo=0, hi=2 ** 20), RA("d2", ND, "inout"), IA_("i2", NI, "inout", lo=0, hi=2)], pre=typ, post=post_export,
              gen=lambda rng, g=gen_d, t=t: dict({k: x for k, x in g(rng).items() if k in ("d", "i")}, d2=[rng.uniform(-1, 1) for _ in range(ND)], i2=[rng.randrange(2) for _ in range(NI)]))


# ---- projection of a node on a triangle ----
def geometry(v, cross=None):
    cross = cross or globals()["cross"]
    p = lst(v.nd, 3)
    P = [lst(v.td, 9)[3 * a:3 * a + 3] for a in range(3)]
    u, w_, w = [[y - x for x, y in zip(P[0], q)] for q in (P[1], P[2], p)]
    n = cross(u, w_)
    n2 = dot(n, n)
    a3, a2 = dot(cross(u, w), n) / n2, dot(cross(w, w_), n) / n2
    return p, P, u, w_, w, n, n2, [Fr(1) - a2 - a3, a2, a3]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def inside(al, tol):
    return band(*[band(rlt(-tol, a), rlt(a, Fr(1) + tol)) for a in al])


def proper(v):
    """a triangle of positive area"""
    return [rlt(Fr(0), geometry(v)[6]), rle(Fr(0), v.tol)]


def post_project(v):
    p, P, u, w_, w, n, n2, al = geometry(v)
    ins = inside(al, v.tol)
    out = bnot(ins)
    new = lambda x, k=0: v.new(x)[k]
    r = [("outside: not in contact", bor(ins, ieq(new("in"), 0)))]
    r += [("outside: gap kept", bor(ins, req(new("gap"), v.gap[0])))]
    for k in range(3):
        r += [("outside: normal kept", bor(ins, req(new("normal", k), v.normal[k]))), ("outside: coordinates kept", bor(ins, req(new("bary", k), v.bary[k]))),
              ("barycentric coordinate %d" % k, bor(out, req(new("bary", k), al[k]))),
              ("unit normal %d" % k, bor(out, req(new("normal", k) * rsqrt(n2), n[k])))]
    s = rsqrt(n2)
    gap = dot(w, n) / s
    r += [("the gap is the signed distance to the plane", bor(out, req(new("gap"), gap))),
          ("in contact iff behind the face, within its length", bor(out, bite_eq(new("in"), band(rlt(new("gap"), Fr(0)), rlt(-v.td[LEN], new("gap"))))))]
    foot = [sum((new("bary", a) * P[a][c] for a in range(1, 3)), new("bary", 0) * P[0][c]) for c in range(3)]
    for nm, e in (("first", u), ("second", w_)):
        r.append(("the foot point is the orthogonal projection (%s edge)" % nm, bor(out, req(dot([p[c] - foot[c] for c in range(3)], e), Fr(0)))))
    return r


def bite_eq(x, c):
    return ieq(x, iite(c, 1, 0))


def gen_proj(rng):
    P = [[rng.uniform(-1, 1) for _ in range(3)] for _ in range(3)]
    b = [rng.uniform(0, 1) for _ in range(3)]
    how = rng.randrange(6)
    if how == 0:
        b[rng.randrange(3)] -= .7
    if how == 1:
        b[rng.randrange(3)] = 0.
    s = sum(b) or 1.
    b = [x / s for x in b]
    f = [sum(b[a] * P[a][c] for a in range(3)) for c in range(3)]
    u, w = [[P[k][c] - P[0][c] for c in range(3)] for k in (1, 2)]
    n = [u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]]
    h = rng.choice([-.5, -.1, .2, -2., 0.])
    p = [f[c] + h * n[c] for c in range(3)]
    r = lambda n: [rng.uniform(-1, 1) for _ in range(n)]
    g = {"nd": p + r(ND - 3), "td": sum(P, []) + r(ND - 9), "ni": [1, 1] + [0] * 9, "ti": [3, 3] + [0] * 9, "tol": rng.choice([1e-8, 1e-3, .1]), "in": [rng.randrange(2)], "gap": r(1), "normal": r(3), "bary": r(3),
         "type": [0], "cp": r(3)}
    g["td"][LEN] = rng.choice([.05, 1., 3.])
    return g


PAIR = [RA("nd", ND), IA_("ni", NI, lo=0, hi=9), RA("td", ND), IA_("ti", NI, lo=0, hi=9), Rl("tol")]
PROP.task("projection", "k_project", PAIR + [IA_("in", 1, "inout", lo=0, hi=2), RA("gap", 1, "inout"), RA("normal", 3, "inout"), RA("bary", 3, "inout")], pre=proper, post=post_project, gen=gen_proj, timeout=200)


def post_simple(v):
    p, P, u, w_, w, n, n2, al = geometry(v)
    ins = inside(al, v.tol)
    out = bnot(ins)
    new = lambda x, k=0: v.new(x)[k]
    foot = [sum((al[a] * P[a][c] for a in range(1, 3)), al[0] * P[0][c]) for c in range(3)]
    r = [("a face projection iff inside", ieq(new("type"), iite(ins, 2, 0))), ("outside: gap kept", bor(ins, req(new("gap"), v.gap[0]))),
         ("the gap is the signed distance to the plane", bor(out, req(new("gap"), dot(w, n) / rsqrt(n2))))]
    for k in range(3):
        r += [("outside: normal kept", bor(ins, req(new("normal", k), v.normal[k]))), ("outside: point kept", bor(ins, req(new("cp", k), v.cp[k]))),
              ("foot point %d" % k, bor(out, req(new("cp", k), foot[k]))), ("unit normal %d" % k, bor(out, req(new("normal", k) * rsqrt(n2), n[k])))]
    for nm, e in (("first", u), ("second", w_)):
        r.append(("orthogonal projection (%s edge)" % nm, bor(out, req(dot([p[c] - new("cp", c) for c in range(3)], e), Fr(0)))))
    return r


PROP.task("simple projection", "k_simple", PAIR + [IA_("type", 1, "inout"), RA("cp", 3, "inout"), RA("gap", 1, "inout"), RA("normal", 3, "inout")], pre=proper, post=post_simple, gen=gen_proj, timeout=200)


def sq(a):
    return dot(a, a)


def edge_t(*a):
    e = [a[3 + c] - a[c] for c in range(3)]
    return dot([a[6 + c] - a[c] for c in range(3)], e) / dot(e, e)


def edge_d(*a):
    return sq([a[c] + (a[3 + c] - a[c]) * a[9] - a[6 + c] for c in range(3)])


_t.FN["edge_t"], _t.FN["edge_d"] = edge_t, edge_d
at3 = lambda ex, st, p: [ex.load(st, Ptr(p.obj, iadd(p.off, 8 * k)), DBL) for k in range(3)]
EDGE = [(r"PointEdgeClosestPointFindT\(", lambda ex, st, a: rfn("edge_t", *at3(ex, st, a[0]), *at3(ex, st, a[1]), *at3(ex, st, a[2]))),
        (r"PointEdgeClosestPointFindDistanceSquared\(", lambda ex, st, a: rfn("edge_d", *at3(ex, st, a[0]), *at3(ex, st, a[1]), *at3(ex, st, a[2]), a[3]))]
PTS = [RA("a", 3), RA("b", 3), RA("p", 3)]
PROP.task("edge parameter", "k_edge_t", PTS, pre=lambda v: [rlt(Fr(0), sq([v.b[c] - v.a[c] for c in range(3)]))], post=lambda v: [("t", req(v.ret, edge_t(*lst(v.a, 3), *lst(v.b, 3), *lst(v.p, 3))))], ret="real")
PROP.task("edge distance", "k_edge_d", PTS + [Rl("t")], post=lambda v: [("d", req(v.ret, edge_d(*lst(v.a, 3), *lst(v.b, 3), *lst(v.p, 3), v.t)))], ret="real")


def c_cross(ex, st, a):
    for k, x in enumerate(gcross(at3(ex, st, a[0]), at3(ex, st, a[1]))):
        ex.store(st, Ptr(a[2].obj, iadd(a[2].off, 8 * k)), x, DBL)


gcross = lambda a, b: [rfn("cross%d" % k, *a, *b) for k in range(3)]
for k in range(3):
    _t.FN["cross%d" % k] = lambda *x, k=k: cross(x[:3], x[3:])[k]
CROSS = [(r"CrossProduct<", c_cross)]
PROP.task("cross product", "k_cross", [RA("a", 3), RA("b", 3), RA("c", 3, "inout")], post=lambda v: [("component %d" % k, req(v.new("c")[k], cross(lst(v.a, 3), lst(v.b, 3))[k])) for k in range(3)])


def candidates(v):
    """the corners, then the points inside the edges: (valid, point, squared distance)"""
    p, P, u, w_, w, n, n2, al = geometry(v, gcross)
    cand = [(True, P[a], sq([P[a][c] - p[c] for c in range(3)])) for a in range(3)]
    for a, b in ((0, 1), (1, 2), (2, 0)):
        e = [y - x for x, y in zip(P[a], P[b])]
        t = rfn("edge_t", *P[a], *P[b], *p)
        cand.append((band(rlt(Fr(0), t), rlt(t, Fr(1))), [P[a][c] + e[c] * t for c in range(3)], rfn("edge_d", *P[a], *P[b], *p, t)))
    return cand


def pre_closest(k, valid):
    def pre(v):
        p, P, u, w_, w, n, n2, al = geometry(v, gcross)
        r = [rlt(Fr(0), n2), rle(Fr(0), v.tol)]
        if k is None:
            return r + [inside(al, v.tol)]
        cand = candidates(v)
        r.append(bnot(inside(al, v.tol)))
        for j, ok in enumerate(valid):
            r.append(cand[3 + j][0] if ok else bnot(cand[3 + j][0]))
        for j, (ok, q, d) in enumerate(cand):
            if j != k and (j < 3 or valid[j - 3]):
                r.append(rlt(cand[k][2], d) if j < k else rle(cand[k][2], d))
        return r
    return pre


def post_closest(k):
    def post(v):
        p, P, u, w_, w, n, n2, al = geometry(v, gcross)
        if k is None:
            zero = bor(*[band(rlt(-v.tol, a), rlt(a, v.tol)) for a in al])
            at = [sum((al[a] * P[a][c] for a in range(1, 3)), al[0] * P[0][c]) for c in range(3)]
            r = [("a face projection iff strictly inside", ieq(v.new("type")[0], iite(zero, 1, 2)))]
        else:
            at = candidates(v)[k][1]
            r = [("a projection on the boundary", ieq(v.new("type")[0], 1))]
        return r + [("the closest point, component %d" % c, req(v.new("cp")[c], at[c])) for c in range(3)]
    return post


CP = PAIR + [IA_("type", 1, "out"), RA("cp", 3, "out")]
PROP.task("closest point, inside", "k_closest", CP, pre=pre_closest(None, None), post=post_closest(None), gen=gen_proj, contracts=EDGE + CROSS, timeout=300)
for m in range(8):
    valid = [bool(m >> j & 1) for j in range(3)]
    for k in range(6):
        if k < 3 or valid[k - 3]:
            what = "corner %d" % (k + 1) if k < 3 else "edge %d" % (k - 2)
            PROP.task("closest point: %s, edges %s" % (what, "".join("01"[x] for x in valid)), "k_closest", CP, pre=pre_closest(k, valid), post=post_closest(k), gen=gen_proj, contracts=EDGE + CROSS, timeout=300)


def post_any(v):
    p, P, u, w_, w, n, n2, al = geometry(v)
    ins = inside(al, v.tol)
    best = at = None
    for ok, q, d in candidates(v):
        take = True if best is None else band(ok, rlt(d, best))
        at = q if best is None else [ite(take, q[c], at[c]) for c in range(3)]
        best = d if best is None else ite(take, d, best)
    foot = [sum((al[a] * P[a][c] for a in range(1, 3)), al[0] * P[0][c]) for c in range(3)]
    zero = bor(*[band(rlt(-v.tol, a), rlt(a, v.tol)) for a in al])
    return [("a face projection iff strictly inside", ieq(v.new("type")[0], iite(band(ins, bnot(zero)), 2, 1)))] + \
           [("the closest point, component %d" % c, req(v.new("cp")[c], ite(ins, foot[c], at[c]))) for c in range(3)]


PROP.task("closest point of sampled triangles", "k_closest", CP, pre=proper, post=post_any, gen=gen_proj, native_only=True, nrandom=1500, max_random=1500)


# ---- penalty forces ----
def area(*a):
    e, f = [a[3 + c] - a[c] for c in range(3)], [a[6 + c] - a[c] for c in range(3)]
    return Fr(1, 2) * rsqrt(sq(cross(e, f)))


_t.FN["area"] = lambda *a: .5 * math.sqrt(sum(x * x for x in cross([a[3 + c] - a[c] for c in range(3)], [a[6 + c] - a[c] for c in range(3)])))
AREA = [(r"TriangleArea\(", lambda ex, st, a: rfn("area", *a))]
PROP.task("area of a triangle", "k_area", [Rl("x%d" % k) for k in range(9)], post=lambda v: [("half the cross product", req(v.ret, area(*[getattr(v, "x%d" % k) for k in range(9)])))], ret="real")


def split_old(x, P):
    full = rfn("area", *P[0], *P[1], *P[2])
    n1, n2 = rfn("area", *x, *P[1], *P[2]) / full, rfn("area", *P[0], *x, *P[2]) / full
    return [n1, n2, Fr(1) - n1 - n2]


def corners(d):
    return [[d[3 * a + c] for c in range(3)] for a in range(3)]


for t, nm in ((NODE, "node"), (TRI, "triangle")):
    def post_old(v, t=t):
        d = lst(v.d, ND)
        N = [Fr(1)] if t == NODE else split_old(lst(v.p, 3), corners(v.d))
        for a, x in enumerate(N):
            for c in range(3):
                d[F + 3 * a + c] = x * v.f[c]
        return same("split", v, d, lst(v.i, NI))
    PROP.task("force on a %s by areas" % nm, "k_split_old", [RA("d", ND, "inout"), IA_("i", NI, "inout", lo=0, hi=9), RA("f", 3), RA("p", 3)], pre=lambda v, t=t: [ieq(v.i[TYPE], t), ile(v.i[STAT], 1)], post=post_old, contracts=AREA,
              gen=lambda rng, t=t: dict(d=[rng.uniform(-2, 2) for _ in range(ND)], i=[t, 1] + [rng.randrange(9) for _ in range(8)] + [rng.randrange(2)], f=[rng.uniform(-2, 2) for _ in range(3)], p=[rng.uniform(-2, 2) for _ in range(3)]))


def scattered(v, on, N, f, node_f):
    """every nodal force after the face got N f and the node node_f"""
    r = []
    for c in range(3):
        add = [(v.ni[N1], node_f[c]), (v.ti[N1], N[0] * f[c]), (v.ti[N2], N[1] * f[c])] + [(v.ti[NF + a], N[2] * f[c] / Fr(4)) for a in range(4)]

        def g(k, c=c, add=add):
            s = v.F[3 * k + c]
            for n, x in add:
                s = s + ite(band(on, ieq(n, k)), x, Fr(0))
            return req(v.new("F")[3 * k + c], s)
        r.append(("force component %d" % c, ALL(0, v.nn, g)))
        r.append(("what is added in total, component %d" % c, req(SUM(v.nn, lambda k, c=c: v.new("F")[3 * k + c]),
                                                                      SUM(v.nn, lambda k, c=c: v.F[3 * k + c]) + ite(on, (N[0] + N[1] + N[2]) * f[c] + node_f[c], Fr(0)))))
    return r


def wf_pair(v):
    return [ieq(v.ni[TYPE], NODE), ieq(v.ti[TYPE], TRI), ile(v.ni[STAT], 1), ile(v.ti[STAT], 1), band(ilt(v.ni[N1], v.nn))] + [ilt(v.ti[k], v.nn) for k in (N1, N2, NF, NF + 1, NF + 2, NF + 3)]


def gen_pair(rng):
    g = gen_proj(rng)
    nn = rng.choice([1, 3, 9])
    ids = lambda: [rng.randrange(nn) for _ in range(6)]
    g.update(nn=nn, ni=[1, 1] + ids() + [0, 0, 0], ti=[3, 3] + ids() + [0, 0, 1], nf=rng.choice([1, 2, 5]), gap=rng.choice([-.3, -1e-3, 0., .2]), dir=[rng.uniform(-1, 1) for _ in range(3)], penalty=rng.choice([1., 1e3]),
             F=[rng.uniform(-1, 1) for _ in range(3 * nn)])
    return g


def post_enforce(v):
    f = [v.penalty * v.gap / i2r(v.nf) * v.dir[c] for c in range(3)]
    return scattered(v, True, split_old(lst(v.cp, 3), corners(v.td)), f, [-x for x in f])


def post_apart(v):
    return [("no force", ALL(0, 3 * v.nn, lambda k: req(v.new("F")[k], v.F[k])))]


ENT2 = [RA("nd", ND), IA_("ni", NI, lo=0, hi=NMAX), RA("td", ND), IA_("ti", NI, lo=0, hi=NMAX)]
for guard in (0, 1):
    for near in (0, 1):
        PROP.task(("penalty force" if near else "no force when apart") + (" of the interface" if guard else ""), "k_enforce",
                  ENT2 + [In("nn", 1, NMAX), In("nf", 1, 99), Rl("gap"), RA("dir", 3), RA("cp", 3), Rl("penalty"), K("guard", guard), RA("F", lambda v: 3 * v.nn, "inout")],
                  pre=lambda v, near=near: wf_pair(v) + [rlt(v.gap, Fr(0)) if near else rle(Fr(0), v.gap)], post=post_enforce if near else post_apart, gen=gen_pair, contracts=AREA + ADD)


def post_penalty(v):
    f = [v.penalty * v.gap * v.normal[c] for c in range(3)]
    return scattered(v, True, lst(v.bary, 3), f, [-x for x in f]) + same("the face is not changed", v, lst(v.td, ND), lst(v.ti, NI), "td", "ti")


for view in (0, 1):
    PROP.task("penalty force at barycentric coordinates" + (", in a view" if view else ""), "k_penalty",
              ENT2[:2] + [RA("td", ND, "inout"), IA_("ti", NI, "inout", lo=0, hi=NMAX), In("nn", 1, NMAX), Rl("gap"), RA("normal", 3), RA("bary", 3), Rl("penalty"), K("view", view), RA("F", lambda v: 3 * v.nn, "inout")],
              pre=wf_pair, post=post_penalty, gen=gen_pair, contracts=ADD)


# ---- the manager ----
DISP = [In("nc", 0, NMAX), In("nn", 0, NMAX), IA_("ids", lambda v: v.nc, lo=0, hi=lambda v: v.nn), RA("model", lambda v: 3 * v.nc), RA("coord", lambda v: 3 * v.nc, "inout"), RA("disp", lambda v: 3 * v.nn)]


def post_move(v):
    return [("current coordinates", ALL(0, v.nc, lambda k: band(*[req(v.new("coord")[3 * k + c], v.model[3 * k + c] + v.disp[3 * v.ids[k] + c]) for c in range(3)])))]


def gen_move(rng):
    nn, nc = rng.choice([1, 2, 5]), rng.choice([0, 1, 2, 4])
    r = lambda n: [rng.uniform(-1, 1) for _ in range(n)]
    return dict(nc=nc, nn=nn, ids=[rng.randrange(nn) for _ in range(nc)], model=r(3 * nc), coord=r(3 * nc), disp=r(3 * nn), force=r(3 * nc), out=r(3 * nn))


PROP.task("displaced contact nodes", "k_move", DISP, post=post_move, gen=gen_move)


# the forces of the contact model go to the nodes it is made of, and to no other
def ghost_ids(v):
    return [ALL(0, v.nc, lambda k: ieq(v.w[v.ids[k]], k)), ALL(0, v.nn, lambda n: bor(ieq(v.w[n], v.nc), band(ilt(v.w[n], v.nc), ieq(v.ids[v.w[n]], n))))]


def moved_to(v, k):
    w = lambda q: v.w[idiv(q, 3)]
    return lambda q: ite(ilt(w(q), k), v.force[3 * w(q) + irem(q, 3)], v.out[q])


def forces_inv(env):
    v = env.v
    yield ("assert", "position", lambda s: ile(s("k"), v.nc))
    for a in env.arrs:
        if env.objname(a) == "out":
            yield ("define", "out", a, lambda s: moved_to(v, s("k")))


def post_forces(v):
    return [("component %d" % c, ALL(0, v.nn, lambda n, c=c: req(v.new("out")[3 * n + c], ite(ilt(v.w[n], v.nc), v.force[3 * v.w[n] + c], v.out[3 * n + c])))) for c in range(3)]


def gen_forces(rng):
    g = gen_move(rng)
    nn = g["nn"]
    ids = list(range(nn))
    rng.shuffle(ids)
    nc = rng.randrange(nn + 1)
    w = [nc] * nn
    for k, n in enumerate(ids[:nc]):
        w[n] = k
    g.update(nc=nc, ids=ids[:nc], w=w, force=[rng.uniform(-1, 1) for _ in range(3 * nc)])
    return g


PROP.task("contact forces of the nodes", "k_forces", [In("nc", 0, NMAX), In("nn", 0, NMAX), IA_("ids", lambda v: v.nc, lo=0, hi=lambda v: v.nn), RA("force", lambda v: 3 * v.nc), RA("out", lambda v: 3 * v.nn, "inout"),
                                                     IA_("w", lambda v: v.nn, lo=0, hi=lambda v: iadd(v.nc, 1))],
          pre=ghost_ids, post=post_forces, gen=gen_forces, invariants=[("GetForces|vf_parallel_for", hoare.invariant(forces_inv))])

class PTR:
    kind, bits, store = "ptr", 64, 8


class I64:
    kind, bits, store = "int", 64, 8


def c_view(ex, st, a):
    """Kokkos::View<double*>(label, n): n zeroes of its own (tracker, data, extent)"""
    this, n = a[0], a[2]
    if not isinstance(n, int) or n > 64:
        raise _t.Unsupported("view of symbolic length")
    o = ex.new_obj(st, 8 * n, "view")
    for k in range(n):
        ex.store(st, Ptr(o.id, 8 * k), Fr(0), DBL)
    ex.store(st, this, 1, I64)
    ex.store(st, Ptr(this.obj, iadd(this.off, 8)), Ptr(o.id, 0), PTR)
    ex.store(st, Ptr(this.obj, iadd(this.off, 16)), n, I64)


VIEW = [(r"Kokkos::View<double ?\*, .*::View<char ?\[\d+\]>\(", c_view)]

# the box around the contact nodes
BIG = Fr(sys.float_info.max)
def box(v):
    r = []
    for c in range(3):
        for m, init in (("min", BIG), ("max", -BIG)):
            j = fresh("j")
            r.append(_t.mk_minover(m, j, v.nc, v.coord[3 * iatom(j) + c], init))
    return r


BOX = [In("nc", 0, NMAX), RA("coord", lambda v: 3 * v.nc, "inout")]
gen_box = lambda rng: (lambda n: dict(nc=n, coord=[rng.uniform(-3, 3) for _ in range(3 * n)]))(rng.choice([1, 2, 3, 6]))
PROP.task("box of the contact nodes", "k_box", BOX + [RA("box", 6, "out")], post=lambda v: [("side %d" % k, req(v.new("box")[k], x)) for k, x in enumerate(box(v))], gen=gen_box, contracts=VIEW)


# ---- the entities of the manager ----
ENTS = lambda ne, nf: [K("ne", ne), RA("ed", ne * ND, "inout"), IA_("ei", ne * NI, "inout", lo=0, hi=NMAX), K("nf", nf), RA("fd", nf * ND, "inout"), IA_("fi", nf * NI, "inout", lo=0, hi=NMAX)]


def wf_ents(v, ne, nf):
    return [ile(v.ei[NI * k + STAT], 1) for k in range(ne)] + [ile(v.fi[NI * k + STAT], 1) for k in range(nf)]


def post_what(what, ne, nf):
    def post(v):
        e, f, i, j = lst(v.ed, ne * ND), lst(v.fd, nf * ND), lst(v.ei, ne * NI), lst(v.fi, nf * NI)
        r = []
        if what == 0:
            for k in range(ne):
                e[ND * k + F:ND * k + F + 3] = [Fr(0)] * 3
            for k in range(nf):
                f[ND * k + F:ND * k + F + 9] = [Fr(0)] * 9
            r += [("nodal forces", ALL(0, 3 * v.nc, lambda k: req(v.new("force")[k], Fr(0)))), ("forces on the host", ALL(0, v.nh, lambda k: req(v.new("host")[k], Fr(0))))]
        else:
            r += [("nodal forces", ALL(0, 3 * v.nc, lambda k: req(v.new("force")[k], v.force[k]))), ("forces on the host", ALL(0, v.nh, lambda k: req(v.new("host")[k], v.host[k])))]
        if what == 1:
            for k in range(ne):
                i[NI * k + STAT] = 0
            for k in range(nf):
                j[NI * k + STAT] = 0
        if what > 1:
            s = sum([v.fi[NI * k + STAT] for k in range(nf)] if what == 2 else [v.ei[NI * k + STAT] for k in range(ne)], 0)
            r.append(("count", ieq(v.ret, s)))
        for p, n, x in (("ed", ne * ND, e), ("fd", nf * ND, f)):
            r += [("%s[%d]" % (p, k), req(v.new(p)[k], x[k])) for k in range(n)]
        for p, n, x in (("ei", ne * NI, i), ("fi", nf * NI, j)):
            r += [("%s[%d]" % (p, k), ieq(v.new(p)[k], x[k])) for k in range(n)]
        return r
    return post


def gen_ents(ne, nf):
    def gen(rng):
        r = lambda n: [rng.uniform(-1, 1) for _ in range(n)]
        i = lambda n: [rng.randrange(2) for _ in range(n)]
        nh, nc = rng.randrange(4), rng.randrange(4)
        return dict(ed=r(ne * ND), fd=r(nf * ND), ei=i(ne * NI), fi=i(nf * NI), nh=nh, nc=nc, host=r(nh), force=r(3 * nc))
    return gen


for ne, nf in ((0, 1), (1, 0), (2, 3)):
    for what, nm in enumerate(("contact forces cleared", "contact status cleared", "faces in contact", "nodes in contact")):
        PROP.task("%s, %d nodes and %d faces" % (nm, ne, nf), "k_entities", [K("what", what)] + ENTS(ne, nf) + [In("nh", 0, NMAX), RA("host", lambda v: v.nh, "inout"), In("nc", 0, NMAX), RA("force", lambda v: 3 * v.nc, "inout")],
                  pre=lambda v, ne=ne, nf=nf: wf_ents(v, ne, nf), post=post_what(what, ne, nf), ret="int", gen=gen_ents(ne, nf))


def longest(v):
    b = box(v)
    l = [b[2 * c + 1] - b[2 * c] for c in range(3)]
    m = l[0]
    for x in l[1:]:
        m = ite(rlt(m, x), x, m)
    return m


PROP.task("mean over the ranks of the longest side of the box", "k_char_len", BOX + [In("ranks", 1, 2 ** 20), Rl("others")], ret="real",
          post=lambda v: [("length", req(v.ret, (longest(v) + v.others) / i2r(v.ranks)))], gen=lambda rng: dict(gen_box(rng), ranks=rng.randrange(1, 9), others=rng.uniform(0, 9)), contracts=VIEW)

# one search starts from zero forces, uses the penalty given, and leaves its forces in the manager
def post_compute(v):
    n = 3 * v.nc
    return [("one search", ieq(v.new("seen")[0], 1)), ("nodes searched", ieq(v.new("seen")[1], 5)), ("faces searched", ieq(v.new("seen")[2], 7)), ("penalty", req(v.new("pen")[0], v.penalty)),
            ("forces before the search", ALL(0, n, lambda k: req(v.new("in")[k], Fr(0)))), ("forces after the search", ALL(0, n, lambda k: req(v.new("force")[k], v.out[k])))]


def gen_compute(rng):
    nc = rng.randrange(1, 5)
    r = lambda: [rng.uniform(-1, 1) for _ in range(3 * nc)]
    return dict(nc=nc, force=r(), coord=r(), out=r(), penalty=rng.choice([1., -1., 0., 1e3]))


for through in (0, 1):
    ps = [Rl("penalty"), K("through", through), In("nc", 1, NMAX), RA("force", lambda v: 3 * v.nc, "inout"), RA("coord", lambda v: 3 * v.nc, "inout"), RA("in", lambda v: 3 * v.nc, "out"), RA("out", lambda v: 3 * v.nc), RA("pen", 1, "out"), IA_("seen", 3, "out")]
    PROP.task("one contact search" + (" of the manager" if through else ""), "k_compute", ps, pre=lambda v, t=through: [rlt(Fr(0), v.penalty)] if t else [], post=post_compute, ret="int", throws=lambda v: False, gen=gen_compute, contracts=VIEW)
PROP.task("no contact without a penalty", "k_compute", ps, pre=lambda v: [rle(v.penalty, Fr(0))], post=lambda v: [], ret="int", throws=lambda v: True, gen=gen_compute, contracts=VIEW)


# the entities follow the displaced coordinates
def post_follow(ne, nf):
    def post(v):
        x = lambda n, c: v.model[3 * n + c] + v.disp[3 * v.ids[n] + c]
        r = post_move(v)
        for p, q, t, m in (("ed", "ei", NODE, ne), ("fd", "fi", TRI, nf)):
            for e in range(m):
                i = [getattr(v, q)[NI * e + k] for k in range(NI)]
                d = [getattr(v, p)[ND * e + k] for k in range(ND)]
                co = [x(i[N1], c) for c in range(3)]
                if t == TRI:
                    co += [x(i[N2], c) for c in range(3)] + [(x(i[NF], c) + x(i[NF + 1], c) + x(i[NF + 2], c) + x(i[NF + 3], c)) / Fr(4) for c in range(3)]
                d = placed(t, co, d, d[LEN])
                r += [("%s %d slot %d" % (p, e, k), req(v.new(p)[ND * e + k], d[k])) for k in range(ND)] + [("%s %d slot %d" % (q, e, k), ieq(v.new(q)[NI * e + k], i[k])) for k in range(NI)]
        return r
    return post


def wf_follow(ne, nf):
    def pre(v):
        r = wf_ents(v, ne, nf)
        for q, t, m in (("ei", NODE, ne), ("fi", TRI, nf)):
            for e in range(m):
                g = lambda k: getattr(v, q)[NI * e + k]
                r += [ieq(g(TYPE), t), ieq(g(NN), 3 if t == TRI else 1)] + [ilt(g(k), v.nc) for k in ([N1] if t == NODE else [N1, N2, NF, NF + 1, NF + 2, NF + 3])]
        return r
    return pre


def gen_follow(ne, nf):
    def gen(rng):
        g = gen_move(rng)
        nc = g["nc"] = g["nn"]
        r = lambda n: [rng.uniform(-1, 1) for _ in range(n)]
        g.update(ids=[rng.randrange(nc) for _ in range(nc)], model=r(3 * nc), coord=r(3 * nc), ed=r(ne * ND), fd=r(nf * ND), ei=[], fi=[])
        for q, t, m in (("ei", NODE, ne), ("fi", TRI, nf)):
            for e in range(m):
                g[q] += [t, 3 if t == TRI else 1] + [rng.randrange(nc) for _ in range(6)] + [0, 0, rng.randrange(2)]
        return g
    return gen


for ne, nf in ((1, 1), (2, 2)):
    PROP.task("entities follow the displacements, %d nodes and %d faces" % (ne, nf), "k_move_entities",
              [In("nc", 1, NMAX), IA_("ids", lambda v: v.nc, lo=0, hi=lambda v: v.nc), RA("model", lambda v: 3 * v.nc), RA("coord", lambda v: 3 * v.nc, "inout"), RA("disp", lambda v: 3 * v.nc)] + ENTS(ne, nf),
              pre=wf_follow(ne, nf), post=post_follow(ne, nf), gen=gen_follow(ne, nf))


# faces sent in a buffer arrive as they were (their box is computed anew)
def post_pack(n):
    def post(v):
        r = [("size of the buffer", ile(108 * n, v.ret))]
        for e in range(n):
            z = [Fr(0)] * ND
            z[LEN] = v.d[ND * e + LEN]
            d = placed(TRI, [v.d[ND * e + k] for k in range(9)], z, z[LEN])
            r += [("face %d slot %d" % (e, k), req(v.new("d2")[ND * e + k], d[k])) for k in range(ND)]
            r += [("face %d integer slot %d" % (e, k), ieq(v.new("i2")[NI * e + k], {TYPE: TRI, NN: 3, LID: -1, STAT: 0}.get(k, v.i[NI * e + k]))) for k in range(NI)]
        return r
    return post


def gen_pack(n):
    def gen(rng):
        r = lambda: [rng.uniform(-1, 1) for _ in range(n * ND)]
        return dict(d=r(), d2=r(), i=[rng.randrange(2) if k == STAT else rng.choice([0, 1, 7, 2 ** 20]) for _ in range(n) for k in range(NI)], i2=[rng.randrange(2) for _ in range(n * NI)])
    return gen


for n in (0, 1, 2, 4):
    PROP.task("%d faces through a buffer" % n, "k_pack", [K("n", n), RA("d", n * ND), IA_("i", n * NI, lo=0, hi=NMAX), RA("d2", n * ND, "inout"), IA_("i2", n * NI, "inout", lo=0, hi=2)],
              pre=lambda v, n=n: [ile(v.i[NI * k + STAT], 1) for k in range(n)], post=post_pack(n), ret="int", gen=gen_pack(n), bounded="buffers of 0, 1, 2 and 4 faces")
