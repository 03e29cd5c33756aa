"""C19: model data: totals over blocks, reference coordinates, storage and output of fields"""
from lin import *
import terms as _t

PROP = Property("C19", "h_model.cc")
_t.FN["vf_m"] = lambda c, n, i, x: 0.5 + 0.25 * c + 0.125 * n - 0.0625 * i + x
_t.FN["vf_dt"] = lambda c, n, x, u: 0.25 + c * c - 0.5 * n + x * u
_t.FN["vf_r"] = lambda d, i, x: 2.0 * x + d - i
_t.FN["vf_bf"] = lambda c, n, g, l, q, t, s, o, x, u, v, i: c - n + 0.5 * g + 0.25 * l - q + t * 0.125 + s * 0.375 + o + x - 2 * u + 3 * v - 0.5 * i
_t.FN["vf_bd"] = lambda c, q, j: c + 3 * q - j
GHOST = [(r"^%s$" % n, lambda ex, st, a, n=n: rfn(n, *a)) for n in ("vf_m", "vf_dt", "vf_r", "vf_bf", "vf_bd")]

NE = [In("n%d" % k, 1, NMAX) for k in range(3)]
CO = [IA_("c%d" % k, lambda v, k=k: imul(8, getattr(v, "n%d" % k)), "in", -NMAX, NMAX) for k in range(3)]
F3 = lambda nm, io="in": RA(nm, lambda v: imul(3, v.nn), io)
F1 = lambda nm, io="in": RA(nm, lambda v: v.nn, io)


def first(v, k):
    return i2r(getattr(v, "c%d" % k)[0]), i2r(getattr(v, "n%d" % k))


for nb in (1, 2, 3):
    def post(v, nb=nb):
        def mass(i):
            s = Fr(0)
            for k in range(nb):
                s = radd(s, rfn("vf_m", *first(v, k), i2r(i), v.X[imul(3, i)]))
            return rfn("vf_r", Fr(1), i2r(i), s)
        l = isub(v.nn, 1)
        d = [rfn("vf_dt", *first(v, k), v.X[iadd(imul(3, l), 1)], v.u[iadd(imul(3, l), 2)]) for k in range(nb)]
        big = Fr(2) ** 1023 * (2 - Fr(1, 2 ** 52))
        return [("the nodal mass is the sum over all blocks and all ranks", ALL(0, v.nn, lambda i: req(v.new("m")[i], mass(i)))),
                ("the critical time step is that of the most restrictive block", band(*[rle(v.ret, x) for x in d], bor(*[req(v.ret, x) for x in d], req(v.ret, big))))]
    PROP.task("mass and critical time step of %d block(s)" % nb, "m_mass", [K("nb", nb), In("nn", 1, NMAX)] + NE + CO + [F3("X"), F3("u"), F1("m", "out")], post=post, ret="real", contracts=GHOST)

    def post(v, nb=nb):
        def force(i):
            s = Fr(0)
            for k in range(nb):
                s = radd(s, rfn("vf_bf", *first(v, k), Fr(107 - 2 * k), Fr(k + 1), getattr(v, "q%d" % k), v.s, v.t, ite(ieq(v.out, 0), Fr(0), Fr(1)), v.X[i], v.u[i], v.v[i], i2r(i)))
            return rfn("vf_r", Fr(3), i2r(i), s)
        r = v.new("r")
        q = lambda k, j: rfn("vf_bd", first(v, k)[0], getattr(v, "q%d" % k), Fr(j))
        return [("the internal force is the sum over all blocks and all ranks", ALL(0, imul(3, v.nn), lambda i: req(v.new("f")[i], force(i)))),
                ("element data: new values apart from old", band(*[band(req(r[4 * k], getattr(v, "q%d" % k)), req(r[4 * k + 1], q(k, 1))) for k in range(nb)])),
                ("a state update makes the new values the old ones", band(*[req(r[4 * k + 2 + j], q(k, j)) for k in range(nb) for j in range(2)]))]
    PROP.task("internal force of %d block(s)" % nb, "m_force", [K("nb", nb), In("nn", 1, NMAX)] + NE + CO + [F3("X"), F3("w"), F3("v"), F3("u"), Rl("s"), Rl("t"), In("out", 0, 1)]
              + [Rl("q%d" % k) for k in range(3)] + [F3("f", "inout"), RA("r", 12, "inout")], post=post, ret=None, contracts=GHOST)

for dim in (2, 3):
    PROP.task("reference coordinates in %dD" % dim, "m_ref", [K("dim", dim), In("nn", 1, NMAX), F1("x"), F1("y"), F1("z"), RA("X", lambda v, dim=dim: imul(dim, v.nn), "out")],
              post=lambda v, dim=dim: [("coordinate %d" % c, ALL(0, v.nn, lambda i: req(v.new("X")[iadd(imul(dim, i), c)], getattr(v, "xyz"[c])[i]))) for c in range(dim)], ret=None)
PROP.task("external force", "m_ext", [In("nn", 1, NMAX), F3("F", "inout")], post=lambda v: [("zero", ALL(0, imul(3, v.nn), lambda i: req(v.new("F")[i], Fr(0))))], ret=None)

SIZE = {2: [1, 2, 3, 4, 1, 2, 3], 3: [1, 3, 6, 9, 1, 2, 3]}
LABEL = ["density", "displacement", "velocity", "plastic_strain", "gradient", "velocity", "stress"]     # up to case
for dim in (2, 3):
    for la, ka in (([1], [1]), ([0, 1, 2, 3], [0, 1, 1, 2]), ([2, 5, 1, 2], [1, 1, 3, 1]), ([6, 4, 6, 4, 0], [2, 3, 2, 3, 4]), ([3, 0, 1, 2, 6, 4], [5, 0, 1, 1, 2, 3]), ([0, 1, 2], [6, 4, 5])):
        n = len(la)
        ids, seen = [], {}
        for l in la:
            ids.append(seen.setdefault(LABEL[l], len(seen)))

        def post(v, dim=dim, la=la, ka=ka, ids=ids):
            r, s, g = v.new("r"), v.new("s"), v.new("g")
            out = [("identifiers", band(*[ieq(r[i], ids[i]) for i in range(len(la))])),
                   ("storage: nodes times components", band(*[ieq(s[i], imul(v.nn, SIZE[dim][ka[i]])) for i in range(len(la))]))]
            return out + [("found by label", band(*[ieq(g[i], ids[i]) for i in range(len(la)) if la[i] != 5]))]
        PROP.task("storage of fields %s in %dD" % ("".join(map(str, la)), dim), "m_alloc", [K("dim", dim), K("na", n), IA_("la", n, "in", val=la), IA_("ka", n, "in", val=ka), In("nn", 1, NMAX),
                  IA_("r", n, "out"), IA_("s", n, "out"), IA_("g", n, "out")], post=post, ret=None)

PICK = [((0, 1, 3), 1, 2), ((0, 3, 1), 1, 2), ((1, 1, 3), 1, 0), ((1, 2, 0), 0, 1), ((3, 2, 1), 1, 5), ((2, 3, 1), 1, 8), ((3, 3, 3), 2, 3), ((0, 0, 5), 2, 1), ((4, 1, 0), 2, 0), ((6, 3, 0), 0, 2)]
for dim in (2, 3):
    for k, f, q in PICK:
        q = min(q, SIZE[dim][k[f]] - 1)
        PROP.task("output of component %d of field %d of %s in %dD" % (q, f, "".join(map(str, k)), dim), "m_nodeout",
                  [K("dim", dim)] + [K("k%d" % i, k[i]) for i in range(3)] + [K("f", f), K("q", q), In("nn", 1, NMAX)]
                  + [RA("d%d" % i, lambda v, i=i, k=k, dim=dim: imul(v.nn, SIZE[dim][k[i]])) for i in range(3)] + [F1("o", "out")],
                  post=lambda v, dim=dim, k=k, f=f, q=q: [("written", ieq(v.ret, 0)), ("values", ALL(0, v.nn, lambda i: req(v.new("o")[i], getattr(v, "d%d" % f)[iadd(imul(SIZE[dim][k[f]], i), q)])))], ret="int")
for (k0, k1), f, p, q in (((0, 1), 0, 0, 0), ((0, 1), 1, 1, 2), ((3, 2), 0, 0, 8), ((3, 2), 1, 0, 3), ((3, 2), 1, 1, 5), ((2, 2), 1, 1, 0), ((3, 3), 1, 1, 6), ((5, 0), 0, 1, 1)):
    sz = [SIZE[3][k0], SIZE[3][k1]]
    tot = 2 * sum(sz)
    off = p * sum(sz) + (sz[0] if f else 0) + q
    PROP.task("output of element data %d of %d%d at point %d" % (q, k0, k1, p) + " field %d" % f, "m_elemout",
              [K("k0", k0), K("k1", k1), K("f", f), K("p", p), K("q", q), In("ne", 1, NMAX), RA("d", lambda v, tot=tot: imul(tot, v.ne)), RA("o", lambda v: v.ne, "out")],
              post=lambda v, tot=tot, off=off: [("written", ieq(v.ret, 0)), ("values", ALL(0, v.ne, lambda i: req(v.new("o")[i], v.d[iadd(imul(tot, i), off)])))], ret="int")
