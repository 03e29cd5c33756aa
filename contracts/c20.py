"""C20: labels name the stored components, and element data are laid out, initialised and averaged by label"""
from lin import *
import terms as _t

PROP = Property("C20", "h_data.cc")
_t.FN["vf_vol"] = lambda a, b, c: 1.0 + 0.5 * a - b + 2 * c
_t.FN["vf_avg"] = lambda x, v, *q: x + 0.25 * v + sum((i + 1) * (-1) ** i * c for i, c in enumerate(q))
GHOST = [(r"^%s$" % n, lambda ex, st, a, n=n: rfn(n, *a)) for n in ("vf_vol", "vf_avg")]

# the components in the order they are stored in (K_F_*, K_S_* of nimble_utils.h)
SYM3, FULL3 = ["xx", "yy", "zz", "xy", "yz", "zx"], ["xx", "yy", "zz", "xy", "yz", "zx", "yx", "zy", "xz"]
COMP = {3: [[""], ["x", "y", "z"], SYM3, FULL3], 2: [[""], ["x", "y"], ["xx", "yy", "xy"], ["xx", "yy", "xy", "yx"]]}
NAMES = ["stress", "u", "deformation_gradient", "a_long_label_that_does_not_fit_into_a_short_string"]


def comps(dim, k):
    return COMP[dim][k] if k < 4 else [str(i + 1) for i in range(k - 3)]


def chars(s):
    return [ord(c) for c in s]


def S(nm, s):
    return IA_(nm, len(s) + 1, "in", val=chars(s) + [0])


def lines(*ls):
    return chars("".join(l + "\n" for l in ls))


def text(v, want, ret=True):
    o = v.new("o")
    r = [("text", band(*[ieq(o[i], c) for i, c in enumerate(want)]))]
    return ([("length of the text", ieq(v.ret, len(want)))] if ret else []) + r


for dim in (2, 3):
    for k in list(range(14)) + [23]:
        w = comps(dim, k)
        PROP.task("number of components, kind %d in %dD" % (k, dim), "l_int", [K("dim", dim), K("k", k)], post=lambda v, w=w: [("number", ieq(v.ret, len(w)))], ret="int")
        for s in NAMES[:1] if k > 3 else NAMES:
            want = lines(*[s + ("_" + c if c else "") for c in w])
            PROP.task("labels of %s, kind %d in %dD" % (s, k, dim), "l_all", [K("dim", dim), K("k", k), S("s", s), IA_("o", len(want), "out")], post=lambda v, want=want: text(v, want), ret="int")
        for c in range(len(w)) if k < 4 else ():
            for p in ((1, 8, 10, 27) if c == 1 else (1 + (c + k) % 8,)):
                want = lines("ipt%02d_stress" % p + ("_" + w[c] if w[c] else ""))
                PROP.task("label of component %d, kind %d in %dD at point %d" % (c, k, dim, p), "l_one", [K("dim", dim), K("k", k), K("c", c), K("p", p), S("s", "stress"), IA_("o", len(want), "out")],
                          post=lambda v, want=want: text(v, want), ret="int")
for dim, k in ((1, 1), (4, 2), (3, -1), (2, -1)):
    PROP.task("no number of components: %d %d" % (dim, k), "l_int", [K("dim", dim), K("k", k)], post=lambda v: [], ret="int", throws=lambda v: True)
for s in ("stress", "xiptx", "q9", "deformation_gradient_xx", "12", "i", "ip_t"):
    for p in (0, 1, 5, 8, 9, 10, 27, 99, 100, 1234):
        want = lines("ipt%02d_%s" % (p, s), s, s)
        PROP.task("prefix %d of %s" % (p, s), "l_prefix", [K("p", p), S("s", s), IA_("o", len(want), "out"), IA_("r", 3, "out")],
                  post=lambda v, want=want, p=p: text(v, want) + [("number", ieq(v.new("r")[0], p)), ("has a prefix", ieq(v.new("r")[1], 1)), ("has none", ieq(v.new("r")[2], 0))], ret="int")
for s, k in (("stress", 2), ("ipt07_stress", 2), ("deformation_gradient", 3), ("ipt02_deformation_gradient", 3), ("ipt11_deformation_gradient", 3), ("displacement", 1), ("alpha", 0), ("ipt01_alpha", 0)):
    PROP.task("length of " + s, "l_length", [K("dim", 3), S("s", s)], post=lambda v, k=k: [("length", ieq(v.ret, k))], ret="int")
for s in ("stres", "stress_xx", "beta", ""):
    PROP.task("no length: '%s'" % s, "l_length", [K("dim", 3), S("s", s)], post=lambda v: [], ret="int", throws=lambda v: True)

STATE = ["alpha", "global_elem_id", "ipt_id", "beta"]


def layout(nq):
    return ["deformation_gradient_" + c for c in FULL3] + ["stress_" + c for c in SYM3] + STATE[:nq]


for nq, want in ((0, ""), (0, "volume "), (1, "stress_xx "), (2, "stress_zx volume alpha "), (4, "volume beta ipt_id ")):
    def post(v, nq=nq):
        L = layout(nq)
        m = len(L)
        txt = lines(*["ipt01_" + l for l in L], "ipt08_" + L[-1])
        F, Sg, Q = v.new("F"), v.new("S"), v.new("Q")
        out = [("layout", ieq(v.ret, -len(txt)))] + text(v, txt, False)
        out.append(("offsets of the deformation gradient", band(*[ieq(F[9 * p + c], m * p + c) for p in range(8) for c in range(9)])))
        out.append(("offsets of the stress", band(*[ieq(Sg[6 * p + c], m * p + 9 + c) for p in range(8) for c in range(6)])))
        if nq:
            out.append(("offsets of the state", band(*[ieq(Q[nq * p + c], m * p + 15 + c) for p in range(8) for c in range(nq)])))

        def init(p, c, e):
            if c < 3:
                return Fr(1)
            if c < 15:
                return Fr(0)
            return {"alpha": Fr(13, 4), "global_elem_id": i2r(v.ids[e]), "ipt_id": Fr(p + 1), "beta": Fr(25, 4)}[L[c]]
        for nm in ("n", "np1"):
            for p in range(8):
                out.append(("initial values (%s) at point %d" % (nm, p + 1), ALL(0, v.ne, lambda e: band(*[req(v.new(nm)[iadd(imul(8 * m, e), p * m + c)], init(p, c, e)) for c in range(m)]))))
        return out
    PROP.task("element data with %d state variables, derived '%s'" % (nq, want.strip()), "d_init",
              [K("nq", nq), In("ne", 1, NMAX), IA_("ids", lambda v: v.ne, "in", 0, NMAX), S("want", want), RA("n", lambda v, nq=nq: imul(8 * (15 + nq), v.ne), "out"),
               RA("np1", lambda v, nq=nq: imul(8 * (15 + nq), v.ne), "out"), IA_("F", 72, "inout"), IA_("S", 48, "inout"), IA_("Q", 8 * nq + 1, "inout"), IA_("o", 1000, "inout")],
              post=post, ret="int", timeout=200)

for nq, want in ((0, "volume "), (0, "stress_xx "), (0, "stress_zx volume deformation_gradient_xz "), (2, "alpha stress_yz volume "), (1, "volume deformation_gradient_yx alpha "), (0, "")):
    def post(v, nq=nq, want=want.split()):
        L = layout(nq)
        m = len(L)
        out = [("sizes", ieq(v.ret, 0))]
        for k, w in enumerate(want):
            def val(e, w=w):
                x = lambda a, j: radd(v.X[iadd(imul(3, v.conn[iadd(imul(8, e), a)]), j)], v.u[iadd(imul(3, v.conn[iadd(imul(8, e), a)]), j)])
                if w == "volume":
                    return rfn("vf_vol", x(0, 0), x(2, 1), x(7, 2))
                return rfn("vf_avg", x(0, 1), x(7, 1), *[v.q[iadd(imul(8 * m, e), p * m + L.index(w))] for p in range(8)])
            out.append((w, ALL(0, v.ne, lambda e: req(v.new("r%d" % k)[e], val(e)))))
        return out
    PROP.task("derived data '%s' with %d state variables" % (want.strip(), nq), "d_derive",
              [K("nq", nq), In("nn", 1, NMAX), In("ne", 1, NMAX), S("want", want), K("nw", len(want.split())), IA_("conn", lambda v: imul(8, v.ne), "in", 0, lambda v: v.nn),
               RA("X", lambda v: imul(3, v.nn)), RA("u", lambda v: imul(3, v.nn)), RA("q", lambda v, nq=nq: imul(8 * (15 + nq), v.ne))] + [RA("r%d" % i, lambda v: v.ne, "inout") for i in range(3)],
              post=post, ret="int", contracts=GHOST, timeout=200)


def request(want):
    node = {"displacement": COMP[3][1], "lumped_mass": [""]}
    join = lambda s, c: s + ("_" + c if c else "")
    fields = lambda b: {"deformation_gradient": FULL3, "stress": SYM3, **{s: [""] for s in STATE[:(1, 2)[b]]}}
    out, el, der = [], ([], []), ([], [])
    for w in want.split(" ") if want else ():
        comp = [join(s, c) for s, l in node.items() for c in l]
        if w in comp:
            out.append(w)
            continue
        if w in node:
            out += [join(w, c) for c in node[w]]
            continue
        for b in (0, 1):
            ec = [join(s, c) for s, l in fields(b).items() for c in l]
            if w == "volume" or w in ec:
                der[b].append(w)
            elif w in fields(b):
                der[b].extend(x for x in [join(w, c) for c in fields(b)[w]] if x not in der[b])
            elif w[:3] == "ipt" and w[6:] in ec:
                el[b].append(w)
            elif w[:3] == "ipt" and w[6:] in fields(b):
                el[b].extend(w[:6] + join(w[6:], c) for c in fields(b)[w[6:]])
    return lines(*out, "-", *el[0], "/", *der[0], "-", *el[1], "/", *der[1])


for w in ("displacement", "displacement_y lumped_mass", "volume stress", "stress_xx stress deformation_gradient_zy", "ipt03_stress_yz displacement_z", "ipt08_deformation_gradient volume", "alpha global_elem_id",
          "ipt02_global_elem_id ipt01_alpha", ""):
    want = request(w)
    PROP.task("requested output '%s'" % w, "d_request", [S("want", w), IA_("o", len(want), "out")], post=lambda v, want=want: text(v, want), ret="int", timeout=200)
for w in ("stres", "ipt09_stress", "displacement ipt01_beta", "velocity"):
    PROP.task("no output '%s'" % w, "d_request", [S("want", w), IA_("o", 200, "inout")], post=lambda v: [], ret="int", throws=lambda v: True, timeout=200)
