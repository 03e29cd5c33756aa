"""C24: sums over the ranks that share a node"""
from lin import *
import hoare
import terms as _t

PROP = Property("C24", "h_mpi.cc")
NMAX = 2 ** 24


def ghost(v, nc):
    """own[n]: the clique of node n (nc: none), w[n]: its place there"""
    r = []
    for k in range(nc):
        n, i = getattr(v, "n%d" % k), getattr(v, "i%d" % k)
        r.append(ALL(0, n, lambda p, i=i, k=k: band(ieq(v.own[i[p]], k), ieq(v.w[i[p]], p))))
        r.append(ALL(0, v.nn, lambda q, i=i, n=n, k=k: bor(bnot(ieq(v.own[q], k)), band(ilt(v.w[q], n), ieq(i[v.w[q]], q)))))
    return r


def summed(v, fs, nc, q, c):
    """component c of node q after the reduction"""
    x = v.data[fs * q + c]
    for k in range(nc):
        x = ite(ieq(v.own[q], k), v.data[fs * q + c] + getattr(v, "o%d" % k)[fs * v.w[q] + c], x)
    return x


def post_reduce(fs, nc):
    return lambda v: [("component %d" % c, ALL(0, v.nn, lambda q, c=c: req(v.new("data")[fs * q + c], summed(v, fs, nc, q, c)))) for c in range(fs)]


def gen_reduce(fs, nc):
    def gen(rng):
        nn = rng.randrange(1, 8)
        l = list(range(nn))
        rng.shuffle(l)
        g = {"nn": nn, "data": [rng.uniform(-1, 1) for _ in range(fs * nn)], "own": [2] * nn, "w": [0] * nn}
        for k in range(2):
            m = rng.randrange(0, len(l) + 1) if k < nc else 0
            g["n%d" % k], g["i%d" % k] = m, l[:m]
            for p, q in enumerate(l[:m]):
                g["own"][q], g["w"][q] = k, p
            l = l[m:]
            g["o%d" % k] = [rng.uniform(-1, 1) for _ in range(fs * m)]
        return g
    return gen


def params(fs, view, nc, d):
    ps = [K("fs", fs), K("view", view), In("nn", 0, NMAX), RA("data", lambda v: fs * v.nn, "inout"), K("nc", nc)]
    for k in range(2):
        ps += [In("n%d" % k, 0, NMAX) if k < nc else K("n%d" % k, 0), IA_("i%d" % k, lambda v, k=k: getattr(v, "n%d" % k), lo=0, hi=lambda v: v.nn), RA("o%d" % k, lambda v, k=k: fs * getattr(v, "n%d" % k)), K("d%d" % k, d[k])]
    return ps + [IA_("w", lambda v: v.nn, lo=0, hi=NMAX), IA_("own", lambda v: v.nn, lo=0, hi=3)]


def unpack_inv(fs):
    """after k nodes of a clique: those hold the sums"""
    def inv(env):
        v = env.v
        for a in env.arrs:
            if env.objname(a) == "data":
                old = env.init(a)
                for k in range(2):
                    if not hasattr(v, "o%d" % k):
                        continue
                    yield ("define", "sums of clique %d" % k, a, lambda s, k=k: lambda q: ite(band(ieq(v.own[idiv(q, fs)], k), ilt(v.w[idiv(q, fs)], s("k"))), v.data[q] + getattr(v, "o%d" % k)[fs * v.w[idiv(q, fs)] + irem(q, fs)], old(q)))
    return inv


def task(fs, view, nc, d, what):
    PROP.task("%d values per node%s, %s" % (fs, " in a view" if view else "", what), "r_reduce", params(fs, view, nc, d), pre=lambda v: ghost(v, nc), post=post_reduce(fs, nc), ret="int", throws=lambda v: False, gen=gen_reduce(fs, nc),
              invariants=[("unpack", hoare.invariant(unpack_inv(fs), only=0))])


for fs in (1, 2, 3):
    for view in (0, 1):
        task(fs, view, 1, (0, 0), "one clique")
        if fs == 3:
            task(fs, view, 2, (0, 0), "two cliques")
task(3, 0, 2, (2, 0), "two cliques, the first late")
task(3, 1, 2, (0, 3), "two cliques, the second late")
task(3, 0, 0, (0, 0), "no clique")
for fs in (1, 2, 3):
    PROP.task("%d values per node, reduced at once" % fs, "r_pack",
              [K("fs", fs), In("nn", 0, NMAX), RA("data", lambda v, fs=fs: fs * v.nn, "inout"), In("n0", 0, NMAX), IA_("i0", lambda v: v.n0, lo=0, hi=lambda v: v.nn), RA("o0", lambda v, fs=fs: fs * v.n0), IA_("w", lambda v: v.nn, lo=0, hi=NMAX), IA_("own", lambda v: v.nn, lo=0, hi=3)],
              pre=lambda v: ghost(v, 1), post=post_reduce(fs, 1), ret="int", throws=lambda v: False, gen=gen_reduce(fs, 1), invariants=[("unpack", hoare.invariant(unpack_inv(fs), only=0))])
for bad in (-1, 0, 4):
    PROP.task("%d values per node are refused" % bad, "r_reduce", [K("fs", bad), K("view", 0), In("nn", 0, 9), RA("data", lambda v: 4 * v.nn, "inout"), K("nc", 0)] + params(3, 0, 0, (0, 0))[5:],
              post=lambda v: [], ret="int", throws=lambda v: True, gen=lambda rng: dict(gen_reduce(3, 0)(rng), nn=2, data=[0.] * 8, w=[0, 0], own=[2, 2]))


# which rank counts a shared node: the lowest of those that share it
def minimum(v, p, n):
    x = getattr(v, p)[0]
    for k in range(1, n):
        y = getattr(v, p)[k]
        x = iite(ilt(y, x), y, x)
    return x


def post_owner(a, b):
    def post(v):
        n = iadd(v.n, v.m)
        return [("number of shared nodes", ieq(v.ret, n)),
                ("nodes of the first clique", ALL(0, v.n, lambda k: band(ieq(v.new("out")[k], v.idx[k]), ieq(v.new("rank")[k], minimum(v, "r", a))))),
                ("nodes of the second clique", ALL(0, v.m, lambda k: band(ieq(v.new("out")[iadd(v.n, k)], v.jdx[k]), ieq(v.new("rank")[iadd(v.n, k)], minimum(v, "s", b)))))]
    return post


for a, b, n, m in ((1, 2, 2, 1), (2, 3, 0, 3), (2, 2, 1, 2)):
    PROP.task("%d nodes of %d ranks and %d of %d" % (n, a, m, b), "r_owner", [K("n", n), IA_("idx", lambda v: v.n), K("size", a), IA_("r", a, lo=0, hi=99), K("m", m), IA_("jdx", lambda v: v.m), K("size2", b), IA_("s", b, lo=0, hi=99, val=[7, 2, 5] if b == 3 else None),
                                                                 IA_("out", lambda v: iadd(v.n, v.m), "out"), IA_("rank", lambda v: iadd(v.n, v.m), "out")], ret="int", post=post_owner(a, b), bounded="at most 3 nodes in a clique")


# ---- which nodes are shared with whom: every shared node of several ranks in exactly one communicator, which has those ranks ----
def post_group(lists):
    R = len(lists)
    where = [(k, g) for k in range(R) for g in lists[k]]
    gid = {}
    for p, (k, g) in enumerate(where):
        gid.setdefault(g, []).append(p)

    def post(v):
        comm, place, twice, size, member, splits = [v.new(x) for x in ("comm", "place", "twice", "size", "member", "splits")]
        r = []
        for g, ps in sorted(gid.items()):
            c = comm[ps[0]]
            c0 = iite(ilt(c, 0), 0, c)
            in_ = lambda k: ile(0, member[iadd(imul(R, c0), k)])
            ranks = [where[p][0] for p in ps]
            if len(ps) == 1:
                r.append(("node %d of one rank is not added to" % g, bor(ilt(c, 0), band(*[bnot(in_(k)) for k in range(R) if k != ranks[0]]))))
                continue
            r.append(("node %d in a communicator" % g, ile(0, c)))
            for p in ps:
                r.append(("node %d in one place of one communicator" % g, band(ieq(comm[p], c), ieq(twice[p], 0), ieq(place[p], place[ps[0]]))))
            for k in range(R):
                r.append(("node %d: rank %d takes part exactly if it has the node" % (g, k), in_(k) if k in ranks else bnot(in_(k))))
                if k in ranks:
                    r.append(("node %d: as many nodes from rank %d" % (g, k), ieq(size[iadd(imul(R, c0), k)], size[iadd(imul(R, c0), ranks[0])])))
                    r.append(("node %d: one colour for rank %d" % (g, k), ieq(member[iadd(imul(R, c0), k)], member[iadd(imul(R, c0), ranks[0])])))
        for k in range(R):
            r.append(("rank %d makes the same calls" % k, ieq(splits[k], splits[0])))
        return r
    return post


def group(what, lists, **kw):
    R, n = len(lists), sum(map(len, lists))
    PROP.task("shared nodes: " + what, "r_group", [K("R", R), IA_("counts", R, val=[len(l) for l in lists]), IA_("gids", n, val=[g for l in lists for g in l]), IA_("comm", n, "out"), IA_("place", n, "out"), IA_("twice", n, "out"),
                                                   IA_("size", 64 * R, "out"), IA_("member", 64 * R, "out"), IA_("splits", R, "out")], ret="int", throws=lambda v: False, post=post_group(lists), bounded="listed layouts of at most 4 ranks", **kw)


group("one rank", [[3, 0, 7]])
group("two ranks, no node shared", [[0, 1], [2, 3]])
group("two ranks", [[0, 1, 2, 5], [5, 3, 2, 4]])
group("two ranks with the same nodes", [[4, 2, 9], [9, 4, 2]])
group("three ranks in a row", [[0, 1], [1, 2], [2, 3]])
group("three ranks with a common node", [[0, 1, 2], [2, 1, 3], [3, 1, 4, 0]])
group("a rank without nodes", [[1, 0], [], [0, 2, 1]])
group("four ranks around an edge", [[0, 1, 2, 3, 10, 11], [1, 4, 3, 5, 11, 12], [2, 3, 6, 7, 10], [3, 5, 7, 8, 12]])
group("ids far apart", [[1000000, 5, 70000], [70000, 123456, 1000000], [5, 1000000]])


def gen_group(rng):
    N = rng.randrange(2, 12)
    base = rng.choice([0, 0, 1000])
    l = [[base + x for x in rng.sample(range(N), rng.randrange(0, N + 1))] for _ in range(4)]
    return dict(R=4, counts=[len(x) for x in l], total=sum(map(len, l)), gids=[g for x in l for g in x])


def sampled(v):
    l, p = [], 0
    for k in range(4):
        l.append([v.gids[p + j] for j in range(v.counts[k])])
        p += v.counts[k]
    return post_group(l)(v)


N4 = lambda v: sum(v.counts[k] for k in range(4))
PROP.task("shared nodes: sampled layouts of four ranks", "r_group", [K("R", 4), IA_("counts", 4, lo=0, hi=13), IA_("gids", N4), IA_("comm", N4, "out"), IA_("place", N4, "out"), IA_("twice", N4, "out"),
                                                                    IA_("size", 256, "out"), IA_("member", 256, "out"), IA_("splits", 4, "out")], ret="int", throws=lambda v: False, post=sampled, gen=gen_group, native_only=True, max_random=3000)
