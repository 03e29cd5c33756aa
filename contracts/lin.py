"""sparse matrices: what a well formed row-compressed matrix is"""
from spec import *

NMAX = 1 << 20
NR = In("nr", 1, NMAX)
NNZ = In("nnz", 1, NMAX)
A = RA("a", lambda v: v.nnz)
AIO = RA("a", lambda v: v.nnz, "inout")
II = IA_("ii", lambda v: v.nnz, lo=0, hi=lambda v: v.nr)
JJ = IA_("jj", lambda v: v.nnz, lo=0, hi=lambda v: v.nr)
FIRST = IA_("first", lambda v: iadd(v.nr, 1), lo=0, hi=lambda v: iadd(v.nnz, 1))
SHAPE = [NR, NNZ, A, II, JJ, FIRST]
SHAPE_IO = [NR, NNZ, AIO, II, JJ, FIRST]
IDX = [NR, NNZ, II, JJ, FIRST]


def wf(v):
    """rows stored one after the other, none empty, column numbers increasing within a row"""
    return [ieq(v.first[0], 0), ieq(v.first[v.nr], v.nnz),
            ALL(0, v.nr, lambda r: ilt(v.first[r], v.first[iadd(r, 1)])),
            ALL(0, v.nnz, lambda k: band(ile(v.first[v.ii[k]], k), ilt(k, v.first[iadd(v.ii[k], 1)]))),
            ieq(v.ii[0], 0), ieq(v.ii[isub(v.nnz, 1)], isub(v.nr, 1)),
            ALL(0, isub(v.nnz, 1), lambda k: band(ile(v.ii[k], v.ii[iadd(k, 1)]), ile(v.ii[iadd(k, 1)], iadd(v.ii[k], 1)))),
            ALL(0, v.nr, lambda r: ALL(v.first[r], v.first[iadd(r, 1)], lambda k: ieq(v.ii[k], r))),
            ]


def sorted_cols(v):
    return [ALL(0, v.nr, lambda r: ALL(v.first[r], v.first[iadd(r, 1)], lambda k: ALL(v.first[r], k, lambda l: ilt(v.jj[l], v.jj[k]))))]


def gen_crs_of(nr, pairs, rng):
    l = sorted(pairs)
    first = [0] * (nr + 1)
    for r, c in l:
        first[r + 1] += 1
    for r in range(nr):
        first[r + 1] += first[r]
    return {"nr": nr, "nnz": len(l), "ii": [r for r, c in l], "jj": [c for r, c in l], "first": first, "a": [rng.uniform(.5, 3) * rng.choice([1, -1]) for _ in l]}


def _pos(env, r, c):
    f, jj = env.arrays["first"], env.arrays["jj"]
    for k in range(int(f(int(r))), int(f(int(r) + 1))):
        if jj(k) == c:
            return k
    raise KeyError("entry (%d,%d) not stored" % (r, c))


_pos.needs_env = True
import terms as _t
_t.FN["pos"] = _pos
_t.FN_RANGE["pos"] = (0, ivar("nnz"))


def c_find(ex, st, a):
    """FindIndex(r, c): the position of the entry (r, c), which the caller knows to be stored"""
    return ifn("pos", a[1], a[2])


find_contract = (r"CRSMatrixContainer::FindIndex\(", c_find)


def gen_crs(rng, diag=False):
    """small matrices of any pattern; now and then a wide one with some long rows"""
    wide = rng.random() < .15
    nr = rng.choice([20, 90, 200]) if wide else rng.randrange(1, 7)
    ii, jj, first = [], [], [0]
    for r in range(nr):
        n = rng.randrange(1, (nr if not wide or rng.random() < .05 else 4) + 1)
        cols = sorted(set([rng.randrange(nr) for _ in range(n)] + ([r] if diag else [])))
        if rng.random() < (.05 if wide else .2):
            cols = list(range(nr))
        ii += [r] * len(cols)
        jj += cols
        first.append(len(ii))
    return {"nr": nr, "nnz": len(ii), "ii": ii, "jj": jj, "first": first, "a": [rng.uniform(.5, 3) * rng.choice([1, -1]) for _ in ii]}
