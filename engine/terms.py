"""Terms of the verifier: integers, reals and booleans.

* integer terms are kept in polynomial normal form over integer atoms
* real terms are a hash-consed DAG; `rpoly` gives the exact polynomial /
  rational normal form used by the algebraic back end
* Sum terms  sum_{k=0}^{n-1} body(k)  are the closed form of accumulation loops

Floating-point doubles of the program are treated as mathematical reals.
"""
from fractions import Fraction
import math

_ids = [0]


def _nid():
    _ids[0] += 1
    return _ids[0]


class Unsupported(Exception):
    pass


class TooBig(Exception):
    pass


# --------------------------------------------------------------------------
# integer terms
# --------------------------------------------------------------------------
class IA:
    """integer atom"""
    __slots__ = ("id", "op", "args", "fv")
    tab = {}
    byid = {}

    @staticmethod
    def mk(op, *args):
        k = (op,) + tuple(_key(a) for a in args)
        a = IA.tab.get(k)
        if a is None:
            a = IA()
            a.id = _nid()
            a.op = op
            a.args = args
            a.fv = None
            IA.tab[k] = a
            IA.byid[a.id] = a
        return a

    def __repr__(self):
        if self.op == "v":
            return self.args[0]
        return "%s(%s)" % (self.op, ", ".join(map(str, self.args)))


class I:
    """integer polynomial: tuple of (monomial, coeff); monomial = sorted tuple of atom ids"""
    __slots__ = ("id", "m")
    tab = {}

    def __add__(a, b): return iadd(a, b)
    def __radd__(a, b): return iadd(b, a)
    def __sub__(a, b): return isub(a, b)
    def __rsub__(a, b): return isub(b, a)
    def __mul__(a, b): return imul(a, b)
    def __rmul__(a, b): return imul(b, a)
    def __neg__(a): return ineg(a)

    @staticmethod
    def mk(d):
        d = {k: v for k, v in d.items() if v != 0}
        if not d:
            return 0
        if len(d) == 1 and () in d:
            return d[()]
        key = tuple(sorted(d.items()))
        t = I.tab.get(key)
        if t is None:
            t = I()
            t.id = _nid()
            t.m = dict(d)
            I.tab[key] = t
        return t

    def __repr__(self):
        s = []
        for m, c in sorted(self.m.items()):
            f = "*".join(repr(IA.byid[a]) for a in m)
            if not m:
                s.append(str(c))
            elif c == 1:
                s.append(f)
            else:
                s.append("%d*%s" % (c, f))
        return "(" + " + ".join(s) + ")"


def _key(a):
    if isinstance(a, (I, IA, R, B)):
        return ("#", a.id)
    if isinstance(a, bool):
        return ("b", a)
    if isinstance(a, (tuple, list)):
        return tuple(_key(x) for x in a)
    return a


def is_int(x):
    return isinstance(x, (int, I)) and not isinstance(x, bool)


def iatom(a):
    return I.mk({(a.id,): 1})


def ivar(name):
    return iatom(IA.mk("v", name))


def _ip(x):
    return x.m if isinstance(x, I) else ({(): x} if x else {})


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    d = dict(_ip(a))
    for k, v in _ip(b).items():
        d[k] = d.get(k, 0) + v
    return I.mk(d)


def ineg(a):
    if isinstance(a, int):
        return -a
    return I.mk({k: -v for k, v in a.m.items()})


def isub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    d = dict(_ip(a))
    for k, v in _ip(b).items():
        d[k] = d.get(k, 0) - v
    return I.mk(d)


def imul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        return I.mk({k: v * b for k, v in a.m.items()})
    d = {}
    for k1, v1 in a.m.items():
        for k2, v2 in b.m.items():
            k = tuple(sorted(k1 + k2))
            d[k] = d.get(k, 0) + v1 * v2
    return I.mk(d)


def iite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a == b:
        return a
    if c.op == "not":
        return iite(c.args[0], b, a)
    if isinstance(a, int) and isinstance(b, int):
        return iadd(b, imul(a - b, iatom(IA.mk("b2i", c))))
    return iatom(IA.mk("ite", c, a, b))


def b2i(c):
    if c is True:
        return 1
    if c is False:
        return 0
    if c.op == "not":
        return isub(1, b2i(c.args[0]))
    return iatom(IA.mk("b2i", c))


def iexactdiv(a, k):
    """a / k if every coefficient is divisible by k, else None"""
    if isinstance(a, int):
        return a // k if a % k == 0 else None
    d = {}
    for m, c in a.m.items():
        if c % k:
            return None
        d[m] = c // k
    return I.mk(d)


def idivrem_const(a, k):
    """split a = k*q + r where r is the constant remainder in [0,k) and every
    non-constant coefficient is divisible by k; None otherwise"""
    if isinstance(a, int):
        return a // k, a % k
    d = {}
    r = 0
    for m, c in a.m.items():
        if m == ():
            r = c % k
            d[m] = c // k
        elif c % k:
            return None
        else:
            d[m] = c // k
    return I.mk(d), r


# --------------------------------------------------------------------------
# real terms
# --------------------------------------------------------------------------
class R:
    __slots__ = ("id", "op", "args", "poly", "size")
    tab = {}

    @staticmethod
    def mk(op, *args):
        k = (op,) + tuple(_key(a) for a in args)
        t = R.tab.get(k)
        if t is None:
            t = R()
            t.id = _nid()
            t.op = op
            t.args = args
            t.poly = None
            R.tab[k] = t
        return t

    def __repr__(self):
        return brief(lambda: rstr(self))

    # operator sugar for the contracts
    def __add__(a, b): return radd(a, b)
    def __radd__(a, b): return radd(b, a)
    def __sub__(a, b): return rsub(a, b)
    def __rsub__(a, b): return rsub(b, a)
    def __mul__(a, b): return rmul(a, b)
    def __rmul__(a, b): return rmul(b, a)
    def __truediv__(a, b): return rdiv(a, b)
    def __rtruediv__(a, b): return rdiv(b, a)
    def __neg__(a): return rneg(a)

    def __pow__(a, n):
        r = 1
        for _ in range(n):
            r = rmul(r, a)
        return r


_brief = [0, 0]


def brief(f):
    """text of a term; shared subterms make full texts exponentially long"""
    if _brief[0] == 0:
        _brief[1] = 0
    _brief[1] += 1
    if _brief[1] > 500:
        return "..."
    _brief[0] += 1
    try:
        return f()
    finally:
        _brief[0] -= 1


def rstr(t, depth=6):
    if not isinstance(t, R):
        return str(t)
    if depth == 0:
        return "..."
    if t.op == "v":
        return t.args[0]
    f = lambda x: rstr(x, depth - 1)
    if t.op in ("add", "sub", "mul", "div"):
        return "(%s %s %s)" % (f(t.args[0]), {"add": "+", "sub": "-", "mul": "*", "div": "/"}[t.op], f(t.args[1]))
    return "%s(%s)" % (t.op, ", ".join(f(a) if isinstance(a, R) else str(a) for a in t.args))


NUM = (int, Fraction)


def is_num(x):
    return isinstance(x, NUM) and not isinstance(x, bool)


ZERO = Fraction(0)
ONE = Fraction(1)


def rconst(x):
    """real constants are Fractions: a Python int is an integer of the program"""
    if isinstance(x, (float, int)) and not isinstance(x, bool):
        x = Fraction(x)
    return x


def cint(c):
    """coefficient: Fractions with denominator 1 as ints (faster)"""
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def rvar(name):
    return R.mk("v", name)


def radd(a, b):
    if is_num(a):
        if is_num(b):
            return rconst(a + b)
        if a == 0:
            return b
    elif is_num(b) and b == 0:
        return a
    if isinstance(a, float) or isinstance(b, float):
        return radd(rconst(a), rconst(b))
    if is_num(a):
        a, b = b, a
    return R.mk("add", a, b)


def rsub(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return rsub(rconst(a), rconst(b))
    if is_num(b):
        if is_num(a):
            return rconst(a - b)
        if b == 0:
            return a
        return R.mk("add", a, -b)
    if is_num(a) and a == 0:
        return rneg(b)
    if a is b:
        return ZERO
    return R.mk("sub", a, b)


def rneg(a):
    return rmul(-1, a)


def rmul(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return rmul(rconst(a), rconst(b))
    if is_num(b):
        a, b = b, a
    if is_num(a):
        if is_num(b):
            return rconst(a * b)
        if a == 0:
            return ZERO
        if a == 1:
            return b
        if b.op == "mul" and is_num(b.args[0]):
            return rmul(rconst(a * b.args[0]), b.args[1])
    return R.mk("mul", a, b)


def rdiv(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return rdiv(rconst(a), rconst(b))
    if is_num(b):
        if b == 0:
            return R.mk("fn", "div0", (a,))
        return rmul(rconst(Fraction(1) / Fraction(b)), a)
    if is_num(a) and a == 0:
        return ZERO
    return R.mk("div", a, b)


def rite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (is_num(a) and is_num(b) and a == b):
        return a
    if c.op == "not":
        return rite(c.args[0], b, a)
    if c.op in ("rlt", "rle"):
        x, y = c.args
        if (x is a or (is_num(x) and is_num(a) and x == a)) and (y is b or (is_num(y) and is_num(b) and y == b)):
            return rmnx("min", a, b)
        if (x is b or (is_num(x) and is_num(b) and x == b)) and (y is a or (is_num(y) and is_num(a) and y == a)):
            return rmnx("max", a, b)
    return R.mk("ite", c, a, b)


def rmnx(kind, *xs):
    """min / max of finitely many reals, flattened"""
    s = {}
    k = None
    st = list(xs)
    while st:
        x = st.pop()
        if isinstance(x, int):
            x = Fraction(x)
        if isinstance(x, R) and x.op == "fn" and x.args[0] == kind:
            st.extend(x.args[1])
        elif is_num(x):
            k = x if k is None else (min(k, x) if kind == "min" else max(k, x))
        else:
            s[x.id] = x
    l = [s[i] for i in sorted(s)]
    if k is not None:
        l = [k] + l
    if len(l) == 1:
        return l[0]
    return R.mk("fn", kind, tuple(l))


def rmin(*xs):
    return rmnx("min", *xs)


def rmax(*xs):
    return rmnx("max", *xs)


def rfn(name, *args):
    if name in ("min", "max"):
        return rmnx(name, *args)
    if all(is_num(a) for a in args):
        if name == "sqrt":
            f = Fraction(args[0])
            n, d = math.isqrt(max(f.numerator, 0)), math.isqrt(f.denominator)
            if f >= 0 and n * n == f.numerator and d * d == f.denominator:
                return rconst(Fraction(n, d))
        if name == "fabs":
            return rconst(abs(args[0]))
        if name == "floor":
            return rconst(math.floor(args[0]))
        if name == "ceil":
            return rconst(math.ceil(args[0]))
    return R.mk("fn", name, tuple(args))


def rsqrt(a):
    return rfn("sqrt", a)


def i2r(a):
    if isinstance(a, int):
        return Fraction(a)
    return R.mk("i2r", a)


def rsel(arr, *idx):
    return R.mk("sel", arr, tuple(idx))


def isel(arr, *idx):
    return iatom(IA.mk("sel", arr, tuple(idx)))


# --------------------------------------------------------------------------
# booleans
# --------------------------------------------------------------------------
class B:
    __slots__ = ("id", "op", "args")
    tab = {}

    @staticmethod
    def mk(op, *args):
        k = (op,) + tuple(_key(a) for a in args)
        t = B.tab.get(k)
        if t is None:
            t = B()
            t.id = _nid()
            t.op = op
            t.args = args
            B.tab[k] = t
        return t

    def __repr__(self):
        if self.op == "v":
            return str(self.args[0])
        return brief(lambda: "%s(%s)" % (self.op, ", ".join(map(str, self.args))))


def bnot(a):
    if a is True:
        return False
    if a is False:
        return True
    if a.op == "not":
        return a.args[0]
    if a.op == "ile":  # p <= 0  ->  -p+1 <= 0
        return ile0(iadd(ineg(a.args[0]), 1))
    if a.op == "rlt":
        return rle(a.args[1], a.args[0])
    if a.op == "rle":
        return rlt(a.args[1], a.args[0])
    return B.mk("not", a)


def band(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        if x.op == "and":
            out.extend(x.args)
        else:
            out.append(x)
    s = {}
    for x in out:
        s[x.id] = x
    for x in out:
        n = bnot(x)
        if isinstance(n, B) and n.id in s:
            return False
    out = [s[k] for k in sorted(s)]
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return B.mk("and", *out)


def bor(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        if x.op == "or":
            out.extend(x.args)
        else:
            out.append(x)
    s = {}
    for x in out:
        s[x.id] = x
    for x in out:
        n = bnot(x)
        if isinstance(n, B) and n.id in s:
            return True
    out = [s[k] for k in sorted(s)]
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return B.mk("or", *out)


def bimp(a, b):
    return bor(bnot(a), b)


def bxor(a, b):
    if a is True:
        return bnot(b)
    if a is False:
        return b
    if b is True:
        return bnot(a)
    if b is False:
        return a
    return bor(band(a, bnot(b)), band(bnot(a), b))


def bite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    return bor(band(c, a), band(bnot(c), b))


def bvar(name):
    return B.mk("v", name)


def ile0(p):
    if isinstance(p, int):
        return p <= 0
    # tighten by gcd of the non-constant coefficients
    g = 0
    for m, c in p.m.items():
        if m != ():
            g = math.gcd(g, c)
    if g > 1:
        d = {m: c // g for m, c in p.m.items() if m != ()}
        c0 = p.m.get((), 0)
        d[()] = -((-c0) // g)  # ceil(c0/g)
        p = I.mk(d)
    if len(p.m) == 1:
        (m, c), = p.m.items()
        if len(m) == 1 and IA.byid[m[0]].op == "b2i":
            return bnot(IA.byid[m[0]].args[0]) if c > 0 else True
    return B.mk("ile", p)


def ile(a, b):
    return ile0(isub(a, b))


def ilt(a, b):
    return ile0(iadd(isub(a, b), 1))


def ieq(a, b):
    p = isub(a, b)
    if isinstance(p, int):
        return p == 0
    # canonical sign
    k = min(p.m)
    c = p.m[max(p.m)]
    if c < 0:
        p = ineg(p)
    g = 0
    for m, c in p.m.items():
        if m != ():
            g = math.gcd(g, c)
    c0 = p.m.get((), 0)
    if g > 1:
        if c0 % g:
            return False
        p = I.mk({m: c // g for m, c in p.m.items()})
        c0 = p.m.get((), 0)
    # b2i atoms
    ks = [m for m in p.m if m != ()]
    if len(ks) == 1 and len(ks[0]) == 1:
        at = IA.byid[ks[0][0]]
        if at.op == "b2i":
            v = Fraction(-c0, p.m[ks[0]])
            if v == 1:
                return at.args[0]
            if v == 0:
                return bnot(at.args[0])
            return False
    return B.mk("ieq", p)


def rlt(a, b):
    a, b = rconst(a), rconst(b)
    if is_num(a) and is_num(b):
        return a < b
    if a is b:
        return False
    return B.mk("rlt", a, b)


def rle(a, b):
    a, b = rconst(a), rconst(b)
    if is_num(a) and is_num(b):
        return a <= b
    if a is b:
        return True
    return B.mk("rle", a, b)


def req(a, b):
    a, b = rconst(a), rconst(b)
    if is_num(a) and is_num(b):
        return a == b
    if a is b:
        return True
    if not is_num(a) and not is_num(b) and a.id > b.id:
        a, b = b, a
    if is_num(a):
        a, b = b, a
    return B.mk("req", a, b)


def rne(a, b):
    return bnot(req(a, b))


def forall(var, lo, hi, body):
    """for all integers var with lo <= var < hi : body"""
    if body is True:
        return True
    return B.mk("forall", var, lo, hi, body)


# --------------------------------------------------------------------------
# generic substitution (of variables by terms), all sorts
# --------------------------------------------------------------------------
def subst(t, m, memo=None):
    """m: dict from variable *atom/term object id* to replacement.
    integer variables are keyed by IA id, real variables by R id, bool by B id;
    array names may be substituted through m[('arr', name)] = function(idx...)"""
    if memo is None:
        memo = {}
    if isinstance(t, (bool, int, Fraction)) or t is None or isinstance(t, str):
        return t
    r = memo.get(t.id if not isinstance(t, IA) else ("a", t.id))
    if r is not None:
        return r
    if isinstance(t, I):
        out = 0
        for mono, c in t.m.items():
            p = c
            for a in mono:
                p = imul(p, _subst_ia(IA.byid[a], m, memo))
            out = iadd(out, p)
        r = out
    elif isinstance(t, R):
        o, a = t.op, t.args
        if o == "v":
            r = m.get(t.id, t)
        elif o == "add":
            r = radd(subst(a[0], m, memo), subst(a[1], m, memo))
        elif o == "sub":
            r = rsub(subst(a[0], m, memo), subst(a[1], m, memo))
        elif o == "mul":
            r = rmul(subst(a[0], m, memo), subst(a[1], m, memo))
        elif o == "div":
            r = rdiv(subst(a[0], m, memo), subst(a[1], m, memo))
        elif o == "ite":
            r = rite(subst(a[0], m, memo), subst(a[1], m, memo), subst(a[2], m, memo))
        elif o == "fn":
            r = rfn(a[0], *[subst(x, m, memo) for x in a[1]])
        elif o == "sel":
            idx = [subst(x, m, memo) for x in a[1]]
            f = m.get(("arr", a[0]))
            r = f(*idx) if f else rsel(a[0], *idx)
        elif o == "i2r":
            r = i2r(subst(a[0], m, memo))
        elif o == "sum":
            bv, n, body = a
            n2 = subst(n, m, memo)
            m2 = {k: v for k, v in m.items() if k != bv.id}
            if isinstance(n2, int) or not bv.args[0].startswith("%k"):
                r = rsum_raw(bv, n2, subst(body, m2, {}))
            else:
                # canonical names depend on the nesting of the result
                ph = IA.mk("v", "@" + bv.args[0][1:])
                m2[bv.id] = iatom(ph)
                r = rsum(ph, n2, subst(body, m2, {}))
        elif o in ("minover", "maxover"):
            bv, n, body, init = a
            m2 = {k: v for k, v in m.items() if k != bv.id}
            r = R.mk(o, bv, subst(n, m, memo), subst(body, m2, {}), subst(init, m, memo))
        else:
            raise Unsupported("subst " + o)
    elif isinstance(t, B):
        o, a = t.op, t.args
        s = lambda x: subst(x, m, memo)
        if o == "v":
            r = m.get(t.id, t)
        elif o == "not":
            r = bnot(s(a[0]))
        elif o == "and":
            r = band(*[s(x) for x in a])
        elif o == "or":
            r = bor(*[s(x) for x in a])
        elif o == "ile":
            r = ile0(s(a[0]))
        elif o == "ieq":
            r = ieq(s(a[0]), 0)
        elif o == "rlt":
            r = rlt(s(a[0]), s(a[1]))
        elif o == "rle":
            r = rle(s(a[0]), s(a[1]))
        elif o == "req":
            r = req(s(a[0]), s(a[1]))
        elif o == "forall":
            m2 = {k: v for k, v in m.items() if k != a[0].id}
            r = forall(a[0], s(a[1]), s(a[2]), subst(a[3], m2, {}))
        elif o == "fn":
            r = B.mk("fn", a[0], tuple(s(x) for x in a[1]))
        else:
            raise Unsupported("subst " + o)
        if r is True or r is False:
            return r
    else:
        raise Unsupported("subst %r" % (t,))
    memo[t.id] = r
    return r


def _subst_ia(a, m, memo):
    r = m.get(a.id)
    if r is not None:
        return r
    r = memo.get(("a", a.id))
    if r is not None:
        return r
    o = a.op
    if o == "v":
        r = iatom(a)
    elif o == "sel":
        idx = [subst(x, m, memo) for x in a.args[1]]
        f = m.get(("arr", a.args[0]))
        r = f(*idx) if f else isel(a.args[0], *idx)
    elif o == "ite":
        r = iite(subst(a.args[0], m, memo), subst(a.args[1], m, memo), subst(a.args[2], m, memo))
    elif o == "b2i":
        r = b2i(subst(a.args[0], m, memo))
    elif o in ("div", "rem"):
        r = idiv(subst(a.args[0], m, memo), subst(a.args[1], m, memo)) if o == "div" else \
            irem(subst(a.args[0], m, memo), subst(a.args[1], m, memo))
    elif o == "fn":
        r = iatom(IA.mk("fn", a.args[0], tuple(subst(x, m, memo) for x in a.args[1])))
    elif o == "isum":
        bv, n, body = a.args
        m2 = {k: v for k, v in m.items() if k != bv.id}
        r = isum_raw(bv, subst(n, m, memo), subst(body, m2, {}))
    else:
        raise Unsupported("subst int " + o)
    memo[("a", a.id)] = r
    return r


def idiv(a, b):
    """C truncating division"""
    if isinstance(a, int) and isinstance(b, int):
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    if isinstance(b, int) and b == 1:
        return a
    if isinstance(b, int):
        q = iexactdiv(a, b)
        if q is not None:
            return q
    return iatom(IA.mk("div", a, b))


def irem(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b * idiv(a, b)
    if isinstance(b, int) and iexactdiv(a, b) is not None:
        return 0
    return iatom(IA.mk("rem", a, b))


FN_RANGE = {}      # integer functions of contracts: value in [lo, hi)


def ifn(name, *args):
    return iatom(IA.mk("fn", name, tuple(args)))


# --------------------------------------------------------------------------
# free variables (ids of IA 'v' / R 'v' / B 'v' and array names)
# --------------------------------------------------------------------------
_fv = {}


def freevars(t):
    if isinstance(t, (bool, int, Fraction)) or t is None or isinstance(t, str):
        return frozenset()
    k = t.id
    r = _fv.get(k)
    if r is not None:
        return r
    if isinstance(t, I):
        s = set()
        for mono in t.m:
            for a in mono:
                s |= freevars(IA.byid[a])
    elif isinstance(t, IA):
        if t.op == "v":
            s = {t.id}
        elif t.op == "sel":
            s = {("arr", t.args[0])}
            for x in t.args[1]:
                s |= freevars(x)
        elif t.op == "fn":
            s = set()
            for x in t.args[1]:
                s |= freevars(x)
        elif t.op == "isum":
            s = set(freevars(t.args[2])) - {t.args[0].id}
            s |= freevars(t.args[1])
        else:
            s = set()
            for x in t.args:
                s |= freevars(x)
    elif isinstance(t, R):
        if t.op == "v":
            s = {t.id}
        elif t.op == "sel":
            s = {("arr", t.args[0])}
            for x in t.args[1]:
                s |= freevars(x)
        elif t.op == "fn":
            s = set()
            for x in t.args[1]:
                s |= freevars(x)
        elif t.op in ("sum", "minover", "maxover"):
            s = set(freevars(t.args[2])) - {t.args[0].id}
            s |= freevars(t.args[1])
            if len(t.args) > 3:
                s |= freevars(t.args[3])
        else:
            s = set()
            for x in t.args:
                s |= freevars(x)
    else:
        if t.op == "v":
            s = {t.id}
        elif t.op == "forall":
            s = set(freevars(t.args[3])) - {t.args[0].id}
            s |= freevars(t.args[1]) | freevars(t.args[2])
        elif t.op == "fn":
            s = set()
            for x in t.args[1]:
                s |= freevars(x)
        else:
            s = set()
            for x in t.args:
                s |= freevars(x)
    r = frozenset(s)
    _fv[k] = r
    return r


# --------------------------------------------------------------------------
# sums
# --------------------------------------------------------------------------
_bvs = {}


def bvar_int(depth):
    """canonical bound integer variable"""
    a = _bvs.get(depth)
    if a is None:
        a = IA.mk("v", "%%k%d" % depth)
        _bvs[depth] = a
    return a


def _bvdepth(t):
    """1 + the largest canonical bound variable index bound inside t"""
    d = 0
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, (I, R, B, IA)):
            if x.id in seen:
                continue
            seen.add(x.id)
        if isinstance(x, I):
            for mono in x.m:
                st.extend(IA.byid[a] for a in mono)
        elif isinstance(x, (IA, R, B)):
            if x.op in ("sum", "isum", "minover", "maxover", "forall") and x.args[0].args[0].startswith("%k"):
                d = max(d, int(x.args[0].args[0][2:]) + 1)
            for y in x.args:
                if isinstance(y, tuple):
                    st.extend(y)
                elif not isinstance(y, (str, int, Fraction, bool)):
                    st.append(y)
    return d


def _canon(bv, body):
    d = _bvdepth(subst(body, {bv.id: 0}))
    fv = freevars(body)
    while bvar_int(d) is not bv and bvar_int(d).id in fv:
        d += 1
    return bvar_int(d)


def rsum(bv, n, body):
    """sum_{bv=0}^{n-1} body; bv an IA variable"""
    if is_num(body) and body == 0:
        return ZERO
    if isinstance(n, int):
        r = ZERO
        for k in range(max(n, 0)):
            r = radd(r, subst(body, {bv.id: k}))
        return r
    # canonical bound variable
    cv = _canon(bv, body)
    if cv is not bv:
        body = subst(body, {bv.id: iatom(cv)})
    return rsum_raw(cv, n, body)


def isum(bv, n, body):
    if isinstance(n, int):
        return isum_raw(bv, n, body)
    if isinstance(body, int):
        return imul(n, body)
    cv = _canon(bv, body)
    if cv is not bv:
        body = subst(body, {bv.id: iatom(cv)})
    return isum_raw(cv, n, body)


def rsum_raw(bv, n, body):
    if is_num(body) and body == 0:
        return ZERO
    if isinstance(n, int):
        r = ZERO
        for k in range(max(n, 0)):
            r = radd(r, subst(body, {bv.id: k}))
        return r
    return R.mk("sum", bv, n, body)


def isum_raw(bv, n, body):
    if isinstance(n, int):
        r = 0
        for k in range(max(n, 0)):
            r = iadd(r, subst(body, {bv.id: k}))
        return r
    return iatom(IA.mk("isum", bv, n, body))


# --------------------------------------------------------------------------
# polynomial normal form of reals (exact)
# --------------------------------------------------------------------------
# atoms: id -> ("R", R) | ("inv", polykey, polydict) | ...
PA = {}
_patab = {}


def _patom(key, val):
    i = _patab.get(key)
    if i is None:
        i = len(PA) + 1
        _patab[key] = i
        PA[i] = val
    return i


def _patomf(key, mk):
    i = _patab.get(key)
    return i if i is not None else _patom(key, mk())


def p2r(p):
    """the term a polynomial stands for"""
    r = ZERO
    for m, c in p.items():
        t = Fraction(c)
        for a in m:
            t = rmul(t, a2r(a))
        r = radd(r, t)
    return r


_a2r = {}


def a2r(a):
    v = PA[a]
    if isinstance(v, R):
        return v
    r = _a2r.get(a)
    if r is None:
        if v[0] == "inv":
            r = rdiv(ONE, p2r(v[1]))
        elif v[0] == "lin":
            r = p2r(v[1])
        else:
            b = ONE
            for y in v[3]:
                b = rmul(b, a2r(y))
            r = R.mk("sum", v[1], v[2], b)
        _a2r[a] = r
    return r


LIMIT = 60000


_hi = {}


def _has_ite(t):
    if not isinstance(t, R):
        return False
    r = _hi.get(t.id)
    if r is None:
        if t.op == "ite":
            r = True
        elif t.op in ("sum", "minover", "maxover"):
            r = _has_ite(t.args[2])
        elif t.op == "fn":
            r = any(_has_ite(y) for y in t.args[1])
        elif t.op in ("v", "sel", "i2r"):
            r = False
        else:
            r = any(_has_ite(y) for y in t.args)
        _hi[t.id] = r
    return r


class PolyCtx:
    """normaliser; `decide` optionally resolves ite-conditions; cut=True turns
    long linear forms into atoms (sound, incomplete)"""

    def __init__(self, decide=None, cut=False, limit=None):
        self.memo = {}
        self.extra, self.sub = (), {}
        self.decide = decide
        self.cut = cut
        self.limit = limit or LIMIT

    def poly(self, t):
        if is_num(t):
            return {(): cint(t)} if t else {}
        r = self.memo.get(t.id)
        if r is not None:
            return r
        # iterative post-order to avoid deep recursion
        stack = [t]
        memo = self.memo
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            if x.op in ("add", "sub", "mul", "div"):
                need = [a for a in x.args if isinstance(a, R) and a.id not in memo]
            elif x.op == "fn":
                need = [a for a in x.args[1] if isinstance(a, R) and a.id not in memo]
            else:
                need = []
            if need:
                stack.extend(need)
                continue
            memo[x.id] = self._node(x)
            stack.pop()
        return memo[t.id]

    def _g(self, a):
        if is_num(a):
            return {(): cint(a)} if a else {}
        return self.poly(a)

    def _node(self, x):
        o = x.op
        if o == "v":
            return {(_patom(("R", x.id), x),): 1}
        if o in ("add", "sub"):
            a, b = self._g(x.args[0]), self._g(x.args[1])
            r = dict(a)
            s = 1 if o == "add" else -1
            for m, c in b.items():
                n = r.get(m, 0) + s * c
                if n:
                    r[m] = n
                else:
                    r.pop(m, None)
            if len(r) > self.limit:
                raise TooBig()
            return self._maybe_cut(r)
        if o == "mul":
            return self._maybe_cut(self._mul(self._g(x.args[0]), self._g(x.args[1])))
        if o == "div":
            return self._mul(self._g(x.args[0]), self._inv(self._g(x.args[1])))
        if o == "ite":
            c = x.args[0]
            if self.decide:
                v = self.decide(c, self.extra) if self.extra else self.decide(c)
                if v is True:
                    return self._g(x.args[1])
                if v is False:
                    return self._g(x.args[2])
            a, b = self._g(x.args[1]), self._g(x.args[2])
            ka, kb = pkey(a), pkey(b)
            if ka == kb:
                return a
            if not a or not b or self.extra and len(a) + len(b) < 60:
                # b + [c] (a - b) with the indicator of c
                if not a:
                    a, b, c = b, a, bnot(c)
                i = _patomf(("ite", c.id, (((), 1),), ()), lambda: rite(c, ONE, ZERO))
                IND.add(i)
                d = dict(a)
                for m, k in b.items():
                    w = d.get(m, 0) - k
                    if w:
                        d[m] = w
                    else:
                        d.pop(m, None)
                r = self._mul({(i,): 1}, d)
                if b:
                    r = dict(r)
                    for m, k in b.items():
                        w = r.get(m, 0) + k
                        if w:
                            r[m] = w
                        else:
                            r.pop(m, None)
                return r
            return {(_patomf(("ite", c.id, ka, kb), lambda: rite(c, p2r(a), p2r(b)) if self._inner(x.args[1:]) else x),): 1}
        if o == "fn":
            name = x.args[0]
            ps = [self._g(a) for a in x.args[1]]
            if self._inner(x.args[1]):
                x = R.mk("fn", name, tuple(p2r(p) for p in ps))
            if name == "sqrt":
                return self._sqrt(ps[0], x)
            if name in ("min", "max"):
                return {(_patom(("fn", name) + tuple(sorted({pkey(p) for p in ps}, key=str)), x),): 1}
            if name == "fabs":
                p = ps[0]
                if p:
                    lead = max(p)
                    if p[lead] < 0:
                        p = {m: -c for m, c in p.items()}
                if len(p) <= 1 and all(m == () for m in p):
                    return {m: abs(c) for m, c in p.items()}
                return {(_patom(("fn", name, pkey(p)), x),): 1}
            return {(_patom(("fn", name) + tuple(pkey(p) for p in ps), x),): 1}
        if o == "sel":
            if UNIT and self.decide:
                x = self._unit(x)
            return {(_patom(("sel", x.args[0]) + tuple(_ikey(i) for i in x.args[1]), x),): 1}
        if o == "i2r":
            out = {}
            for mono, c in x.args[0].m.items():
                key = tuple(sorted(_patom(("IA", a), R.mk("i2r", iatom(IA.byid[a]))) for a in mono))
                out[key] = out.get(key, 0) + c
            return out
        if o == "sum":
            return self._sum(x)
        if o in ("minover", "maxover"):
            bv, n, body, init = x.args
            pb, pi = self._ranged(bv, n, body), self._g(init)
            return {(_patomf((o, bv.id, _ikey(n), pkey(pb), pkey(pi)), lambda: R.mk(o, bv, n, p2r(pb), p2r(pi)) if self._inner((body, init)) else x),): 1}
        raise Unsupported("poly " + o)

    def _unit(self, x):
        """indices read from an integer array that is known to be zero throughout its range"""
        ix = list(x.args[1])
        for j, i in enumerate(ix):
            if isinstance(i, I) and len(i.m) == 1:
                (m, c), = i.m.items()
                if c == 1 and len(m) == 1 and IA.byid[m[0]].op == "sel" and IA.byid[m[0]].args[0] in UNIT and self.decide(ieq(i, 0), self.extra) is True:
                    ix[j] = 0
        return x if all(a is b for a, b in zip(ix, x.args[1])) else R.mk("sel", x.args[0], tuple(ix))

    def _inner(self, ts):
        """conditions inside the arguments may have been decided here"""
        return self.decide is not None and any(_has_ite(t) for t in ts)

    def _mul(self, a, b):
        if len(a) > len(b):
            a, b = b, a
        if not a:
            return {}
        if len(a) * len(b) > 40 * self.limit:
            raise TooBig()
        r = {}
        for m1, c1 in a.items():
            if m1 == ():
                for m2, c2 in b.items():
                    r[m2] = r.get(m2, 0) + c1 * c2
            else:
                for m2, c2 in b.items():
                    m = tuple(sorted(m1 + m2)) if m2 else m1
                    r[m] = r.get(m, 0) + c1 * c2
        r = {m: c for m, c in r.items() if c}
        if len(r) > self.limit:
            raise TooBig()
        r = self._reduce_sqrt(r)
        return r

    def _reduce_sqrt(self, r):
        """replace sqrt(p)^2 by p and p-atoms * inv cancellations of single atoms"""
        todo = False
        for m in r:
            for i in range(len(m) - 1):
                if m[i] == m[i + 1] and (m[i] in SQ or m[i] in IND):
                    todo = True
                    break
            if todo:
                break
            for a in m:
                iv = INVOF.get(a)
                if iv is not None and iv in m:
                    todo = True
                    break
            if todo:
                break
        if not todo:
            return r
        out = {}
        for m, c in r.items():
            ml = list(m)
            fac = None
            i = 0
            changed = True
            while changed:
                changed = False
                for i in range(len(ml) - 1):
                    if ml[i] == ml[i + 1] and ml[i] in IND:
                        del ml[i]
                        changed = True
                        break
                    if ml[i] == ml[i + 1] and ml[i] in SQ:
                        p = SQ[ml[i]]
                        del ml[i:i + 2]
                        fac = p if fac is None else self._mul(fac, p)
                        changed = True
                        break
                for a in ml:
                    iv = INVOF.get(a)
                    if iv is not None and iv in ml:
                        ml.remove(a)
                        ml.remove(iv)
                        changed = True
                        break
            term = {tuple(ml): c}
            if fac is not None:
                term = self._mul(term, fac)
            for k, v in term.items():
                n = out.get(k, 0) + v
                if n:
                    out[k] = n
                else:
                    out.pop(k, None)
        return out

    def _inv(self, p):
        if not p:
            return {(_patom(("inv0",), R.mk("fn", "inv0", ())),): 1}
        if len(p) == 1:
            (m, c), = p.items()
            c = Fraction(1) / Fraction(c)
            if m == ():
                return {(): cint(c)}
            # inverse of a monomial: product of atom inverses
            out = []
            for a in m:
                ia = INVOF.get(a)
                if ia is None:
                    ia = _patom(("inv", (((a,), 1),)), ("inv", {(a,): 1}))
                    INVP[ia] = {(a,): 1}
                    INVOF[a] = ia
                    INVOF[ia] = a
                out.append(ia)
            return self._reduce_sqrt({tuple(sorted(out)): cint(c)})
        # canonical scaling: leading coefficient 1
        lead = p[max(p)]
        q = {m: cint(Fraction(c) / Fraction(lead)) for m, c in p.items()}
        k = pkey(q)
        ia = _patom(("inv", k), ("inv", q))
        INVP[ia] = q
        return {(ia,): cint(Fraction(1) / Fraction(lead))}

    def _sqrt(self, p, x):
        if len(p) == 1:
            (m, c), = p.items()
            if m == ():
                f = Fraction(c)
                if f >= 0:
                    n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
                    if n * n == f.numerator and d * d == f.denominator:
                        return {(): cint(Fraction(n, d))}
        a = _patom(("fn", "sqrt", pkey(p)), x)
        SQ[a] = p
        return {(a,): 1}

    def _ranged(self, bv, n, body):
        """the body of a sum or a maximum: its conditions are decided for 0 <= bv < n"""
        if not (self.decide and (UNIT or _has_ite(body))):
            return self._g(body)
        memo, extra = self.memo, self.extra
        self.extra = extra + (ile(0, iatom(bv)), ilt(iatom(bv), n))
        self.memo = self.sub.setdefault(tuple(c if isinstance(c, bool) else c.id for c in self.extra), {})
        try:
            return self._g(body)
        finally:
            self.memo, self.extra = memo, extra

    def _sum(self, x):
        bv, n, body = x.args
        p = self._ranged(bv, n, body)
        out = {}
        bid = bv.id
        for m, c in p.items():
            dep, indep = [], []
            for a in m:
                (dep if _patom_dep(a, bid) else indep).append(a)
            if not dep:
                t = {tuple(indep): c}
                nn = self._g(i2r(n)) if not isinstance(n, int) else {(): n}
                # sums have n >= 0 terms
                t = self._mul(t, nn)
            else:
                t = self._picked(bv, n, dep)
                if t is None:
                    t = {(self._sumatom(bv, n, tuple(dep)),): 1}
                t = self._mul({tuple(indep): c}, t)
            for k, v in t.items():
                w = out.get(k, 0) + v
                if w:
                    out[k] = w
                else:
                    out.pop(k, None)
        return out

    def _picked(self, bv, n, dep):
        """sum over bv of [bv = e] f(bv): the value f(e), when e lies in the range"""
        if not self.decide:
            return None
        for a in dep:
            if a not in IND:
                continue
            c = PA[a].args[0]
            rest = []
            if isinstance(c, B) and c.op == "and":
                eq = [x for x in c.args if isinstance(x, B) and x.op == "ieq" and bv.id in freevars(x)]
                rest = [x for x in c.args if not any(x is y for y in eq)]
                if len(eq) != 1 or any(bv.id in freevars(x) for x in rest):
                    continue
                c = eq[0]
            if not (isinstance(c, B) and c.op == "ieq"):
                continue
            q = c.args[0]
            k = q.m.get((bv.id,), 0) if isinstance(q, I) else 0
            e = imul(-k, isub(q, imul(k, iatom(bv)))) if k in (1, -1) else None
            if e is None or (not isinstance(e, int) and bv.id in freevars(e)):
                continue
            if any(self.decide(g, self.extra) is not True if not isinstance(g, bool) else not g for g in (ile(0, e), ilt(e, n))):
                continue
            f = rite(band(*rest), ONE, ZERO) if rest else ONE
            for d in dep:
                if d != a:
                    f = rmul(f, subst(a2r(d), {bv.id: e}))
            return self._g(f)
        return None

    def _sumatom(self, bv, n, dep):
        key = ("sum", bv.id, _ikey(n), dep)
        i = _patab.get(key)
        if i is not None:
            return i
        body = ONE
        for a in dep:
            body = rmul(body, a2r(a))

        def mono(t):
            try:
                p = PolyCtx().poly(t) if isinstance(t, R) else {}
            except TooBig:
                return None
            if len(p) == 1:
                (m, c), = p.items()
                if c == 1:
                    return m
            return None
        # canonical bound variable
        cv = _canon(bv, body)
        if cv is not bv:
            m = mono(subst(body, {bv.id: iatom(cv)}))
            if m is not None:
                j = self._sumatom(cv, n, m)
                _patab[key] = j
                return j
        # reflect k -> n-1-k : share the atom if the reflected one is known
        m2 = mono(subst(body, {bv.id: isub(isub(n, 1), iatom(bv))}))
        if m2 is not None:
            j = _patab.get(("sum", bv.id, _ikey(n), m2))
            if j is not None:
                _patab[key] = j
                return j
        return _patom(key, R.mk("sum", bv, n, body))

    def _maybe_cut(self, r):
        if not self.cut or len(r) < 4:
            return r
        if any(len(m) > 1 for m in r):
            return r
        const = r.get((), 0)
        q = {m: c for m, c in r.items() if m != ()}
        if len(q) < 4:
            return r
        lead = q[max(q)]
        qn = {m: cint(Fraction(c) / Fraction(lead)) for m, c in q.items()}
        k = pkey(qn)
        a = _patom(("lin", k), ("lin", qn))
        LIN[a] = qn
        out = {(a,): lead}
        if const:
            out[()] = const
        return out


IND = set()     # indicator atoms (idempotent)
UNIT = set()    # names of integer arrays all of whose entries are known to be zero
SQ = {}
INVP = {}
INVOF = {}
LIN = {}


def pkey(p):
    return tuple(sorted(p.items()))


def _ikey(i):
    return i if isinstance(i, int) else ("#", i.id)


_pdep = {}


def _patom_dep(a, vid):
    """does polynomial atom a depend on integer variable vid"""
    k = (a, vid)
    r = _pdep.get(k)
    if r is None:
        v = PA[a]
        if isinstance(v, R):
            r = vid in freevars(v)
        elif v[0] in ("inv", "lin"):
            r = any(_patom_dep(b, vid) for m in v[1] for b in m)
        elif v[0] == "sum":
            r = v[1].id != vid and (vid in freevars(v[2]) or any(_patom_dep(b, vid) for b in v[3]))
        else:
            r = True
        _pdep[k] = r
    return r


def clear_inverses(pa, pb, ctx):
    """multiply both polynomials by the denominators appearing as inverse atoms"""
    for _ in range(200):
        invs = set()
        for p in (pa, pb):
            for m in p:
                for a in m:
                    if a in INVP:
                        invs.add(a)
        if not invs:
            return pa, pb
        a = max(invs)  # newest first: it may contain older inverses
        deg = 0
        for p in (pa, pb):
            for m in p:
                deg = max(deg, m.count(a))
        q = INVP[a]
        pw = [{(): 1}]
        for _i in range(deg):
            pw.append(ctx._mul(pw[-1], q))

        def conv(p):
            out = {}
            for m, c in p.items():
                e = m.count(a)
                m2 = tuple(x for x in m if x != a)
                t = ctx._mul({m2: c}, pw[deg - e])
                for k, v in t.items():
                    w = out.get(k, 0) + v
                    if w:
                        out[k] = w
                    else:
                        out.pop(k, None)
            if len(out) > ctx.limit:
                raise TooBig()
            return out
        # exponents may also cancel through INVOF during _mul; iterate
        pa, pb = conv(pa), conv(pb)
    raise TooBig()


LITTOL = Fraction(1, 10 ** 12)


def poly_equal(a, b, decide=None, limit=None):
    """('yes'|'no', info): decide a == b as an identity of rational functions.
    Coefficients that differ only by literal rounding (1e-12) count as equal."""
    for cut in (False, True):
        ctx = PolyCtx(decide, cut=cut, limit=limit)
        try:
            pa, pb = ctx.poly(a), ctx.poly(b)
            if pkey(pa) == pkey(pb):
                return "yes", "poly"
            d = dict(pa)
            for m, c in pb.items():
                n = d.get(m, 0) - c
                if n:
                    d[m] = n
                else:
                    d.pop(m, None)
            ca, cb = clear_inverses(d, {}, ctx)
            if not ca:
                return "yes", "poly"
            pa, pb = clear_inverses(pa, pb, ctx)
            scale = max([abs(c) for c in pa.values()] + [abs(c) for c in pb.values()] + [0])
            ok = True
            for m in set(pa) | set(pb):
                if abs(Fraction(pa.get(m, 0)) - Fraction(pb.get(m, 0))) > LITTOL * Fraction(scale):
                    ok = False
                    break
            if ok:
                return "yes", "poly~"
            if not cut:
                return "no", "poly"
        except TooBig:
            continue
    return "unknown", "too big"


# --------------------------------------------------------------------------
# numeric evaluation
# --------------------------------------------------------------------------
class Env:
    """numeric environment: vars by name, arrays as python callables/dicts"""

    def __init__(self, vals, arrays=None, exact=False, fns=None):
        self.vals = vals
        self.arrays = arrays or {}
        self.exact = exact
        self.fns = fns or {}
        self.memo = {}


FN = {"min": min, "max": max, "sqrt": math.sqrt, "fabs": abs, "acos": math.acos, "cos": math.cos, "sin": math.sin, "tan": math.tan,
      "log": math.log, "exp": math.exp, "floor": math.floor, "ceil": math.ceil, "asin": math.asin,
      "atan": math.atan, "atan2": math.atan2, "erf": math.erf, "erfc": math.erfc, "log10": math.log10,
      "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x), "pow": lambda a, b: float(a) ** float(b) if a >= 0 or float(b) == int(b) else float("nan"),
      "fmod": math.fmod, "round": lambda x: math.copysign(math.floor(abs(x) + 0.5), x),
      "div0": lambda a: float("nan"), "trunc": math.trunc}


def ev(t, env):
    if isinstance(t, (bool, int)):
        return t
    if isinstance(t, Fraction):
        return t if env.exact else float(t)
    if isinstance(t, str):
        return t
    r = env.memo.get(t.id)
    if r is not None:
        return r
    # deep DAGs: iterative over +,-,*,/
    if isinstance(t, R) and t.op in ("add", "sub", "mul", "div"):
        st = [t]
        while st:
            x = st[-1]
            if x.id in env.memo:
                st.pop()
                continue
            if x.op in ("add", "sub", "mul", "div"):
                need = [a for a in x.args if isinstance(a, R) and a.id not in env.memo]
                if need:
                    st.extend(need)
                    continue
                a, b = (_evl(y, env) for y in x.args)
                if x.op == "add":
                    v = a + b
                elif x.op == "sub":
                    v = a - b
                elif x.op == "mul":
                    v = a * b
                else:
                    if b == 0:
                        v = float("nan")
                    else:
                        v = (Fraction(a) / Fraction(b)) if env.exact and not isinstance(a, float) and not isinstance(b, float) else a / b
                env.memo[x.id] = v
            else:
                env.memo[x.id] = _ev1(x, env)
            st.pop()
        return env.memo[t.id]
    v = _ev1(t, env)
    env.memo[t.id] = v
    return v


def _evl(y, env):
    if isinstance(y, R):
        return env.memo[y.id]
    return ev(y, env)


def _ev1(t, env):
    if isinstance(t, I):
        s = 0
        for m, c in t.m.items():
            p = c
            for a in m:
                p *= ev(IA.byid[a], env)
            s += p
        return s
    o, a = t.op, t.args
    if o == "v":
        if a[0] in env.vals:
            return env.vals[a[0]]
        raise KeyError(a[0])
    if o == "sel":
        idx = tuple(ev(x, env) for x in a[1])
        arr = env.arrays[a[0]]
        return arr(*idx) if callable(arr) else arr[idx if len(idx) > 1 else idx[0]]
    if o == "ite":
        return ev(a[1], env) if ev(a[0], env) else ev(a[2], env)
    if o == "b2i":
        return 1 if ev(a[0], env) else 0
    if o in ("div", "rem") and isinstance(t, IA):
        x, y = ev(a[0], env), ev(a[1], env)
        return idiv(x, y) if o == "div" else irem(x, y)
    if o == "fn":
        f = env.fns.get(a[0]) or FN.get(a[0])
        if f is None:
            raise KeyError("fn " + a[0])
        try:
            if getattr(f, "needs_env", False):
                return f(env, *[ev(x, env) for x in a[1]])
            return f(*[ev(x, env) for x in a[1]])
        except (ValueError, OverflowError):
            return float("nan")
    if o == "i2r":
        return ev(a[0], env)
    if o in ("sum", "isum"):
        n = ev(a[1], env)
        s = 0
        name = a[0].args[0]
        for k in range(n):
            s += _ev_with(a[2], env, name, k)
        return s
    if o in ("minover", "maxover"):
        n = ev(a[1], env)
        s = ev(a[3], env)
        for k in range(n):
            v = _ev_with(a[2], env, a[0].args[0], k)
            s = min(s, v) if o == "minover" else max(s, v)
        return s
    if o == "not":
        return not ev(a[0], env)
    if o == "and":
        return all(ev(x, env) for x in a)
    if o == "or":
        return any(ev(x, env) for x in a)
    if o == "ile":
        return ev(a[0], env) <= 0
    if o == "ieq":
        return ev(a[0], env) == 0
    if o == "rlt":
        return ev(a[0], env) < ev(a[1], env)
    if o == "rle":
        return ev(a[0], env) <= ev(a[1], env)
    if o == "req":
        return ev(a[0], env) == ev(a[1], env)
    if o == "forall":
        lo, hi = ev(a[1], env), ev(a[2], env)
        return all(_ev_with(a[3], env, a[0].args[0], k) for k in range(lo, hi))
    raise Unsupported("eval " + o)


def _ev_with(body, env, name, k):
    e2 = Env(dict(env.vals), env.arrays, env.exact, env.fns)
    e2.vals[name] = k
    return ev(body, e2)


def mk_minover(kind, bv, n, body, init):
    """min/max of init and body(bv) for 0 <= bv < n"""
    op = "minover" if kind == "min" else "maxover"
    if isinstance(n, int):
        r = init
        for k in range(max(n, 0)):
            v = subst(body, {bv.id: k})
            r = rite(rlt(v, r), v, r) if kind == "min" else rite(rlt(r, v), v, r)
        return r
    cv = _canon(bv, body)
    if cv is not bv:
        body = subst(body, {bv.id: iatom(cv)})
    return R.mk(op, cv, n, body, init)
