"""C18: an expression evaluates to the value its text denotes"""
from spec import *
from terms import *
import terms as _t
import random

PROP = Property("C18", "h_expr.cc")
V4 = RA("v", 4)
O3 = RA("out", 3, "out")
KIND = lambda n: In(n, 0, 4)


def b2r(b):
    return ite(b, Fr(1), Fr(0))


def after(v, k, a, b):
    """value of an operand after the cells changed: constants keep theirs"""
    return ite(ieq(k, 0), a, b)


def three(f):
    """built, optimised, and evaluated again after the operands changed"""
    def post(v):
        x, y = f(v)
        return [("value", req(v.new("out")[0], x)), ("value of the optimised expression", req(v.new("out")[1], x)),
                ("the optimised expression follows its operands", req(v.new("out")[2], y))]
    return post


def pw(a, b):
    if is_num(b) and b == int(b) and 0 <= b <= 8:
        r = Fr(1)
        for _ in range(int(b)):
            r = r * a
        return r
    return rfn("pow", a, b)


OPS = [("+", lambda a, b: a + b), ("-", lambda a, b: a - b), ("*", lambda a, b: a * b), ("/", lambda a, b: a / b), ("^", pw),
       ("%", lambda a, b: rfn("fmod", a, b)), (">", lambda a, b: b2r(rlt(b, a))), (">=", lambda a, b: b2r(rle(b, a))),
       ("<", lambda a, b: b2r(rlt(a, b))), ("<=", lambda a, b: b2r(rle(a, b))), ("==", lambda a, b: b2r(req(a, b)))]
OPF = dict(OPS)

for i, (nm, f) in enumerate(OPS):
    PROP.task("operator %s" % nm, "ex_op", [K("op", i), KIND("k1"), KIND("k2"), V4, O3],
              pre=(lambda v: [bnot(req(v.v[1], Fr(0))), bnot(req(v.v[3], Fr(0)))]) if nm in "/%" else None,
              post=three(lambda v, f=f: (f(v.v[0], v.v[1]), f(after(v, v.k1, v.v[0], v.v[2]), after(v, v.k2, v.v[1], v.v[3])))))
I4 = IA_("v", 4, lo=0, hi=2)
BOPS = [("&", lambda a, b: band(a, b)), ("|", lambda a, b: bor(a, b)), ("^", lambda a, b: bor(band(a, bnot(b)), band(bnot(a), b)))]
nz = lambda x: ieq(x, 1)
for i, (nm, f) in enumerate(BOPS):
    PROP.task("logical %s" % nm, "ex_bool", [K("op", i), KIND("k1"), KIND("k2"), I4, O3],
              post=three(lambda v, f=f: (b2r(f(nz(v.v[0]), nz(v.v[1]))), b2r(f(nz(iite(ieq(v.k1, 0), v.v[0], v.v[2])), nz(iite(ieq(v.k2, 0), v.v[1], v.v[3])))))))
PROP.task("logical !", "ex_not", [KIND("k"), IA_("v", 2, lo=0, hi=2), O3],
          post=three(lambda v: (b2r(bnot(nz(v.v[0]))), b2r(bnot(nz(iite(ieq(v.k, 0), v.v[0], v.v[1])))))))

FUN = ["sin", "cos", "tan", "erf", "exp", "log", "abs", "asin", "acos", "atan", "sqrt", "cbrt", "erfc", "ceil", "round", "floor", "log10"]
FN = {n: (lambda a, n=n: rfn("fabs" if n == "abs" else n, a)) for n in FUN}


def gen_fun(rng):
    return {"v": [rng.uniform(.1, .9), rng.uniform(.1, .9)], "k": rng.randrange(4)}


for i, n in [(-1, "negation")] + list(enumerate(FUN)):
    f = FN.get(n, lambda a: -a)
    PROP.task("function %s" % n if i >= 0 else n, "ex_fun", [K("f", i), KIND("k"), RA("v", 2), O3], ret="int", gen=gen_fun,
              post=lambda v, f=f: three(lambda v: (f(v.v[0]), f(after(v, v.k, v.v[0], v.v[1]))))(v) + [("is a function", ieq(v.ret, 1))])
for n in (0, 1, 2, 3, 5):
    PROP.task("power %d" % n, "ex_ipow", [K("n", n), KIND("k"), RA("v", 2), O3],
              post=three(lambda v, n=n: (pw(v.v[0], Fr(n)), pw(after(v, v.k, v.v[0], v.v[1]), Fr(n)))))
PROP.task("conditional", "ex_cond", [KIND("kc"), KIND("k1"), KIND("k2"), IA_("c", 2, lo=0, hi=2), V4, O3],
          post=three(lambda v: (ite(nz(v.c[0]), v.v[0], v.v[1]),
                                ite(nz(iite(ieq(v.kc, 0), v.c[0], v.c[1])), after(v, v.k1, v.v[0], v.v[2]), after(v, v.k2, v.v[1], v.v[3])))))

# ---------------------------------------------------------------- text: an independent reading of expressions
class Bad(Exception):
    pass


CONST = {"pi": 3.141592653589793, "e": 2.718281828459045, "tau": 6.283185307179586}


def tokens(s):
    import re
    out = []
    i = 0
    s = s.lower()
    while i < len(s):
        if s[i] == " ":
            i += 1
            continue
        m = re.match(r"(\d+\.?\d*|\.\d+)(e[-+]?\d+)?|[a-z][a-z0-9]*|>=|<=|==|[-+*/^%()?:<>&|!]", s[i:])
        if not m:
            raise Bad(s)
        out.append(m.group(0))
        i += m.end()
    return out


class Read:
    """precedence: ? : below + - below * / below a sign below ^ ; ^ associates to the right, the others to the left"""

    def __init__(self, s, env):
        self.t, self.i, self.env = tokens(s), 0, env

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ""

    def eat(self, *c):
        if self.peek() in c:
            self.i += 1
            return self.t[self.i - 1]
        return None

    def need(self, c):
        if not self.eat(c):
            raise Bad(c)

    def all(self):
        r = self.tern()
        if self.i != len(self.t):
            raise Bad("rest")
        return r

    def tern(self):
        i = self.i
        depth = 0
        for k in self.t[i:]:            # is there a ? at this level
            if k == "(":
                depth += 1
            elif k == ")":
                depth -= 1
                if depth < 0:
                    break
            elif k == ":" and depth == 0:
                break
            elif k == "?" and depth == 0:
                c = self.bor()
                self.need("?")
                a = self.tern()
                self.need(":")
                b = self.tern()
                return ite(c, a, b)
        a = self.sum()
        if self.eat("%"):
            return OPF["%"](a, self.sum())
        return a

    def sum(self):
        a = self.prod()
        while True:
            o = self.eat("+", "-")
            if not o:
                return a
            a = OPF[o](a, self.prod())

    def prod(self):
        a = self.unary()
        while True:
            o = self.eat("*", "/")
            if not o:
                return a
            a = OPF[o](a, self.unary())

    def unary(self):
        if self.eat("-"):
            return -self.unary()
        if self.peek() == "+" and self.i + 1 < len(self.t) and self.t[self.i + 1][0] in ".0123456789":
            self.i += 1
        return self.power()

    def power(self):
        a = self.atom()
        if self.eat("^"):
            return pw(a, self.unary())
        return a

    def atom(self):
        t = self.peek()
        self.i += 1
        if t == "(":
            r = self.tern()
            self.need(")")
            return r
        if t and (t[0].isdigit() or t[0] == "."):
            return Fr(float(t))
        if t in FN:
            self.need("(")
            r = self.tern()
            self.need(")")
            return FN[t](r)
        if t in self.env:
            return self.env[t]
        if t in CONST:
            return Fr(CONST[t])
        raise Bad(t)

    # conditions: | below ^ below & below ! below comparisons
    def bor(self):
        a = self.bxor()
        while self.eat("|"):
            a = bor(a, self.bxor())
        return a

    def bxor(self):
        a = self.band()
        while self.eat("^"):
            a = BOPS[2][1](a, self.band())
        return a

    def band(self):
        a = self.bnot()
        while self.eat("&"):
            a = band(a, self.bnot())
        return a

    def bnot(self):
        if self.eat("!"):
            return bnot(self.bnot())
        if self.peek() in ("true", "false"):
            self.i += 1
            return self.t[self.i - 1] == "true"
        i = self.i
        if self.eat("("):               # a condition or a value in parentheses
            try:
                r = self.bor()
                self.need(")")
                if self.peek() in ("", "&", "|", "^", ")", "?"):
                    return r
            except Bad:
                pass
            self.i = i
        a = self.sum()
        o = self.eat(">", ">=", "<", "<=", "==")
        if not o:
            raise Bad("condition")
        b = self.sum()
        return {">": rlt(b, a), ">=": rle(b, a), "<": rlt(a, b), "<=": rle(a, b), "==": req(a, b)}[o]


def denotes(s, p):
    return Read(s, dict(zip("xyzt", p))).all()


def vals(v, k):
    return [v.p[k + i] for i in range(4)]


def gen_p(rng):
    return {"p": [rng.choice([rng.uniform(-2, 2), rng.uniform(.1, .9)]) for _ in range(8)]}


def post_text(s):
    def post(v):
        a, b = denotes(s, vals(v, 0)), denotes(s, vals(v, 4))
        return [("value", req(v.new("out")[0], a)), ("value at another point", req(v.new("out")[1], b)), ("value again", req(v.new("out")[2], b))]
    return post


def post_copy(s):
    def post(v):
        a, b = denotes(s, vals(v, 0)), denotes(s, vals(v, 4))
        o = v.new("out")
        return [("original", req(o[0], a)), ("copy", req(o[1], b)), ("the original is independent of the copy", req(o[2], a)),
                ("the copy outlives the original", req(o[3], b)), ("assigned", req(o[4], a)), ("assigned again", req(o[5], Fr(1)))]
    return post


def chars(s):
    return [K("n", len(s)), P("text", "int", len(s) or 1, val=[ord(c) for c in s] or [0], esize=1)]


TEXTS = """x;2.5;-1.25e-3;.5;+3;1E2;pi*t;tau/x;e*t-e;x+y*z;x*y+z;(x+y)*z;x-y-z;x-y+z;x+y-z;x-y+z-t;x-(y-z);x/y/z;x/y*z;x*y/z;x/(y*z);x*y*z*t;x/y*z/t
x^2;x^y;x^2^3;(x^2)^3;x*y^2;x^2*y;(x*y)^2;x^-1;x^-2*y;-x+y;-x*y;-x;-(x+y);x*-y;x/-y;x--y;x- -y;x - -y - z;1-2*-x;x-y^-2;x-y^-2-z;2-t*1e-3;1e-3*t-2;t*e-1;1e+3*t;3*+5*x
x-2e-3-y;1.e-3*x;x*(1-2e-3)-y;x+-y;x*-y-z;x/-y+z;-0.01 * t;0.0005 * (-0.5*cos(t*3.14/2.0e-6) + 0.5);  x  +  y  ;( x );( x + y ) * ( z - t );((x));( (x) + ((y)) );((x+y))*((z))
sin(x);cos(x)*sin(y);sin(x)+cos(y)-tan(z);sin(cos(x));sin(x*(y+z));exp(-x);sqrt(x)+cbrt(y);log(x)-log10(y);abs(x-y);asin(x)/acos(y);atan(z);erf(x)*erfc(y);ceil(x)+floor(y)-round(z);SIN(X)+Pi;sin((x));2*sin(x)^2;sin(-x);-sin(x)
x>1?2:3;x>y?x:y;x>=1?y:z;x<1?y:z;x<=y?t:z;x==y?1:2;x>1?y>1?1:2:3;x>1?1:y>1?2:3;(x>1?y:z)*t;x+1>y*2?x-1:y;x>1&y>1?1:0;x>1|y>1?1:0;(x>1)^(y>1)?1:0;!(x>1)?y:z;!x>1?y:z;(x>1)&!(y>1)?1:0
x>1&y>1|z>1?1:0;(x>1|y>1)&z>1?1:0;true?x:y;false?x:y;x>-1?x:-1;t<1.0e-3?t*1.0e3:1;( x > 1 ) ? y : z;x>1?-y:y-z;sin(x)>0?sin(x):0
x%y;(x+y)%2;(x%y)+z;2*(x%1)"""
for s in TEXTS.replace("\n", ";").split(";"):
    PROP.task('text "%s"' % s, "ex_text", chars(s) + [RA("p", 8), RA("out", 3, "out")], post=post_text(s), ret="int", gen=gen_p, tol=1e-9)
for s in ("x+y*t", "2.5", "sin(x)", "x>1?y:t"):
    PROP.task('copies of "%s"' % s, "ex_copy", chars(s) + [RA("p", 8), RA("out", 6, "out")], post=post_copy(s), ret="int", gen=gen_p, tol=1e-9)
for s in ["x+", "*x", "(x", "x)", "foo", "sin(x", "2x", "x y", "1..2", "1e", "x>1", "x>1?2", "sin()", "()", "q", "x**y", "1e1.5", "--", "", "x?y:z", "foo(x)", "sin x", "x+(y"]:
    PROP.task('rejects "%s"' % s, "ex_text", chars(s) + [RA("p", 8), RA("out", 3, "out")], throws=lambda v: True, ret="int", gen=gen_p)
for n in (0, 1, 3, 61, 62, 63, 125):
    PROP.task("%d objects of the memory manager" % n, "ex_mem", [K("n", n), P("count", "int", max(n, 1), "inout", val=[0] * max(n, 1))], ret="int",
              post=lambda v, n=n: [("deleted once", ieq(v.new("count")[i], 1)) for i in range(n)] + [("not before the end", ieq(v.ret, 0))])


# ---------------------------------------------------------------- random text (native runs only)
def rtext(rng, d, lvl=0):
    """text of an expression; lvl: 0 any, 1 at least a product, 2 at least a power, 3 atoms only"""
    sp = lambda: " " * (rng.random() < .2)
    r = rng.random()
    if d == 0 or r < .15:
        a = rng.choice(["x", "y", "z", "t", "pi", "e", "2", "0.5", "25e-2", "2.e+0", "3E0", ".25"])
        return a
    if lvl == 0 and r < .4:
        return rtext(rng, d - 1, 0) + sp() + rng.choice("+-") + sp() + rtext(rng, d - 1, 1)
    if lvl == 0 and r < .47:
        return rcond(rng, d - 1) + sp() + "?" + sp() + rtext(rng, d - 1) + ":" + rtext(rng, d - 1) if rng.random() < .5 else "-" + rtext(rng, d - 1, 3)
    if lvl <= 1 and r < .7:
        return rtext(rng, d - 1, 1) + sp() + rng.choice("**/") + sp() + (rng.choice(["", "", "-"]) + rtext(rng, d - 1, 3) if rng.random() < .5 else rtext(rng, d - 1, 2))
    if lvl <= 2 and r < .76:
        return rtext(rng, d - 1, 3) + "^" + rng.choice(["2", "3", "-1", "-2", "(" + rtext(rng, d - 1) + ")"])
    if r < .86:
        return rng.choice(["sin", "cos", "exp", "abs", "atan", "erf", "sqrt"]) + "(" + sp() + rtext(rng, d - 1) + sp() + ")"
    return "(" + sp() + rtext(rng, d - 1, 0) + sp() + ")"


def rcond(rng, d):
    if d <= 0 or rng.random() < .5:
        side = lambda: rng.choice(["", "", "-", "2*", "1-"]) + rtext(rng, max(d - 1, 0), 3)      # ^ means "either or" in a condition
        return side() + rng.choice([">", "<", ">=", "<="]) + side()
    r = rng.random()
    par = lambda: "(" + rcond(rng, d - 1) + ")"
    if r < .25:
        return "!" + par()
    return par() + rng.choice(["&", "|", "^", " & "]) + par()




def gen_text(rng):
    g = gen_p(rng)
    while True:
        s = rtext(rng, rng.randrange(1, 6))
        if len(s) < 90:
            break
    g["n"], g["text"] = len(s), [ord(c) for c in s]
    return g


def post_rand(v):
    if not isinstance(v.n, int):
        return []
    s = "".join(chr(v.text[i]) for i in range(v.n))
    try:
        big = Fr(10 ** 12)
        fin = lambda x: band(rle(x, big), rle(-big, x))
        a, b = denotes(s, vals(v, 0)), denotes(s, vals(v, 4))
        return [(l, bor(bnot(fin(x)), bnot(fin(v.new("out")[i])), req(v.new("out")[i], x))) for i, l, x in ((0, "value", a), (1, "value at another point", b), (2, "value again", b))]
    except (Bad, ZeroDivisionError):
        return []


PROP.task("random expressions", "ex_text", [In("n", 1, 120), P("text", "int", lambda v: v.n, esize=1), RA("p", 8), RA("out", 3, "out")],
          post=post_rand, ret="int", gen=gen_text, native_only=True, max_random=3000, nrandom=3000, tol=1e-6)
