"""Contracts assumed for functions outside the verified sources (libc, libstdc++
runtime, iostreams, MPI and Kokkos runtime).  Everything used is reported as an
assumption in the evidence."""
import re
from fractions import Fraction
from terms import *
from irload import UNDEF


def _sym():
    import sym
    return sym


def op_new(ex, st, args, name):
    S = _sym()
    n = S.toi(args[0])
    if isinstance(n, int):
        o = ex.new_obj(st, n, "heap%d" % ex.next_obj)
        if n > 65536:
            o.arr = {}
        return S.Ptr(o.id, 0)
    o = ex.new_obj(st, n, "heap%d" % ex.next_obj)
    o.arr = {}
    return S.Ptr(o.id, 0)


def op_delete(ex, st, args, name):
    S = _sym()
    p = args[0]
    if isinstance(p, S.Ptr) and p.obj:
        o = st.w(p.obj)
        if o.freed:
            raise S.Fail("double free of " + o.name)
        o.freed = True
    return None


def calloc(ex, st, args, name):
    S = _sym()
    n = imul(S.toi(args[0]), S.toi(args[1]))
    r = op_new(ex, st, [n], name)
    st.mem[r.obj].init = "zero"
    return r


def nop(ex, st, args, name):
    return None


def zero(ex, st, args, name):
    return 0


def first(ex, st, args, name):
    """stream-like functions returning their first argument"""
    return args[0] if args else None


def throw(ex, st, args, name):
    S = _sym()
    d = ex.dem.get(name, name)
    return [S.Outcome("throw", st, ("std", d))]


def cxa_throw(ex, st, args, name):
    S = _sym()
    return [S.Outcome("throw", st, ("throw", args[1] if len(args) > 1 else None))]


def terminate(ex, st, args, name):
    S = _sym()
    return [S.Outcome("throw", st, ("terminate", name))]


def alloc_exc(ex, st, args, name):
    S = _sym()
    o = ex.new_obj(st, args[0] if isinstance(args[0], int) else 64, "exc")
    return S.Ptr(o.id, 0)


def guard_acquire(ex, st, args, name):
    S = _sym()
    p = args[0]
    o = st.mem[p.obj]
    c = o.cells.get(p.off)
    if c is not None and c[1] == 1:
        return 0
    return 1


def guard_release(ex, st, args, name):
    p = args[0]
    st.w(p.obj).cells[p.off] = (1, 1)
    return None


def memcpy(ex, st, args, name):
    S = _sym()
    ex.memcpy(st, args[0], args[1], S.toi(args[2]))
    return args[0]


def memset(ex, st, args, name):
    S = _sym()
    ex.memset(st, args[0], args[1], S.toi(args[2]))
    return args[0]


class _T8:
    kind = "int"
    bits = 8
    store = 1


def byte(ex, st, p, i):
    S = _sym()
    return ex.load(st, S.Ptr(p.obj, iadd(p.off, i)), _T8)


def strlen(ex, st, args, name):
    i = 0
    while True:
        b = byte(ex, st, args[0], i)
        if not isinstance(b, int):
            raise Unsupported("strlen of symbolic string")
        if b == 0:
            return i
        i += 1


def memcmp(ex, st, args, name):
    S = _sym()
    n = S.toi(args[2])
    if not isinstance(n, int):
        raise Unsupported("memcmp symbolic length")
    r = 0
    res = None
    out = 0
    for i in range(n - 1, -1, -1):
        a, b = byte(ex, st, args[0], i), byte(ex, st, args[1], i)
        if a is UNDEF or b is UNDEF:
            raise Unsupported("memcmp of undefined bytes")
        if isinstance(a, int) and isinstance(b, int):
            a &= 255
            b &= 255
            if a != b:
                out = -1 if a < b else 1
        else:
            out = ex.ite(ieq(a, b), out, ex.ite(ilt(a, b), -1, 1))
    return out


def strcmp(ex, st, args, name):
    i = 0
    while True:
        a, b = byte(ex, st, args[0], i), byte(ex, st, args[1], i)
        if not isinstance(a, int) or not isinstance(b, int):
            raise Unsupported("strcmp of symbolic string")
        a &= 255
        b &= 255
        if a != b:
            return -1 if a < b else 1
        if a == 0:
            return 0
        i += 1


def strncmp(ex, st, args, name):
    n = args[2]
    for i in range(n):
        a, b = byte(ex, st, args[0], i), byte(ex, st, args[1], i)
        if not isinstance(a, int) or not isinstance(b, int):
            raise Unsupported("strncmp of symbolic string")
        a &= 255
        b &= 255
        if a != b:
            return -1 if a < b else 1
        if a == 0:
            return 0
    return 0


def memchr(ex, st, args, name):
    S = _sym()
    for i in range(args[2]):
        a = byte(ex, st, args[0], i)
        if not isinstance(a, int):
            raise Unsupported("memchr symbolic")
        if (a & 255) == (args[1] & 255):
            return S.Ptr(args[0].obj, iadd(args[0].off, i))
    return S.NULLP


def rfun(nm):
    def f(ex, st, args, name):
        return ex.real_fn(st, nm, args)
    return f


def fabs(ex, st, args, name):
    return rfn("fabs", args[0])


def iabs(ex, st, args, name):
    S = _sym()
    x = S.toi(args[0])
    if isinstance(x, int):
        return abs(x)
    return ex.ite(ilt(x, 0), ineg(x), x)


def fmax(ex, st, args, name):
    return rite(rlt(args[0], args[1]), args[1], args[0])


def fmin(ex, st, args, name):
    return rite(rlt(args[1], args[0]), args[1], args[0])


def isdig(lo):
    def f(ex, st, args, name):
        c = args[0]
        if isinstance(c, int):
            return int(chr(c & 255).isdigit()) if lo == "d" else int(chr(c & 255) in " \t\n\v\f\r")
        raise Unsupported(name)
    return f


def ctype(g):
    def f(ex, st, args, name):
        c = args[0]
        if isinstance(c, int) and -128 <= c < 256:
            return g(c)
        raise Unsupported(name)
    return f


class _TP:
    kind = "ptr"
    bits = 64
    store = 8


def dyncast(ex, st, args, name):
    """__dynamic_cast along single inheritance: the type information of the object is read from its table"""
    S = _sym()
    p, dst = args[0], args[2]
    if not isinstance(p, S.Ptr) or p.obj == 0:
        return S.NULLP
    vt = ex.load(st, p, _TP)
    ti = ex.load(st, S.Ptr(vt.obj, isub(vt.off, 8)), _TP)
    top = ex.load(st, S.Ptr(vt.obj, isub(vt.off, 16)), _TL)
    for _ in range(64):
        if not isinstance(ti, S.Ptr) or ti.obj == 0:
            return S.NULLP
        if ti.obj == dst.obj:
            return S.Ptr(p.obj, iadd(p.off, top))
        o = st.mem[ti.obj]
        if o.init == "extern":
            return S.NULLP
        size = o.size
        if size == 16:
            return S.NULLP
        if size != 24:
            raise Unsupported("dynamic_cast with multiple inheritance")
        ti = ex.load(st, S.Ptr(ti.obj, 16), _TP)
    raise Unsupported("dynamic_cast")


class _TL:
    kind = "int"
    bits = 64
    store = 8


def text_at(ex, st, p, n=None):
    out = ""
    while n is None or len(out) < n:
        b = byte(ex, st, p, len(out))
        if not isinstance(b, int):
            raise Unsupported("number in symbolic text")
        if b == 0:
            break
        out += chr(b & 255)
    return out


NUM = re.compile(r"\s*([-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)")


def strtod(ex, st, args, name):
    S = _sym()
    m = NUM.match(text_at(ex, st, args[0]))
    used = m.end() if m else 0
    if isinstance(args[1], S.Ptr) and args[1].obj:
        ex.store(st, args[1], S.Ptr(args[0].obj, iadd(args[0].off, used)), _TP)
    return rconst(Fraction(float(m.group(1)))) if m else ZERO


def strtol(ex, st, args, name):
    S = _sym()
    m = re.match(r"\s*([-+]?\d+)", text_at(ex, st, args[0]))
    if args[2] != 10:
        raise Unsupported("strtol base")
    used = m.end() if m else 0
    if isinstance(args[1], S.Ptr) and args[1].obj:
        ex.store(st, args[1], S.Ptr(args[0].obj, iadd(args[0].off, used)), _TP)
    return int(m.group(1)) if m else 0


def strchr(ex, st, args, name):
    S = _sym()
    t = text_at(ex, st, args[0])
    c = args[1]
    if not isinstance(c, int):
        raise Unsupported("strchr symbolic")
    k = len(t) if c & 255 == 0 else t.find(chr(c & 255))
    return S.NULLP if k < 0 else S.Ptr(args[0].obj, iadd(args[0].off, k))


def errno_loc(ex, st, args, name):
    S = _sym()
    i = getattr(ex, "errno_id", None)
    if i is None or i not in st.mem:
        i = ex.new_obj(st, 4, "errno").id
        ex.errno_id = i
        ex.store(st, S.Ptr(i, 0), 0, _T4)
    return S.Ptr(i, 0)


class _T4:
    kind = "int"
    bits = 32
    store = 4


def put_text(ex, st, p, t):
    S = _sym()
    for i, c in enumerate(t):
        ex.store(st, S.Ptr(p.obj, iadd(p.off, i)), ord(c), _T8)
    return len(t)


def int_digits(ex, st, args, name):
    if not isinstance(args[0], int):
        raise Unsupported("decimal text of a symbolic integer")
    return put_text(ex, st, args[1], str(args[0]))


def parse_real(ex, st, args, name):
    m = NUM.match(text_at(ex, st, args[0], args[1]))
    ex.store(st, args[2], m.end() if m else 0, _T4)
    return rconst(Fraction(float(m.group(1)))) if m else ZERO


def table():
    t = {}
    for n in ("_Znwm", "_Znam", "malloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"):
        t[n] = op_new
    for n in ("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free"):
        t[n] = op_delete
    t["calloc"] = calloc
    t["__cxa_throw"] = cxa_throw
    t["__cxa_rethrow"] = cxa_throw
    t["_ZSt9terminatev"] = terminate
    t["abort"] = terminate
    t["exit"] = terminate
    t["__cxa_pure_virtual"] = terminate
    t["__cxa_call_unexpected"] = terminate
    t["__assert_fail"] = terminate
    t["__cxa_allocate_exception"] = alloc_exc
    t["__cxa_free_exception"] = nop
    t["__cxa_begin_catch"] = lambda ex, st, a, n: _sym().NULLP
    t["__cxa_end_catch"] = nop
    t["__cxa_guard_acquire"] = guard_acquire
    t["__cxa_guard_release"] = guard_release
    t["__cxa_guard_abort"] = nop
    t["__cxa_atexit"] = zero
    t["memcpy"] = memcpy
    t["memmove"] = memcpy
    t["memset"] = memset
    t["strlen"] = strlen
    t["memcmp"] = memcmp
    t["strcmp"] = strcmp
    t["strncmp"] = strncmp
    t["memchr"] = memchr
    for n in ("sqrt", "acos", "cos", "sin", "tan", "asin", "atan", "log", "exp", "floor", "ceil", "log10", "erf",
              "erfc", "cbrt", "round", "trunc", "pow", "atan2", "fmod"):
        t[n] = rfun(n)
    t["fabs"] = fabs
    t["abs"] = iabs
    t["fmax"] = fmax
    t["fmin"] = fmin
    t["isdigit"] = isdig("d")
    t["isspace"] = isdig("s")
    t["tolower"] = ctype(lambda c: c + 32 if 65 <= c <= 90 else c)      # "C" locale
    t["toupper"] = ctype(lambda c: c - 32 if 97 <= c <= 122 else c)
    t["isalpha"] = ctype(lambda c: int(65 <= c <= 90 or 97 <= c <= 122))
    t["isalnum"] = ctype(lambda c: int(65 <= c <= 90 or 97 <= c <= 122 or 48 <= c <= 57))
    t["__dynamic_cast"] = dyncast
    t["strtod"] = strtod
    t["strtol"] = t["__isoc23_strtol"] = strtol
    t["strchr"] = strchr
    t["__errno_location"] = errno_loc
    t["vf_int_digits"] = int_digits
    t["vf_parse_real"] = parse_real
    t["printf"] = zero
    t["puts"] = zero
    t["fprintf"] = zero
    t["putchar"] = zero
    return t


def rx_table():
    R_ = re.compile
    return [
        (R_(r"^std::__throw_"), throw),
        (R_(r"operator<< "), first),
        (R_(r"^std::ostream::|^std::basic_ostream<|^std::ostream& std::|^std::basic_ostream<.*>& std::"), first),
        (R_(r"^std::(runtime_error|logic_error|invalid_argument|out_of_range|length_error|domain_error|exception|bad_alloc|ios_base|locale)::"), nop),
        (R_(r"^std::ios_base::"), nop),
        (R_(r"^std::__cxx11::basic_[io]?stringstream<.*>::~?basic_[io]?stringstream\("), nop),
    ]
