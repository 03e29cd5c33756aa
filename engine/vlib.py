"""Contracts, verification tasks, native replay and evidence."""
import ctypes
import importlib
import json
import math
import os
import random
import re
import signal
import sys
import time
import traceback
from fractions import Fraction

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from terms import *          # noqa
import terms as T
import sym as S
from sym import Exec, State, Ptr, SymArr, Obj, Unsupported, Fail, UNDEF
import smt
import irload
import build

ROOT = build.HERE
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


# ---------------------------------------------------------------- parameters
class P:
    """one wrapper parameter"""

    def __init__(self, name, kind, n=None, io="in", lo=None, hi=None, val=None, esize=None, inc=None):
        self.name, self.kind, self.n, self.io, self.lo, self.hi, self.val = name, kind, n, io, lo, hi, val
        self.esize = esize or (8 if kind == "real" else 4)
        self.inc = inc


def Rl(name):
    return P(name, "real")


def In(name, lo=None, hi=None):
    """symbolic int"""
    return P(name, "int", lo=lo, hi=hi)


def K(name, val):
    """a constant"""
    return P(name, "real" if isinstance(val, float) else "int", val=val)


def RA(name, n, io="in"):
    return P(name, "real", n, io)


def IA_(name, n, io="in", lo=None, hi=None, inc=None, val=None):
    return P(name, "int", n, io, lo, hi, val, inc=inc)


class Arr:
    def __init__(self, get, name=""):
        self.get = get
        self.name = name

    def __getitem__(self, i):
        if isinstance(i, slice):
            return [self.get(j) for j in range(i.start or 0, i.stop, i.step or 1)]
        return self.get(i)


class V:
    """view of the inputs and outputs inside a contract"""

    def __init__(self):
        self.__dict__["_new"] = {}

    def new(self, name):
        return self._new[name]


class Task:
    def __init__(self, name, fn, params, pre=None, post=None, ret=None, gen=None, throws=None, contracts=None,
                 tol=1e-7, timeout=150, where="", split=None, nrandom=60, max_random=1500, invariants=None, what="",
                 bounded=None, contract_of=None, conc=None, solver_timeout=4000, extra_modules=(), lemma=None,
                 native_only=False, npre=None, ghost=None, nomerge=None, lazy=False):
        self.__dict__.update(locals())
        del self.__dict__["self"]


class Property:
    def __init__(self, pid, harness, sources=(), extra_native=(), technique="", assumptions=(), libs=()):
        self.id = pid
        self.harness = harness if isinstance(harness, list) else [harness]
        self.sources = list(sources)           # extra /repo translation units, compiled from the current tree
        self.tasks = []
        self.assumptions = list(assumptions)
        self.extra_native = list(extra_native)
        self.libs = list(libs)
        self.checks = []

    def task(self, *a, **kw):
        t = Task(*a, **kw)
        self.tasks.append(t)
        return t


def num(x, v):
    return x(v) if callable(x) else x


# ---------------------------------------------------------------- symbolic side
def sym_inputs(task, ex, st):
    v = V()
    args = []
    objs = {}
    for p in task.params:
        if p.n is None:
            if p.val is not None:
                x = rconst(p.val) if p.kind == "real" else p.val
            elif p.kind == "real":
                x = rvar(p.name)
            else:
                x = ivar(p.name)
                if p.lo is not None:
                    st.assume(ile(num(p.lo, v), x))
                if p.hi is not None:
                    st.assume(ilt(x, num(p.hi, v)))
            setattr(v, p.name, x)
            args.append(x)
            continue
        n = num(p.n, v)
        if isinstance(p.val, (list, tuple)):
            base = (lambda i, p=p: (rconst(p.val[i]) if p.kind == "real" else p.val[i]))
        elif p.kind == "real":
            base = (lambda i, nm=p.name: rsel(nm, i))
        else:
            base = (lambda i, nm=p.name: isel(nm, i))
        if isinstance(n, int) and n <= 5000:
            o = ex.new_obj(st, n * p.esize, p.name)
            if p.io != "out":
                for i in range(n):
                    o.cells[i * p.esize] = (p.esize, base(i))
            args.append(Ptr(o.id, 0))
        else:
            if p.io == "out":
                base0 = lambda i: UNDEF
                ptr = ex.arr_obj(st, p.name, n, p.esize, p.kind, base0)
            else:
                ptr = ex.arr_obj(st, p.name, n, p.esize, p.kind, base)
            args.append(ptr)
        objs[p.name] = args[-1].obj
        setattr(v, p.name, Arr(base, p.name))
        if p.kind == "int" and (p.lo is not None or p.hi is not None) and p.val is None:
            if isinstance(n, int):
                for i in range(n):
                    if p.lo is not None:
                        st.assume(ile(num(p.lo, v), base(i)))
                    if p.hi is not None:
                        st.assume(ilt(base(i), num(p.hi, v)))
            else:
                q = IA.mk("v", "q!" + p.name)
                c = True
                if p.lo is not None:
                    c = band(c, ile(num(p.lo, v), base(iatom(q))))
                if p.hi is not None:
                    c = band(c, ilt(base(iatom(q)), num(p.hi, v)))
                st.assume(forall(q, 0, n, c))
        if p.inc and p.kind == "int":
            # strictly increasing
            if isinstance(n, int):
                for i in range(n - 1):
                    st.assume(ilt(base(i), base(i + 1)))
    return v, args, objs


def sym_new(task, ex, st, objs, v0, ret):
    v = V()
    v.__dict__.update({k: x for k, x in v0.__dict__.items() if k != "_new"})
    v.__dict__["_new"] = {}
    for p in task.params:
        if p.n is None or p.io == "in":
            continue
        o = st.mem[objs[p.name]]

        class TY:
            kind = "float" if p.kind == "real" else "int"
            bits = 8 * p.esize
            store = p.esize

        def get(i, o=o, p=p, TY=TY):
            x = ex.load(st, Ptr(o.id, imul(i, p.esize)), TY)
            if x is UNDEF:
                return rvar("UNDEFINED") if p.kind == "real" else ivar("UNDEFINED")
            if isinstance(x, (B, bool)):
                return S.toi(x)
            return x
        v._new[p.name] = Arr(get, p.name)
    v.ret = ret
    return v


def goals_of(post, v):
    g = post(v)
    out = []
    for x in (g or []):
        out.append(x if isinstance(x, tuple) else ("post", x))
    return out


class Result:
    def __init__(self, task):
        self.task = task.name
        self.status = "proved"
        self.obs = []            # (name, kind, status, backend, secs)
        self.error = None
        self.called = []
        self.contracts_used = {}
        self.ext = []
        self.loops = []
        self.time = 0
        self.stats = {}
        self.cex = []            # candidate inputs
        self.paths = 0
        self.native = {}
        self.vacuous = False


def run_task(prop, task, mods, tier):
    """prove one contract; returns a Result"""
    res = Result(task)
    t0 = time.time()
    try:
        if task.lemma is not None:
            obs = task.lemma()
            pr = smt.Prover(task.solver_timeout)
            pend = [S.Ob(n, tuple(pc), g, "lemma") for n, pc, g in obs]
            discharge(res, task, pr, pend, None)
        else:
            prove_task(res, prop, task, mods)
    except Unsupported as e:
        res.status = "unsupported"
        res.error = str(e)
        res.tb = traceback.format_exc()[-1500:]
    except Fail as e:
        res.status = "unsupported"
        res.error = "run-time error while analysing a loop: " + str(e)
    except (RecursionError, MemoryError, TooBig) as e:
        res.status = "unsupported"
        res.error = type(e).__name__
    except Exception as e:
        res.status = "unsupported"
        res.error = "internal: %s" % e
        res.tb = traceback.format_exc()[-2500:]
    res.time = time.time() - t0
    res.stats = dict(smt.STATS)
    return res


def prove_task(res, prop, task, mods):
    pr = smt.Prover(task.solver_timeout)
    ex = Exec(mods, pr, contracts=list(task.contracts or []))
    ex.nomerge = task.nomerge
    ex.lazy = task.lazy          # branches are explored without asking the solver whether they are feasible
    if task.invariants:
        ex.loop_invariants = task.invariants
    st = State()
    v, args, objs = sym_inputs(task, ex, st)
    ex.data_pre = v
    if task.pre:
        for c in task.pre(v):
            st.assume(c)
    if task.ghost:
        for c in task.ghost(v):     # definitions of ghost functions (conservative: each value is defined once)
            st.assume(c)
    # vacuity: the precondition has a model
    sc = smt.sat([c for c in st.pc if isinstance(c, B) and not smt.has_forall(c)], 3000)[0] if st.pc else "sat"
    if sc == "unsat":
        res.vacuous = True
        res.status = "unsupported"
        res.error = "precondition unsatisfiable"
        return
    ex.data_pre = v
    outs = ex.run(st, task.fn, args)
    res.paths = len(outs)
    pend = list(ex.obs)
    nret = 0
    for o in outs:
        if o.kind == "ret":
            nret += 1
            if task.throws is not None:
                tc = task.throws(v)
                if tc is not False:
                    pend.append(S.Ob("rejected input must not be accepted", o.st.pc, bnot(tc), "throws"))
                    o.st.assume(bnot(tc))
            if task.post:
                w = sym_new(task, ex, o.st, objs, v, S.toi(o.val) if isinstance(o.val, (B, bool)) else o.val)
                n0 = len(ex.obs)
                gs = goals_of(task.post, w)
                del ex.obs[n0:]          # reads made by the contract itself are not obligations of the code
                for lab, g in gs:
                    pend.append(S.Ob(lab, o.st.pc, g, "post"))
        else:
            tc = task.throws(v) if task.throws is not None else False
            pend.append(S.Ob("no exception / abort (%s)" % (str(o.val)[:80],), o.st.pc, tc, "throws"))
    if nret == 0 and (task.throws is None or task.throws(v) is not True):
        pend.append(S.Ob("the function returns", (), False, "termination"))
    res.called = sorted({ex.dem.get(n, n) for n in ex.called})
    res.contracts_used = dict(ex.contracts_used)
    res.ext = sorted({ex.dem.get(n, n) for n in ex.assumed_ext})
    res.loops = list(ex.loops_summarised)
    discharge(res, task, pr, pend, v)


def discharge(res, task, pr, pend, v):
    bad = []
    for ob in pend:
        if ob.goal is True:
            res.obs.append((ob.name, ob.kind, "proved", "trivial", 0.0))
            continue
        t1 = time.time()
        status, info = pr.prove(ob.pc, ob.goal)
        dt = time.time() - t1
        res.obs.append((ob.name, ob.kind, status, str(info) if status == "proved" else "", dt))
        if status != "proved":
            bad.append((ob, status, info))
            res.status = "refuted" if (status == "refuted" or res.status == "refuted") else "unknown"
            if v is not None and len(res.cex) < 60:
                res.cex += candidates(task, ob, info, v)
            if len(bad) >= 6:
                break
    res.bad = [(ob.name, ob.kind, status, str(ob.goal)[:600], [str(c)[:200] for c in ob.pc][:40]) for ob, status, info in bad]
    if not res.obs:
        res.status = "unsupported"
        res.error = "no obligations generated"


# ---------------------------------------------------------------- models -> inputs
def model_vals(m, free):
    """z3 model -> {('r'|'i', name): value}, {array: {idx: value}}"""
    import z3
    sc, ar = {}, {}

    def val(x):
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            return float(x.as_fraction())
        if z3.is_algebraic_value(x):
            return float(x.approx(20).as_fraction())
        return None
    for d in m.decls():
        n = d.name()
        if d.arity() == 0:
            if n.startswith(("r!", "i!")):
                y = val(m[d])
                if y is not None:
                    sc[n[2:]] = y
        elif n.startswith(("ar!", "ai!")):
            fi = m[d]
            if not hasattr(fi, "as_list"):
                continue
            t = {}
            for e in fi.as_list():
                if isinstance(e, list):
                    idx = [val(x) for x in e[:-1]]
                    t[tuple(idx) if len(idx) > 1 else idx[0]] = val(e[-1])
                else:
                    t["else"] = val(e)
            ar[n[3:]] = t
    return sc, ar


def candidates(task, ob, info, v):
    """concrete inputs suggested by the solver"""
    out = []
    models = []
    if info is not None and not isinstance(info, str):
        models.append(info)
    pc = [c for c in ob.pc if c is not True]
    st, m = smt.sat(pc + ([bnot(ob.goal)] if isinstance(ob.goal, B) else []), 3000, True)
    if st == "sat" and m is not None:
        models.append(m)
    st, m = smt.sat([c for c in pc if not smt.has_forall(c)], 3000, True)
    if st == "sat" and m is not None:
        models.append(m)
    for m in models:
        try:
            out.append(model_vals(m, None))
        except Exception:
            pass
    return out


class Inputs:
    """concrete values of all parameters"""

    def __init__(self):
        self.sc = {}
        self.ar = {}


class NV(V):
    """numeric view for evaluating sizes"""


def rnd_real(rng, mode):
    if mode == 0:
        return rng.uniform(-2, 2)
    if mode == 1:
        return rng.choice([-2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0, 3.0])
    if mode == 2:
        return rng.uniform(-100, 100)
    return rng.uniform(-2, 2) if rng.random() < 0.7 else rng.choice([0.0, 1.0, -1.0])


def make_inputs(task, rng, model=None, fill="random"):
    """random inputs, overridden by a solver model where it gives a value"""
    base = None
    if task.gen is not None:
        base = task.gen(rng)
    sc, ar = model or ({}, {})
    inp = Inputs()
    v = NV()
    mode = rng.randrange(4)
    for p in task.params:
        if p.n is None:
            if p.val is not None:
                x = p.val
            elif model and p.name in sc:
                x = sc[p.name]
                if p.kind == "int" and not (-1 << 31 <= x < 1 << 31):
                    return None
            elif base is not None and p.name in base:
                x = base[p.name]
            elif p.kind == "real":
                x = rnd_real(rng, mode)
            else:
                lo = num(p.lo, v) if p.lo is not None else 0
                hi = num(p.hi, v) if p.hi is not None else lo + 7
                if hi <= lo:
                    return None
                x = rng.randrange(lo, min(hi, lo + 9) if rng.random() < 0.9 else min(hi, lo + 200))
            inp.sc[p.name] = x
            setattr(v, p.name, x)
            continue
        n = num(p.n, v)
        if isinstance(n, I):
            n = ev(n, env_of(inp))
        n = int(n)
        if n > 200000 or n < 0:
            return None
        if isinstance(p.val, (list, tuple)):
            inp.ar[p.name] = list(p.val)
        elif p.io == "out":
            inp.ar[p.name] = [0] * n
        else:
            if base is not None and p.name in base and not (model and p.name in ar):
                l = list(base[p.name])
                if len(l) != n:
                    l = (l + l * (n // max(len(l), 1) + 1))[:n] if l else [0] * n
                inp.ar[p.name] = l
            else:
                l = []
                lo = num(p.lo, v) if p.lo is not None else -3
                hi = num(p.hi, v) if p.hi is not None else lo + 8
                lo, hi = int(lo), int(hi)
                if p.kind == "int" and hi <= lo and n > 0:
                    return None
                bl = list(base[p.name]) if base is not None and p.name in base else None
                for i in range(n):
                    if bl is not None and i < len(bl):
                        l.append(bl[i])
                    else:
                        l.append(rnd_real(rng, mode) if p.kind == "real" else rng.randrange(lo, hi))
                if p.inc:
                    if hi - lo < n:
                        return None
                    l = sorted(rng.sample(range(lo, hi), n))
                if model and p.name in ar:
                    t = ar[p.name]
                    for i in range(n):
                        x = t.get(i, t.get("else") if fill == "else" else None)
                        if x is not None:
                            l[i] = x
                inp.ar[p.name] = l
        arr = inp.ar[p.name]
        setattr(v, p.name, Arr(lambda i, arr=arr: arr[int(i)] if 0 <= int(i) < len(arr) else 0))
    return inp


def env_of(inp, out=None, ret=None):
    vals = dict(inp.sc)
    arrays = {}
    for k, l in inp.ar.items():
        arrays[k] = (lambda i, l=l: l[i] if 0 <= i < len(l) else float("nan"))
    if out is not None:
        for k, l in out.items():
            arrays[k + "'"] = (lambda i, l=l: l[i] if 0 <= i < len(l) else float("nan"))
        vals["ret'"] = ret
    vals["+inf"] = float("inf")
    vals["-inf"] = float("-inf")
    return Env(vals, arrays)


def spec_view(task, post=False):
    """inputs/outputs as symbols (for numeric evaluation of the contract)"""
    v = V()
    for p in task.params:
        if p.n is None:
            x = (rconst(p.val) if p.kind == "real" else p.val) if p.val is not None else \
                (rvar(p.name) if p.kind == "real" else ivar(p.name))
            setattr(v, p.name, x)
        else:
            if isinstance(p.val, (list, tuple)):
                base = (lambda i, p=p: (rconst(p.val[i]) if p.kind == "real" else p.val[i]))
            elif p.kind == "real":
                base = (lambda i, nm=p.name: rsel(nm, i))
            else:
                base = (lambda i, nm=p.name: isel(nm, i))
            setattr(v, p.name, Arr(base, p.name))
            if p.io != "in":
                if p.kind == "real":
                    b2 = (lambda i, nm=p.name: rsel(nm + "'", i))
                else:
                    b2 = (lambda i, nm=p.name: isel(nm + "'", i))
                v._new[p.name] = Arr(b2, p.name)
    v.ret = rvar("ret'") if task.ret == "real" else ivar("ret'")
    return v


def teval(c, env, tol, strict=False):
    """evaluate a boolean with tolerance; strict: near ties count as False (for
    preconditions), otherwise near ties count as True"""
    if c is True or c is False:
        return c
    o, a = c.op, c.args
    if o == "and":
        return all(teval(x, env, tol, strict) for x in a)
    if o == "or":
        return any(teval(x, env, tol, strict) for x in a)
    if o == "not":
        return not teval(a[0], env, tol, not strict)
    if o == "forall":
        lo, hi = ev(a[1], env), ev(a[2], env)
        for k in range(lo, hi):
            e2 = Env(dict(env.vals), env.arrays, env.exact, env.fns)
            e2.vals[a[0].args[0]] = k
            if not teval(a[3], e2, tol, strict):
                return False
        return True
    if o in ("rlt", "rle", "req"):
        x, y = ev(a[0], env), ev(a[1], env)
        if x != x or y != y:
            return o == "req" and x != x and y != y and not strict      # undefined in the specification as well
        if x == y:
            return o != "rlt" or not strict
        if math.isinf(x) or math.isinf(y):
            return o != "req" and x < y
        near = abs(x - y) <= tol * (1 + max(abs(x), abs(y)))
        if o == "req":
            return near if not strict else x == y
        if near:
            return not strict
        return x < y
    return bool(ev(c, env))


class Native:
    PAD = 32

    def __init__(self, path):
        # functions that no wrapper reaches may stay undefined: bind lazily
        c = ctypes.CDLL(None, use_errno=True)
        c.dlopen.restype, c.dlopen.argtypes = ctypes.c_void_p, [ctypes.c_char_p, ctypes.c_int]
        c.dlerror.restype = ctypes.c_char_p
        h = c.dlopen(path.encode(), 1)
        if not h:
            raise OSError((c.dlerror() or b"").decode())
        self.lib = ctypes.CDLL(path, handle=h)

    def call(self, task, inp):
        f = getattr(self.lib, task.fn)
        f.restype = {"real": ctypes.c_double, "int": ctypes.c_int, "bool": ctypes.c_bool, None: None}[task.ret]
        cargs = []
        bufs = {}
        for p in task.params:
            if p.n is None:
                cargs.append(ctypes.c_double(inp.sc[p.name]) if p.kind == "real" else ctypes.c_int(int(inp.sc[p.name])))
            else:
                l = inp.ar[p.name]
                ct = ctypes.c_double if p.kind == "real" else {4: ctypes.c_int, 8: ctypes.c_longlong, 1: ctypes.c_ubyte}[p.esize]
                can = 7.25e77 if p.kind == "real" else 99
                b = (ct * (len(l) + 2 * self.PAD))(*([can] * self.PAD + [ct(x).value if p.kind == "real" else int(x) for x in l] + [can] * self.PAD))
                bufs[p.name] = (b, len(l), can)
                cargs.append(ctypes.byref(b, self.PAD * ctypes.sizeof(ct)))
        r = f(*cargs)
        out = {}
        for p in task.params:
            if p.n is None:
                continue
            b, n, can = bufs[p.name]
            l = list(b)
            if any(x != can for x in l[:self.PAD]) or any(x != can for x in l[self.PAD + n:]):
                raise Canary("write outside of " + p.name)
            out[p.name] = l[self.PAD:self.PAD + n]
        if task.ret == "int" or task.ret == "bool":
            r = int(r)
        return r, out


class Canary(Exception):
    pass


def check_native(task, nat, inp):
    """-> None (precondition false / not applicable), True, or (label, detail)"""
    v = spec_view(task)
    env = env_of(inp)
    try:
        if task.pre or task.npre:
            for c in (task.pre(v) if task.pre else []) + (task.npre(v) if task.npre else []):
                if not teval(c, env, 1e-9, True):
                    return None
        # declared ranges
        nv = NV()
        for p in task.params:
            if p.n is None:
                setattr(nv, p.name, inp.sc[p.name])
                if p.kind == "int" and p.val is None:
                    if p.lo is not None and inp.sc[p.name] < num(p.lo, nv):
                        return None
                    if p.hi is not None and inp.sc[p.name] >= num(p.hi, nv):
                        return None
            else:
                arr = inp.ar[p.name]
                setattr(nv, p.name, Arr(lambda i, arr=arr: arr[int(i)] if 0 <= int(i) < len(arr) else 0))
                if p.kind == "int" and p.io != "out" and p.val is None:
                    if p.lo is not None and any(x < num(p.lo, nv) for x in inp.ar[p.name]):
                        return None
                    if p.hi is not None and any(x >= num(p.hi, nv) for x in inp.ar[p.name]):
                        return None
                    if p.inc and any(x >= y for x, y in zip(inp.ar[p.name], inp.ar[p.name][1:])):
                        return None
    except (KeyError, OverflowError, ZeroDivisionError, TypeError, IndexError):
        return None
    PHASE[0] = 1
    try:
        r, out = nat.call(task, inp)
        PHASE[0] = 2
    except Canary as e:
        return ("memory safety", str(e))
    env = env_of(inp, out, r)
    if task.throws is not None:
        tc = teval(task.throws(v), env, 0, False) if not isinstance(task.throws(v), bool) else task.throws(v)
        # wrappers report a C++ exception as return value -77777
        if (r == -77777) != bool(tc):
            return ("exception behaviour", "threw=%s expected=%s" % (r == -77777, bool(tc)))
        if tc:
            return True
    elif task.ret in ("int",) and r == -77777:
        return ("no exception", "the code threw an exception")
    # symbolic sizes in post conditions are evaluated concretely
    w = spec_view(task)
    for p in task.params:
        if p.n is None and p.kind == "int":
            setattr(w, p.name, int(inp.sc[p.name]))
    for p in task.params:
        if p.n is not None and p.kind == "int" and p.io == "in":
            l = inp.ar[p.name]
            setattr(w, p.name, Arr(lambda i, l=l, nm=p.name: int(l[i]) if isinstance(i, int) and 0 <= i < len(l) else isel(nm, i), p.name))
    try:
        for lab, g in goals_of(task.post, w) if task.post else []:
            if not teval(g, env, task.tol):
                return (lab, describe(g, env))
    except (OverflowError, ZeroDivisionError):
        return None
    return True


def describe(g, env):
    try:
        if isinstance(g, B) and g.op == "or":
            g = [x for x in g.args if isinstance(x, B) and x.op in ("req", "rlt", "rle", "ieq", "ile")][-1]
        if isinstance(g, B) and g.op in ("req", "rlt", "rle"):
            return "%s: %r vs %r" % (g.op, ev(g.args[0], env), ev(g.args[1], env))
        if isinstance(g, B) and g.op in ("ieq", "ile"):
            return "%s: %r" % (g.op, ev(g.args[0], env))
    except Exception:
        pass
    return str(g)[:300]


def in_child(fn, timeout):
    """run fn() in a forked child (the code under test may crash or hang); returns
    ('ok', value) / ('crash', signal) / ('timeout', None)"""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            data = pickle.dumps(fn())
            with os.fdopen(w, "wb") as f:
                f.write(data)
            os._exit(0)
        except BaseException as e:
            try:
                with open("/dev/null", "w") as f:
                    f.write(str(e))
                os.write(w, pickle.dumps(("pyerror", traceback.format_exc()[-1500:])))
            except BaseException:
                pass
            os._exit(3)
    os.close(w)
    import select
    data = b""
    end = time.time() + timeout
    to = False
    while True:
        left = end - time.time()
        if left <= 0:
            to = True
            os.kill(pid, signal.SIGKILL)
            break
        rd, _, _ = select.select([r], [], [], left)
        if rd:
            b = os.read(r, 1 << 20)
            if not b:
                break
            data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if to:
        return ("timeout", None)
    if os.WIFSIGNALED(st):
        return ("crash", os.WTERMSIG(st))
    try:
        return ("ok", pickle.loads(data))
    except Exception:
        return ("crash", os.WEXITSTATUS(st))


import mmap
# shared with the children: 1 while the real code runs (a child stopped at any other time says nothing about the code)
PHASE = mmap.mmap(-1, 1)


def stopped_in_code(r):
    if r[0] == "crash":
        return PHASE[0] >= 1 and r[1] in (4, 6, 7, 8, 11)   # also memory damage that shows later
    return r[0] == "timeout" and PHASE[0] == 1


def probe(task, nat, inp):
    PHASE[0] = 0
    return in_child(lambda: check_native(task, nat, inp), 20)


def search(task, nat, rng, models, budget, count):
    """try solver models, then random inputs; returns (inputs, label, detail) or None, and the number tried"""
    t0 = time.time()
    tried = 0
    cands = []
    for m in models:
        for f in ("else", "random", "random"):
            try:
                i = make_inputs(task, rng, m, f)
            except Exception:
                i = None
            if i is not None:
                cands.append(i)
    for i in cands:
        r = probe(task, nat, i)
        tried += 1
        if stopped_in_code(r):
            return (i, "the code terminates normally", r), tried
        if r[0] == "ok" and isinstance(r[1], tuple):
            if r[1][0] == "pyerror":
                continue
            return (i, r[1][0], r[1][1]), tried
        if time.time() - t0 > budget:
            return None, tried
    # batches of random inputs in one child
    while tried < count and time.time() - t0 < budget:
        batch = min(100, count - tried)
        seed = rng.randrange(1 << 60)

        def work(seed=seed, batch=batch):
            rg = random.Random(seed)
            ok = 0
            t1 = time.time()
            for _ in range(batch):
                if time.time() - t1 > 45:
                    break
                i = make_inputs(task, rg)
                if i is None:
                    continue
                with open(os.path.join(build.tmpdir(), "last.%d" % os.getppid()), "wb") as f:
                    import pickle
                    pickle.dump(i, f)
                r = check_native(task, nat, i)
                if r is True:
                    ok += 1
                elif r is not None:
                    return ("bad", i, r)
            return ("ok", ok)
        PHASE[0] = 0
        r = in_child(work, 120)
        tried += batch
        if stopped_in_code(r):
            import pickle
            try:
                with open(os.path.join(build.tmpdir(), "last.%d" % os.getpid()), "rb") as f:
                    i = pickle.load(f)
            except Exception:
                i = None
            if r[0] == "timeout":
                r = probe(task, nat, i)
                if not stopped_in_code(r):
                    continue
            return (i, "the code terminates normally", r), tried
        if r[0] == "ok" and r[1][0] == "bad":
            return (r[1][1], r[1][2][0], r[1][2][1]), tried
        if r[0] == "ok" and r[1][0] == "pyerror":
            raise RuntimeError("native check: " + r[1][1])
        if r[0] == "ok":
            task.__dict__["native_ok"] = task.__dict__.get("native_ok", 0) + r[1][1]
    return None, tried
