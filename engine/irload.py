"""Load LLVM IR (produced by clang from /repo's current sources) through the
LLVM-C API and decode functions lazily into plain Python tuples.

Nothing here interprets the program: this is the reader that the symbolic
executor (sym.py) works on.
"""
import ctypes as C
from ctypes import c_void_p, c_char_p, c_uint, c_int, c_ulonglong, c_longlong, c_size_t, c_double, POINTER, byref
import os, re, subprocess
from fractions import Fraction

_L = None


def lib():
    global _L
    if _L is not None:
        return _L
    for p in ("/usr/lib/llvm-18/lib/libLLVM.so.1", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so", "libLLVM-18.so"):
        try:
            _L = C.CDLL(p)
            break
        except OSError:
            continue
    if _L is None:
        raise RuntimeError("libLLVM-18 not found")
    sig = {
        "LLVMContextCreate": (c_void_p, []),
        "LLVMCreateMemoryBufferWithContentsOfFile": (c_int, [c_char_p, POINTER(c_void_p), POINTER(c_char_p)]),
        "LLVMParseIRInContext": (c_int, [c_void_p, c_void_p, POINTER(c_void_p), POINTER(c_char_p)]),
        "LLVMGetFirstFunction": (c_void_p, [c_void_p]),
        "LLVMGetNextFunction": (c_void_p, [c_void_p]),
        "LLVMGetNamedFunction": (c_void_p, [c_void_p, c_char_p]),
        "LLVMGetFirstGlobal": (c_void_p, [c_void_p]),
        "LLVMGetNextGlobal": (c_void_p, [c_void_p]),
        "LLVMGetFirstGlobalAlias": (c_void_p, [c_void_p]),
        "LLVMGetNextGlobalAlias": (c_void_p, [c_void_p]),
        "LLVMAliasGetAliasee": (c_void_p, [c_void_p]),
        "LLVMGetLinkage": (c_int, [c_void_p]),
        "LLVMSetValueName2": (None, [c_void_p, c_char_p, c_size_t]),
        "LLVMGetValueName2": (c_void_p, [c_void_p, POINTER(c_size_t)]),
        "LLVMIsDeclaration": (c_int, [c_void_p]),
        "LLVMCountParams": (c_uint, [c_void_p]),
        "LLVMGetParam": (c_void_p, [c_void_p, c_uint]),
        "LLVMGetFirstBasicBlock": (c_void_p, [c_void_p]),
        "LLVMGetNextBasicBlock": (c_void_p, [c_void_p]),
        "LLVMGetFirstInstruction": (c_void_p, [c_void_p]),
        "LLVMGetNextInstruction": (c_void_p, [c_void_p]),
        "LLVMGetInstructionOpcode": (c_int, [c_void_p]),
        "LLVMGetConstOpcode": (c_int, [c_void_p]),
        "LLVMGetNumOperands": (c_int, [c_void_p]),
        "LLVMGetOperand": (c_void_p, [c_void_p, c_uint]),
        "LLVMTypeOf": (c_void_p, [c_void_p]),
        "LLVMGetTypeKind": (c_int, [c_void_p]),
        "LLVMGetIntTypeWidth": (c_uint, [c_void_p]),
        "LLVMGetElementType": (c_void_p, [c_void_p]),
        "LLVMGetArrayLength2": (c_ulonglong, [c_void_p]),
        "LLVMGetVectorSize": (c_uint, [c_void_p]),
        "LLVMCountStructElementTypes": (c_uint, [c_void_p]),
        "LLVMStructGetTypeAtIndex": (c_void_p, [c_void_p, c_uint]),
        "LLVMGetStructName": (c_char_p, [c_void_p]),
        "LLVMGetValueKind": (c_int, [c_void_p]),
        "LLVMConstIntGetSExtValue": (c_longlong, [c_void_p]),
        "LLVMConstIntGetZExtValue": (c_ulonglong, [c_void_p]),
        "LLVMConstRealGetDouble": (c_double, [c_void_p, POINTER(c_int)]),
        "LLVMGetICmpPredicate": (c_int, [c_void_p]),
        "LLVMGetFCmpPredicate": (c_int, [c_void_p]),
        "LLVMCountIncoming": (c_uint, [c_void_p]),
        "LLVMGetIncomingValue": (c_void_p, [c_void_p, c_uint]),
        "LLVMGetIncomingBlock": (c_void_p, [c_void_p, c_uint]),
        "LLVMGetNumSuccessors": (c_uint, [c_void_p]),
        "LLVMGetSuccessor": (c_void_p, [c_void_p, c_uint]),
        "LLVMGetCalledValue": (c_void_p, [c_void_p]),
        "LLVMGetNumArgOperands": (c_uint, [c_void_p]),
        "LLVMGetNormalDest": (c_void_p, [c_void_p]),
        "LLVMGetUnwindDest": (c_void_p, [c_void_p]),
        "LLVMGetGEPSourceElementType": (c_void_p, [c_void_p]),
        "LLVMGetAllocatedType": (c_void_p, [c_void_p]),
        "LLVMGetNumIndices": (c_uint, [c_void_p]),
        "LLVMGetIndices": (POINTER(c_uint), [c_void_p]),
        "LLVMGetModuleDataLayout": (c_void_p, [c_void_p]),
        "LLVMABISizeOfType": (c_ulonglong, [c_void_p, c_void_p]),
        "LLVMStoreSizeOfType": (c_ulonglong, [c_void_p, c_void_p]),
        "LLVMOffsetOfElement": (c_ulonglong, [c_void_p, c_void_p, c_uint]),
        "LLVMGetInitializer": (c_void_p, [c_void_p]),
        "LLVMGlobalGetValueType": (c_void_p, [c_void_p]),
        "LLVMIsGlobalConstant": (c_int, [c_void_p]),
        "LLVMGetAggregateElement": (c_void_p, [c_void_p, c_uint]),
        "LLVMIsConstantString": (c_int, [c_void_p]),
        "LLVMGetAsString": (c_void_p, [c_void_p, POINTER(c_size_t)]),
        "LLVMBasicBlockAsValue": (c_void_p, [c_void_p]),
        "LLVMValueAsBasicBlock": (c_void_p, [c_void_p]),
        "LLVMGetAtomicRMWBinOp": (c_int, [c_void_p]),
        "LLVMPrintValueToString": (c_void_p, [c_void_p]),
        "LLVMGetReturnType": (c_void_p, [c_void_p]),
        "LLVMGetCalledFunctionType": (c_void_p, [c_void_p]),
        "LLVMIsNull": (c_int, [c_void_p]),
        "LLVMGetInstructionParent": (c_void_p, [c_void_p]),
        "LLVMGetCondition": (c_void_p, [c_void_p]),
        "LLVMIsConditional": (c_int, [c_void_p]),
        "LLVMGetSwitchDefaultDest": (c_void_p, [c_void_p]),
        "LLVMIsCleanup": (c_int, [c_void_p]),
        "LLVMGetDebugLocLine": (c_uint, [c_void_p]),
        "LLVMGetDebugLocFilename": (c_void_p, [c_void_p, POINTER(c_uint)]),
        "LLVMInstructionGetDebugLoc": (c_void_p, [c_void_p]),
    }
    for n, (r, a) in sig.items():
        f = getattr(_L, n)
        f.restype = r
        f.argtypes = a
    return _L


OPC = {1: "ret", 2: "br", 3: "switch", 5: "invoke", 7: "unreachable", 66: "fneg", 8: "add", 9: "fadd", 10: "sub",
       11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem",
       20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store",
       29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp",
       37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 60: "addrspacecast", 42: "icmp",
       43: "fcmp", 44: "phi", 45: "call", 46: "select", 49: "va_arg", 50: "extractelement", 51: "insertelement",
       52: "shufflevector", 53: "extractvalue", 54: "insertvalue", 68: "freeze", 55: "fence", 56: "cmpxchg",
       57: "atomicrmw", 58: "resume", 59: "landingpad", 4: "indirectbr", 61: "cleanupret", 62: "catchret",
       63: "catchpad", 64: "cleanuppad", 65: "catchswitch", 67: "callbr"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno", 9: "ueq",
        10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}
# LLVMValueKind
VK_ARG, VK_BB, VK_FUNC, VK_GALIAS, VK_GIFUNC, VK_GVAR = 0, 1, 5, 6, 7, 8
VK_CEXPR = 10
VK_CARR, VK_CSTRUCT, VK_CVEC = 11, 12, 13  # checked below dynamically


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Ty:
    __slots__ = ("kind", "bits", "elem", "n", "fields", "offs", "size", "store", "name")

    def __repr__(self):
        return "%s%s" % (self.kind, self.bits or "")


class Const:
    """aggregate constant: list of member values"""
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items


class Block:
    __slots__ = ("idx", "name", "phis", "insts", "term", "succs", "preds")


class Func:
    __slots__ = ("name", "nparams", "param_tys", "blocks", "nregs", "ret_ty", "loops", "ipdom", "loop_of", "_an",
                 "dominfo", "rnames", "param_regs", "rpo_idx")


class FnRef:
    __slots__ = ("name",)
    _c = {}

    def __new__(cls, name):
        r = cls._c.get(name)
        if r is None:
            r = object.__new__(cls)
            r.name = name
            cls._c[name] = r
        return r

    def __repr__(self):
        return "@" + self.name


class GRef:
    __slots__ = ("name", "off")

    def __init__(self, name, off=0):
        self.name = name
        self.off = off

    def __repr__(self):
        return "@%s+%s" % (self.name, self.off)


class Null:
    def __repr__(self):
        return "null"


NULL = Null()


class Module:
    count = 0

    def __init__(self, path):
        L = lib()
        self.path = path
        self.ctx = L.LLVMContextCreate()
        buf = c_void_p()
        msg = c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), byref(buf), byref(msg)):
            raise RuntimeError("cannot read %s: %s" % (path, msg.value))
        mod = c_void_p()
        if L.LLVMParseIRInContext(self.ctx, buf, byref(mod), byref(msg)):
            raise RuntimeError("cannot parse %s: %s" % (path, msg.value))
        self.mod = mod
        self.dl = L.LLVMGetModuleDataLayout(mod)
        self.fnv = {}
        self.decl = set()
        self.tycache = {}
        self.funcs = {}
        self.gl = {}
        self.alias = {}
        # symbols with internal or private linkage are made unique across modules
        Module.count += 1
        for first, nxt in ((L.LLVMGetFirstFunction, L.LLVMGetNextFunction), (L.LLVMGetFirstGlobal, L.LLVMGetNextGlobal)):
            f = first(mod)
            while f:
                if L.LLVMGetLinkage(f) in (8, 9):
                    n = ("%s.m%d" % (self.vname(f), Module.count)).encode()
                    L.LLVMSetValueName2(f, n, len(n))
                f = nxt(f)
        f = L.LLVMGetFirstFunction(mod)
        while f:
            n = self.vname(f)
            if L.LLVMIsDeclaration(f):
                self.decl.add(n)
            self.fnv[n] = f
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(mod)
        while g:
            self.gl[self.vname(g)] = g
            g = L.LLVMGetNextGlobal(g)
        a = L.LLVMGetFirstGlobalAlias(mod)
        while a:
            self.alias[self.vname(a)] = L.LLVMAliasGetAliasee(a)
            a = L.LLVMGetNextGlobalAlias(a)
        self._dem = None

    def vname(self, v):
        n = c_size_t()
        p = lib().LLVMGetValueName2(v, byref(n))
        return C.string_at(p, n.value).decode() if n.value else ""

    def demangled(self):
        """dict mangled -> demangled for all functions"""
        if self._dem is None:
            names = sorted(self.fnv)
            out = subprocess.run(["llvm-cxxfilt-18"] if _which("llvm-cxxfilt-18") else ["c++filt"],
                                 input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
            self._dem = dict(zip(names, out))
        return self._dem

    def find(self, pattern):
        """functions whose demangled name matches the regular expression"""
        r = re.compile(pattern)
        return [m for m, d in self.demangled().items() if r.search(d)]

    # ---- types
    def ty(self, t):
        r = self.tycache.get(t)
        if r is not None:
            return r
        L = lib()
        k = L.LLVMGetTypeKind(t)
        o = Ty()
        o.bits = o.elem = o.n = o.fields = o.offs = o.name = None
        o.size = o.store = 0
        if k == 0:
            o.kind = "void"
        elif k in (2, 3, 4):
            o.kind = "float"
            o.bits = {2: 32, 3: 64, 4: 80}[k]
        elif k == 8:
            o.kind = "int"
            o.bits = L.LLVMGetIntTypeWidth(t)
        elif k == 10:
            o.kind = "struct"
            n = L.LLVMCountStructElementTypes(t)
            nm = L.LLVMGetStructName(t)
            o.name = nm.decode() if nm else None
            o.fields = [self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            try:
                o.offs = [L.LLVMOffsetOfElement(self.dl, t, i) for i in range(n)]
            except Exception:
                o.offs = []
        elif k == 11:
            o.kind = "array"
            o.n = L.LLVMGetArrayLength2(t)
            o.elem = self.ty(L.LLVMGetElementType(t))
        elif k == 12:
            o.kind = "ptr"
        elif k == 13:
            o.kind = "vector"
            o.n = L.LLVMGetVectorSize(t)
            o.elem = self.ty(L.LLVMGetElementType(t))
        else:
            o.kind = "other%d" % k
        if o.kind in ("float", "int", "struct", "array", "ptr", "vector"):
            o.size = L.LLVMABISizeOfType(self.dl, t)
            o.store = L.LLVMStoreSizeOfType(self.dl, t)
        self.tycache[t] = o
        return o

    # ---- constants -> python values
    def const(self, v):
        L = lib()
        t = self.ty(L.LLVMTypeOf(v))
        kind = L.LLVMGetValueKind(v)
        if kind == VK_FUNC:
            return FnRef(self.vname(v))
        if kind == VK_GVAR:
            return GRef(self.vname(v))
        if kind == VK_GALIAS:
            return self.const(self.alias[self.vname(v)])
        nm = _vkname(kind)
        if nm in ("undef", "poison"):
            return UNDEF
        if nm == "int":
            if t.bits > 64:
                s = self.to_s(v)
                return int(s.split()[-1])
            if t.bits == 1:
                return L.LLVMConstIntGetZExtValue(v)
            return L.LLVMConstIntGetSExtValue(v)
        if nm == "fp":
            li = c_int()
            d = L.LLVMConstRealGetDouble(v, byref(li))
            return fconst(d)
        if nm == "nullptr":
            return NULL
        if nm == "zero":
            return self.zero(t)
        if nm in ("carray", "cstruct", "cvector"):
            n = L.LLVMGetNumOperands(v)
            return Const([self.const(L.LLVMGetOperand(v, i)) for i in range(n)])
        if nm in ("dataarray", "datavector"):
            return Const([self.const(L.LLVMGetAggregateElement(v, i)) for i in range(t.n)])
        if nm == "expr":
            op = OPC.get(L.LLVMGetConstOpcode(v))
            if op == "gep":
                n = L.LLVMGetNumOperands(v)
                base = self.const(L.LLVMGetOperand(v, 0))
                idx = [self.const(L.LLVMGetOperand(v, i)) for i in range(1, n)]
                et = self.ty(L.LLVMGetGEPSourceElementType(v))
                off = idx[0] * et.size
                cur = et
                for i in idx[1:]:
                    if cur.kind == "struct":
                        off += cur.offs[i]
                        cur = cur.fields[i]
                    else:
                        cur = cur.elem
                        off += i * cur.size
                if isinstance(base, GRef):
                    return GRef(base.name, base.off + off)
                if base is NULL:
                    return ("nulloff", off)
                raise NotImplementedError("const gep on %r" % base)
            if op in ("bitcast", "addrspacecast"):
                return self.const(L.LLVMGetOperand(v, 0))
            if op == "inttoptr":
                x = self.const(L.LLVMGetOperand(v, 0))
                if isinstance(x, int):
                    return NULL if x == 0 else ("nulloff", x)
            if op in ("sub", "ptrtoint", "trunc", "add", "icmp", "select"):
                return ("cexpr", op, [self.const(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))])
            return ("cexpr?", self.to_s(v))
        return ("unknownconst", nm, self.to_s(v)[:100])

    def zero(self, t):
        if t.kind == "float":
            return 0
        if t.kind == "int":
            return 0
        if t.kind == "ptr":
            return NULL
        if t.kind == "struct":
            return Const([self.zero(f) for f in t.fields])
        if t.kind in ("array", "vector"):
            return Const([self.zero(t.elem)] * t.n)
        raise NotImplementedError(t.kind)

    def to_s(self, v):
        p = lib().LLVMPrintValueToString(v)
        return C.string_at(p).decode(errors="replace")

    def global_init(self, name):
        L = lib()
        g = self.gl[name]
        t = self.ty(L.LLVMGlobalGetValueType(g))
        init = L.LLVMGetInitializer(g)
        return t, (self.const(init) if init else None), bool(L.LLVMIsGlobalConstant(g))

    # ---- functions
    def has_body(self, name):
        return name in self.fnv and name not in self.decl

    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            f = self.funcs[name] = self._decode(name)
        return f

    def _decode(self, name):
        L = lib()
        fv = self.fnv[name]
        F = Func()
        F.name = name
        F.nparams = L.LLVMCountParams(fv)
        regs = {}
        F.rnames = {}
        F.param_tys = []
        for i in range(F.nparams):
            p = L.LLVMGetParam(fv, i)
            regs[p] = i
            F.param_tys.append(self.ty(L.LLVMTypeOf(p)))
            F.rnames[i] = self.vname(p)
        nreg = F.nparams
        bbs = []
        b = L.LLVMGetFirstBasicBlock(fv)
        bidx = {}
        while b:
            bidx[b] = len(bbs)
            bbs.append(b)
            b = L.LLVMGetNextBasicBlock(b)
        instlist = []
        for b in bbs:
            il = []
            i = L.LLVMGetFirstInstruction(b)
            while i:
                il.append(i)
                regs[i] = nreg
                nreg += 1
                i = L.LLVMGetNextInstruction(i)
            instlist.append(il)
        F.nregs = nreg
        F.blocks = []

        def opnd(v):
            r = regs.get(v)
            if r is not None:
                return ("r", r)
            k = L.LLVMGetValueKind(v)
            if _vkname(k) in ("metadata", "asm"):
                return ("m", None)
            return ("c", self.const(v))

        for bi, b in enumerate(bbs):
            B = Block()
            B.idx = bi
            B.name = self.vname(L.LLVMBasicBlockAsValue(b))
            B.phis = []
            B.insts = []
            B.term = None
            B.succs = []
            B.preds = []
            for i in instlist[bi]:
                op = OPC[L.LLVMGetInstructionOpcode(i)]
                dst = regs[i]
                ty = self.ty(L.LLVMTypeOf(i))
                if op == "phi":
                    n = L.LLVMCountIncoming(i)
                    inc = {}
                    for j in range(n):
                        inc[bidx[L.LLVMGetIncomingBlock(i, j)]] = opnd(L.LLVMGetIncomingValue(i, j))
                    B.phis.append((dst, inc, ty))
                    continue
                if op == "br":
                    if L.LLVMIsConditional(i):
                        B.term = ("cbr", opnd(L.LLVMGetCondition(i)), bidx[L.LLVMGetSuccessor(i, 0)],
                                  bidx[L.LLVMGetSuccessor(i, 1)])
                    else:
                        B.term = ("br", bidx[L.LLVMGetSuccessor(i, 0)])
                    continue
                if op == "switch":
                    n = L.LLVMGetNumOperands(i)
                    cond = opnd(L.LLVMGetOperand(i, 0))
                    default = bidx[L.LLVMGetSwitchDefaultDest(i)]
                    cases = []
                    for j in range(2, n, 2):
                        cv = self.const(L.LLVMGetOperand(i, j))
                        cases.append((cv, bidx[L.LLVMValueAsBasicBlock(L.LLVMGetOperand(i, j + 1))]))
                    B.term = ("switch", cond, default, cases)
                    continue
                if op == "ret":
                    n = L.LLVMGetNumOperands(i)
                    B.term = ("ret", opnd(L.LLVMGetOperand(i, 0)) if n else None)
                    continue
                if op == "unreachable":
                    B.term = ("unreachable",)
                    continue
                if op == "resume":
                    B.term = ("resume", opnd(L.LLVMGetOperand(i, 0)))
                    continue
                if op in ("call", "invoke"):
                    na = L.LLVMGetNumArgOperands(i)
                    args = [opnd(L.LLVMGetOperand(i, j)) for j in range(na)]
                    callee_v = L.LLVMGetCalledValue(i)
                    ck = _vkname(L.LLVMGetValueKind(callee_v))
                    if ck == "asm":
                        callee = ("asm", self.to_s(callee_v))
                    else:
                        callee = opnd(callee_v)
                    argtys = [self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, j))) for j in range(na)]
                    if op == "call":
                        B.insts.append(("call", dst, ty, callee, args, argtys))
                    else:
                        B.term = ("invoke", dst, ty, callee, args, argtys, bidx[L.LLVMGetNormalDest(i)],
                                  bidx[L.LLVMGetUnwindDest(i)])
                    continue
                ops = [opnd(L.LLVMGetOperand(i, j)) for j in range(L.LLVMGetNumOperands(i))]
                if op == "icmp":
                    ot = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                    B.insts.append(("icmp", dst, ICMP[L.LLVMGetICmpPredicate(i)], ops[0], ops[1], ot))
                elif op == "fcmp":
                    B.insts.append(("fcmp", dst, FCMP[L.LLVMGetFCmpPredicate(i)], ops[0], ops[1]))
                elif op == "gep":
                    et = self.ty(L.LLVMGetGEPSourceElementType(i))
                    # pre-resolve: list of (scale, operand) and a constant offset
                    coff = 0
                    dyn = []
                    cur = et
                    for j, o in enumerate(ops[1:]):
                        if j == 0:
                            sz = et.size
                        elif cur.kind == "struct":
                            fi = o[1]
                            coff += cur.offs[fi]
                            cur = cur.fields[fi]
                            continue
                        else:
                            cur = cur.elem
                            sz = cur.size
                        if o[0] == "c":
                            coff += o[1] * sz
                        else:
                            dyn.append((sz, o))
                    B.insts.append(("gep", dst, ops[0], coff, dyn))
                elif op == "alloca":
                    B.insts.append(("alloca", dst, self.ty(L.LLVMGetAllocatedType(i)), ops[0]))
                elif op == "load":
                    B.insts.append(("load", dst, ty, ops[0]))
                elif op == "store":
                    vt = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                    B.insts.append(("store", dst, vt, ops[0], ops[1]))
                elif op in ("extractvalue", "insertvalue"):
                    n = L.LLVMGetNumIndices(i)
                    ix = [L.LLVMGetIndices(i)[j] for j in range(n)]
                    B.insts.append((op, dst, ty, ops, ix))
                elif op == "atomicrmw":
                    B.insts.append((op, dst, ty, L.LLVMGetAtomicRMWBinOp(i), ops))
                elif op in ("zext", "sext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "bitcast", "fpext",
                            "fptrunc", "ptrtoint", "inttoptr"):
                    st = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                    B.insts.append((op, dst, ty, ops[0], st))
                elif op == "landingpad":
                    B.insts.append((op, dst, ty, ops, L.LLVMIsCleanup(i)))
                elif op in ("invoke", "callbr", "indirectbr", "catchswitch", "cleanupret", "catchret"):
                    raise NotImplementedError(op)
                else:
                    B.insts.append((op, dst, ty, ops))
            F.blocks.append(B)
        for B in F.blocks:
            t = B.term
            if t[0] == "br":
                B.succs = [t[1]]
            elif t[0] == "cbr":
                B.succs = [t[2], t[3]]
            elif t[0] == "switch":
                B.succs = [t[2]] + [c[1] for c in t[3]]
            elif t[0] == "invoke":
                B.succs = [t[6], t[7]]
            for s in set(B.succs):
                F.blocks[s].preds.append(B.idx)
        F._an = False
        return F


def _which(p):
    from shutil import which
    return which(p)


def fconst(d):
    import math
    if math.isnan(d) or math.isinf(d):
        return ("fpspecial", d)
    return Fraction(d)


_VK = None


def _vkname(k):
    return _VK_TABLE.get(k, "k%d" % k)


# LLVMValueKind enumeration of LLVM 18
_VK_TABLE = {0: "arg", 1: "bb", 2: "memuse", 3: "memdef", 4: "memphi", 5: "func", 6: "alias", 7: "ifunc", 8: "gvar",
             9: "blockaddr", 10: "expr", 11: "carray", 12: "cstruct", 13: "cvector", 14: "undef", 15: "zero",
             16: "dataarray", 17: "datavector", 18: "int", 19: "fp", 20: "nullptr", 21: "tokennone",
             22: "metadata", 23: "asm", 24: "inst", 25: "poison", 26: "targetnone"}


def analyse(F):
    """dominators, natural loops, immediate post-dominators"""
    if F._an:
        return F
    n = len(F.blocks)
    # reverse postorder
    seen = [False] * n
    order = []
    stack = [(0, iter(F.blocks[0].succs))]
    seen[0] = True
    while stack:
        b, it = stack[-1]
        for s in it:
            if not seen[s]:
                seen[s] = True
                stack.append((s, iter(F.blocks[s].succs)))
                break
        else:
            order.append(b)
            stack.pop()
    rpo = order[::-1]
    F.rpo_idx = {b: i for i, b in enumerate(rpo)}
    idom = _idom(rpo, lambda b: [p for p in F.blocks[b].preds if seen[p]], 0)

    def dominates(a, b):
        while True:
            if a == b:
                return True
            if b == 0 or b not in idom:
                return False
            nb = idom[b]
            if nb == b:
                return False
            b = nb

    F.loops = {}
    for b in rpo:
        for s in F.blocks[b].succs:
            if dominates(s, b):
                body = F.loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(p for p in F.blocks[x].preds if seen[p])
    # post dominators over a virtual exit
    EX = n
    succ = {b: list(F.blocks[b].succs) for b in rpo}
    preds = {b: [] for b in list(rpo) + [EX]}
    exits = [b for b in rpo if not succ[b]]
    for b in rpo:
        for s in succ[b]:
            preds[s].append(b)
    # ignore exits that end in unreachable / resume so that diamonds with an
    # aborting arm still have a useful post-dominator
    real = [b for b in exits if F.blocks[b].term[0] == "ret"] or exits
    # reverse graph rpo from EX
    radj = lambda b: preds[b] if b != EX else real
    seen2 = {EX}
    order2 = []
    stack = [(EX, iter(real))]
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen2:
                seen2.add(s)
                stack.append((s, iter(preds[s])))
                break
        else:
            order2.append(b)
            stack.pop()
    rrpo = order2[::-1]
    rs = set(real)

    def rpreds(b):
        r = [s for s in succ[b] if s in seen2]
        if b in rs:
            r.append(EX)
        return r

    F.ipdom = _idom(rrpo, rpreds, EX)
    F._an = True
    return F


def _idom(rpo, preds, root):
    idx = {b: i for i, b in enumerate(rpo)}
    idom = {root: root}
    changed = True
    while changed:
        changed = False
        for b in rpo:
            if b == root:
                continue
            new = None
            for p in preds(b):
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new:
                idom[b] = new
                changed = True
    return idom
