"""Loader: LLVM-18 bitcode -> plain Python IR, through the LLVM-C API (ctypes)."""
import ctypes as C
import struct

_lib = None


def lib():
    global _lib
    if _lib is not None:
        return _lib
    for p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.1",
              "/usr/lib/x86_64-linux-gnu/libLLVM-18.so", "libLLVM-18.so"):
        try:
            L = C.CDLL(p)
            break
        except OSError:
            continue
    else:
        raise RuntimeError("libLLVM-18 not found")
    V = C.c_void_p
    sig = {
        "LLVMContextCreate": (V, []),
        "LLVMCreateMemoryBufferWithContentsOfFile": (C.c_int, [C.c_char_p, C.POINTER(V), C.POINTER(C.c_char_p)]),
        "LLVMParseBitcodeInContext2": (C.c_int, [V, V, C.POINTER(V)]),
        "LLVMGetModuleDataLayout": (V, [V]),
        "LLVMABISizeOfType": (C.c_ulonglong, [V, V]),
        "LLVMStoreSizeOfType": (C.c_ulonglong, [V, V]),
        "LLVMABIAlignmentOfType": (C.c_uint, [V, V]),
        "LLVMOffsetOfElement": (C.c_ulonglong, [V, V, C.c_uint]),
        "LLVMGetFirstFunction": (V, [V]), "LLVMGetNextFunction": (V, [V]),
        "LLVMGetFirstGlobal": (V, [V]), "LLVMGetNextGlobal": (V, [V]),
        "LLVMGetFirstGlobalAlias": (V, [V, ]), "LLVMGetNextGlobalAlias": (V, [V]),
        "LLVMAliasGetAliasee": (V, [V]),
        "LLVMGetInitializer": (V, [V]), "LLVMGlobalGetValueType": (V, [V]),
        "LLVMIsGlobalConstant": (C.c_int, [V]),
        "LLVMGetFirstBasicBlock": (V, [V]), "LLVMGetNextBasicBlock": (V, [V]),
        "LLVMGetFirstInstruction": (V, [V]), "LLVMGetNextInstruction": (V, [V]),
        "LLVMGetInstructionOpcode": (C.c_int, [V]),
        "LLVMGetICmpPredicate": (C.c_int, [V]), "LLVMGetFCmpPredicate": (C.c_int, [V]),
        "LLVMGetNumOperands": (C.c_int, [V]), "LLVMGetOperand": (V, [V, C.c_uint]),
        "LLVMTypeOf": (V, [V]), "LLVMGetTypeKind": (C.c_int, [V]),
        "LLVMGetIntTypeWidth": (C.c_uint, [V]),
        "LLVMCountStructElementTypes": (C.c_uint, [V]), "LLVMStructGetTypeAtIndex": (V, [V, C.c_uint]),
        "LLVMGetArrayLength2": (C.c_ulonglong, [V]), "LLVMGetVectorSize": (C.c_uint, [V]),
        "LLVMGetElementType": (V, [V]), "LLVMGetReturnType": (V, [V]),
        "LLVMGetValueKind": (C.c_int, [V]),
        "LLVMGetValueName2": (C.c_char_p, [V, C.POINTER(C.c_size_t)]),
        "LLVMCountParams": (C.c_uint, [V]), "LLVMGetParam": (V, [V, C.c_uint]),
        "LLVMIsDeclaration": (C.c_int, [V]),
        "LLVMConstIntGetZExtValue": (C.c_ulonglong, [V]),
        "LLVMConstRealGetDouble": (C.c_double, [V, C.POINTER(C.c_int)]),
        "LLVMGetConstOpcode": (C.c_int, [V]),
        "LLVMGetAsString": (C.POINTER(C.c_char), [V, C.POINTER(C.c_size_t)]),
        "LLVMGetAggregateElement": (V, [V, C.c_uint]),
        "LLVMGetGEPSourceElementType": (V, [V]),
        "LLVMGetAllocatedType": (V, [V]),
        "LLVMGetNumSuccessors": (C.c_uint, [V]), "LLVMGetSuccessor": (V, [V, C.c_uint]),
        "LLVMIsConditional": (C.c_int, [V]), "LLVMGetCondition": (V, [V]),
        "LLVMCountIncoming": (C.c_uint, [V]), "LLVMGetIncomingValue": (V, [V, C.c_uint]),
        "LLVMGetIncomingBlock": (V, [V, C.c_uint]),
        "LLVMGetCalledValue": (V, [V]), "LLVMGetNumArgOperands": (C.c_uint, [V]),
        "LLVMGetNumIndices": (C.c_uint, [V]), "LLVMGetIndices": (C.POINTER(C.c_uint), [V]),
        "LLVMGetAtomicRMWBinOp": (C.c_int, [V]),
        "LLVMGetNumMaskElements": (C.c_uint, [V]), "LLVMGetMaskValue": (C.c_int, [V, C.c_uint]),
        "LLVMPrintValueToString": (C.c_char_p, [V]), "LLVMPrintTypeToString": (C.c_char_p, [V]),
        "LLVMIsConstant": (C.c_int, [V]),
        "LLVMBasicBlockAsValue": (V, [V]),
        "LLVMGetDebugLocLine": (C.c_uint, [V]),
        "LLVMGetDebugLocFilename": (C.c_char_p, [V, C.POINTER(C.c_uint)]),
        "LLVMIsPackedStruct": (C.c_int, [V]),
        "LLVMGetPersonalityFn": (V, [V]),
        "LLVMValueIsBasicBlock": (C.c_int, [V]),
        "LLVMConstIntGetSExtValue": (C.c_longlong, [V]),
        "LLVMGetSwitchDefaultDest": (V, [V]),
    }
    for n, (r, a) in sig.items():
        f = getattr(L, n)
        f.restype = r
        f.argtypes = a
    _lib = L
    return L


OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv",
       17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor",
       26: "alloca", 27: "load", 28: "store", 29: "getelementptr", 30: "trunc", 31: "zext", 32: "sext",
       33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint",
       40: "inttoptr", 41: "bitcast", 60: "addrspacecast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select",
       50: "extractelement", 51: "insertelement", 52: "shufflevector", 53: "extractvalue", 54: "insertvalue",
       55: "fence", 56: "cmpxchg", 57: "atomicrmw", 58: "resume", 59: "landingpad", 66: "fneg", 68: "freeze"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "uno", "ueq", "ugt", "uge", "ult", "ule", "une", "true"]


class Ty:
    __slots__ = ("k", "w", "size", "n", "el", "elts", "offs", "ssize")
    # k: int float double ptr struct array vector void other

    def __repr__(self):
        return "Ty(%s,%s)" % (self.k, self.w if self.k == "int" else self.size)


class Ins:
    __slots__ = ("op", "ty", "dst", "ops", "x", "line")


class Block:
    __slots__ = ("idx", "ins", "succ", "phis", "code", "name")


class Func:
    __slots__ = ("name", "ref", "decl", "nargs", "nregs", "blocks", "decoded", "ipdom", "addr", "rty", "fname", "argtys", "regtys", "live")


UNDEF = object()


class Module:
    def __init__(self, path):
        L = lib()
        self.L = L
        self.ctx = L.LLVMContextCreate()
        buf = C.c_void_p()
        err = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError("cannot read %s" % path)
        mod = C.c_void_p()
        if L.LLVMParseBitcodeInContext2(self.ctx, buf, C.byref(mod)):
            raise RuntimeError("cannot parse %s" % path)
        self.mod = mod
        self.dl = L.LLVMGetModuleDataLayout(mod)
        self.tycache = {}
        self.funcs = {}
        self.func_by_addr = {}
        self.globals = {}      # name -> (objid, ref, ty, const, init?)
        self.gaddr = {}        # ref -> address
        self.inits = []        # (base, ty, initref)
        nobj = 1
        f = L.LLVMGetFirstFunction(mod)
        fa = 0x1000
        while f:
            F = Func()
            F.ref = f
            F.name = self.vname(f)
            F.decl = bool(L.LLVMIsDeclaration(f))
            F.nargs = L.LLVMCountParams(f)
            F.decoded = False
            F.addr = fa
            self.gaddr[f] = fa
            self.func_by_addr[fa] = F
            fa += 16
            self.funcs[F.name] = F
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(mod)
        while g:
            ty = self.ty(L.LLVMGlobalGetValueType(g))
            base = self.base(nobj)
            self.gaddr[g] = base
            init = L.LLVMGetInitializer(g)
            self.globals[self.vname(g)] = (nobj, ty, bool(L.LLVMIsGlobalConstant(g)), init)
            nobj += 1
            g = L.LLVMGetNextGlobal(g)
        a = L.LLVMGetFirstGlobalAlias(mod)
        self.aliases = []
        while a:
            self.aliases.append(a)
            a = L.LLVMGetNextGlobalAlias(a)
        for a in self.aliases:
            self.gaddr[a] = self.const(L.LLVMAliasGetAliasee(a))
        self.nobj0 = nobj

    @staticmethod
    def base(oid):
        return (oid << 32) + 0x10000000

    def vname(self, v):
        n = C.c_size_t()
        s = self.L.LLVMGetValueName2(v, C.byref(n))
        return s.decode()

    def ty(self, t):
        r = self.tycache.get(t)
        if r is not None:
            return r
        L = self.L
        k = L.LLVMGetTypeKind(t)
        T = Ty()
        T.w = T.n = 0
        T.el = None
        T.elts = T.offs = None
        T.size = T.ssize = 0
        self.tycache[t] = T
        if k == 0:
            T.k = "void"
            return T
        if k in (6, 7, 8, 14, 15, 16):   # label function token metadata
            pass
        if k == 2:
            T.k = "float"; T.w = 32
        elif k == 3:
            T.k = "double"; T.w = 64
        elif k == 4:
            T.k = "x86_fp80"; T.w = 80
        elif k == 8:
            T.k = "int"; T.w = L.LLVMGetIntTypeWidth(t)
        elif k == 10:
            T.k = "struct"
            n = L.LLVMCountStructElementTypes(t)
            T.n = n
            T.elts = [self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            try:
                T.offs = [L.LLVMOffsetOfElement(self.dl, t, i) for i in range(n)]
            except Exception:
                T.offs = None
        elif k == 11:
            T.k = "array"; T.n = L.LLVMGetArrayLength2(t); T.el = self.ty(L.LLVMGetElementType(t))
        elif k == 12:
            T.k = "ptr"; T.w = 64
        elif k == 13:
            T.k = "vector"; T.n = L.LLVMGetVectorSize(t); T.el = self.ty(L.LLVMGetElementType(t))
        else:
            T.k = "other%d" % k
            return T
        T.size = L.LLVMABISizeOfType(self.dl, t)
        T.ssize = L.LLVMStoreSizeOfType(self.dl, t)
        return T

    # ---- constants -> python values
    def const(self, v):
        L = self.L
        a = self.gaddr.get(v)
        if a is not None:
            return a
        k = L.LLVMGetValueKind(v)
        ty = self.ty(L.LLVMTypeOf(v))
        if k == 18:      # ConstantInt
            if ty.w <= 64:
                return L.LLVMConstIntGetZExtValue(v)
            s = L.LLVMPrintValueToString(v).decode().split()[-1]
            return int(s) & ((1 << ty.w) - 1)
        if k == 19:      # ConstantFP
            li = C.c_int()
            return L.LLVMConstRealGetDouble(v, C.byref(li))
        if k == 20:      # null ptr
            return 0
        if k in (14, 25):
            return self.undef(ty)
        if k == 15:      # aggregate zero
            return self.zero(ty)
        s = None
        if k == 10:      # ConstantExpr
            return self.cexpr(v, ty)
        if ty.k in ("array", "struct", "vector"):
            n = ty.n
            out = []
            for i in range(n):
                e = L.LLVMGetAggregateElement(v, i)
                if not e:
                    s = L.LLVMPrintValueToString(v).decode()
                    if s.endswith("zeroinitializer"):
                        return self.zero(ty)
                    return self.undef(ty)
                out.append(self.const(e))
            return tuple(out)
        s = L.LLVMPrintValueToString(v).decode()
        if s.endswith("undef") or s.endswith("poison"):
            return self.undef(ty)
        raise RuntimeError("const kind %d: %s" % (k, s))

    def zero(self, ty):
        if ty.k in ("int", "ptr"):
            return 0
        if ty.k in ("float", "double", "x86_fp80"):
            return 0.0
        if ty.k == "struct":
            return tuple(self.zero(e) for e in ty.elts)
        if ty.k in ("array", "vector"):
            return (self.zero(ty.el),) * ty.n
        raise RuntimeError("zero " + ty.k)

    undef = zero

    def cexpr(self, v, ty):
        L = self.L
        op = OPC[L.LLVMGetConstOpcode(v)]
        n = L.LLVMGetNumOperands(v)
        ops = [L.LLVMGetOperand(v, i) for i in range(n)]
        if op == "getelementptr":
            st = self.ty(L.LLVMGetGEPSourceElementType(v))
            base = self.const(ops[0])
            idx = []
            for o in ops[1:]:
                ot = self.ty(L.LLVMTypeOf(o))
                x = self.const(o)
                if x >> (ot.w - 1):
                    x -= 1 << ot.w
                idx.append(x)
            return (base + self.gepoff(st, idx)) & 0xffffffffffffffff
        vals = [self.const(o) for o in ops]
        if op in ("bitcast", "inttoptr", "addrspacecast"):
            return vals[0]
        if op in ("ptrtoint", "trunc"):
            return vals[0] & ((1 << ty.w) - 1)
        if op == "sub":
            return (vals[0] - vals[1]) & ((1 << ty.w) - 1)
        if op == "add":
            return (vals[0] + vals[1]) & ((1 << ty.w) - 1)
        raise RuntimeError("cexpr " + op)

    def gepoff(self, st, idx):
        off = idx[0] * st.size
        t = st
        for i in idx[1:]:
            if t.k == "struct":
                off += t.offs[i]
                t = t.elts[i]
            else:
                off += i * t.el.size
                t = t.el
        return off

    # ---- functions
    def decode(self, F):
        L = self.L
        F.decoded = True
        regs = {}
        n = 0
        F.argtys = []
        for i in range(F.nargs):
            p = L.LLVMGetParam(F.ref, i)
            regs[p] = n
            F.argtys.append(self.ty(L.LLVMTypeOf(p)))
            n += 1
        F.regtys = list(F.argtys)
        F.live = None
        blocks = []
        bidx = {}
        b = L.LLVMGetFirstBasicBlock(F.ref)
        brefs = []
        while b:
            bidx[b] = len(blocks)
            bidx[L.LLVMBasicBlockAsValue(b)] = len(blocks)
            B = Block()
            B.idx = len(blocks)
            B.ins = []
            B.code = None
            B.phis = []
            B.succ = []
            blocks.append(B)
            brefs.append(b)
            b = L.LLVMGetNextBasicBlock(b)
        inss = []
        for B, b in zip(blocks, brefs):
            i = L.LLVMGetFirstInstruction(b)
            lst = []
            while i:
                t = self.ty(L.LLVMTypeOf(i))
                if t.k != "void":
                    regs[i] = n
                    n += 1
                    F.regtys.append(t)
                lst.append((i, t))
                i = L.LLVMGetNextInstruction(i)
            inss.append(lst)

        def opnd(v):
            r = regs.get(v)
            if r is not None:
                return ("r", r)
            return ("c", self.const(v))

        F.fname = ""
        for B, lst in zip(blocks, inss):
            for i, t in lst:
                I = Ins()
                o = L.LLVMGetInstructionOpcode(i)
                I.op = OPC.get(o, "op%d" % o)
                I.ty = t
                I.dst = regs.get(i, -1)
                I.x = None
                I.line = L.LLVMGetDebugLocLine(i)
                op = I.op
                if not F.fname and I.line:
                    ln = C.c_uint()
                    s = L.LLVMGetDebugLocFilename(i, C.byref(ln))
                    if s:
                        F.fname = s[:ln.value].decode(errors="replace")
                if op == "phi":
                    inc = {}
                    for j in range(L.LLVMCountIncoming(i)):
                        inc[bidx[L.LLVMGetIncomingBlock(i, j)]] = opnd(L.LLVMGetIncomingValue(i, j))
                    I.x = inc
                    I.ops = []
                    B.phis.append(I)
                    continue
                if op == "br":
                    ns = L.LLVMGetNumSuccessors(i)
                    B.succ = [bidx[L.LLVMGetSuccessor(i, j)] for j in range(ns)]
                    I.ops = [opnd(L.LLVMGetCondition(i))] if L.LLVMIsConditional(i) else []
                    I.x = B.succ
                elif op == "switch":
                    nops = L.LLVMGetNumOperands(i)
                    cond = opnd(L.LLVMGetOperand(i, 0))
                    I.ops = [cond]
                    dflt = bidx[L.LLVMGetOperand(i, 1)]
                    cases = []
                    for j in range(2, nops, 2):
                        cases.append((self.const(L.LLVMGetOperand(i, j)), bidx[L.LLVMGetOperand(i, j + 1)]))
                    I.x = (dflt, cases, self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0))))
                    B.succ = [dflt] + [c[1] for c in cases]
                elif op in ("call", "invoke"):
                    na = L.LLVMGetNumArgOperands(i)
                    cal = L.LLVMGetCalledValue(i)
                    ops = []
                    atys = []
                    for j in range(na):
                        a = L.LLVMGetOperand(i, j)
                        at = self.ty(L.LLVMTypeOf(a))
                        atys.append(at)
                        if at.k.startswith("other"):
                            ops.append(("c", None))
                        else:
                            ops.append(opnd(a))
                    tgt = None
                    callee = None
                    if cal in self.gaddr:
                        tgt = self.func_by_addr.get(self.gaddr[cal])
                    if tgt is None:
                        vk = L.LLVMGetValueKind(cal)
                        if vk == 23 or L.LLVMPrintValueToString(cal).decode().find(" asm ") >= 0:
                            tgt = "asm"
                        else:
                            callee = opnd(cal)
                    I.ops = ops
                    if op == "invoke":
                        B.succ = [bidx[L.LLVMGetSuccessor(i, 0)], bidx[L.LLVMGetSuccessor(i, 1)]]
                    I.x = (tgt, callee, atys, B.succ[0] if op == "invoke" else None)
                else:
                    no = L.LLVMGetNumOperands(i)
                    oprefs = [L.LLVMGetOperand(i, j) for j in range(no)]
                    I.ops = [opnd(q) for q in oprefs] if op not in ("landingpad", "unreachable") else []
                    if op == "icmp":
                        I.x = (ICMP[L.LLVMGetICmpPredicate(i)], self.ty(L.LLVMTypeOf(oprefs[0])))
                    elif op == "fcmp":
                        I.x = (FCMP[L.LLVMGetFCmpPredicate(i)], self.ty(L.LLVMTypeOf(oprefs[0])))
                    elif op == "alloca":
                        I.x = self.ty(L.LLVMGetAllocatedType(i))
                    elif op == "store":
                        I.x = self.ty(L.LLVMTypeOf(oprefs[0]))
                    elif op == "getelementptr":
                        I.x = (self.ty(L.LLVMGetGEPSourceElementType(i)),
                               [self.ty(L.LLVMTypeOf(q)).w for q in oprefs[1:]])
                    elif op in ("extractvalue", "insertvalue"):
                        ni = L.LLVMGetNumIndices(i)
                        p = L.LLVMGetIndices(i)
                        I.x = [p[j] for j in range(ni)]
                    elif op == "shufflevector":
                        I.x = ([L.LLVMGetMaskValue(i, j) for j in range(L.LLVMGetNumMaskElements(i))],
                               self.ty(L.LLVMTypeOf(oprefs[0])).n)
                    elif op == "atomicrmw":
                        I.x = (L.LLVMGetAtomicRMWBinOp(i), self.ty(L.LLVMTypeOf(oprefs[1])))
                    elif op == "cmpxchg":
                        I.x = self.ty(L.LLVMTypeOf(oprefs[1]))
                    elif no:
                        I.x = self.ty(L.LLVMTypeOf(oprefs[0]))
                B.ins.append(I)
        F.blocks = blocks
        F.nregs = n
        F.ipdom = None
        return F

    def compute_ipdom(self, F):
        """immediate post-dominators (virtual exit = -1)."""
        if F.ipdom is not None:
            return F.ipdom
        n = len(F.blocks)
        EX = n
        succ = [list(dict.fromkeys(b.succ)) or [EX] for b in F.blocks] + [[]]
        pred = [[] for _ in range(n + 1)]
        for i, s in enumerate(succ):
            for t in s:
                pred[t].append(i)
        # reverse postorder on reverse CFG
        order = []
        seen = [False] * (n + 1)
        stack = [(EX, iter(pred[EX]))]
        seen[EX] = True
        while stack:
            u, it = stack[-1]
            for w in it:
                if not seen[w]:
                    seen[w] = True
                    stack.append((w, iter(pred[w])))
                    break
            else:
                order.append(u)
                stack.pop()
        order.reverse()
        num = {u: i for i, u in enumerate(order)}
        idom = {EX: EX}
        ch = True
        while ch:
            ch = False
            for u in order:
                if u == EX:
                    continue
                new = None
                for s in succ[u]:
                    if s in idom:
                        if new is None:
                            new = s
                        else:
                            a, b = new, s
                            while a != b:
                                while num[a] > num[b]:
                                    a = idom[a]
                                while num[b] > num[a]:
                                    b = idom[b]
                            new = a
                if new is not None and idom.get(u) != new:
                    idom[u] = new
                    ch = True
        F.ipdom = [(-1 if idom.get(i, EX) == EX else idom[i]) for i in range(n)]
        return F.ipdom

    def liveness(self, F):
        """live registers at the start of each block (after its phis)"""
        if F.live is not None:
            return F.live
        n = len(F.blocks)
        use = []
        dfn = []
        for b in F.blocks:
            u = set()
            d = set()
            for I in b.ins:
                for k, v in (I.ops or []):
                    if k == "r" and v not in d:
                        u.add(v)
                if I.op in ("call", "invoke") and I.x[1] is not None and I.x[1][0] == "r" and I.x[1][1] not in d:
                    u.add(I.x[1][1])
                if I.dst >= 0:
                    d.add(I.dst)
            use.append(u)
            dfn.append(d)
        live = [set(u) for u in use]
        phid = [{I.dst for I in b.phis} for b in F.blocks]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                b = F.blocks[i]
                out = set()
                for s in b.succ:
                    out |= live[s] - phid[s]
                    for I in F.blocks[s].phis:
                        k, v = I.x[i]
                        if k == "r":
                            out.add(v)
                new = use[i] | (out - dfn[i])
                if new != live[i]:
                    live[i] = new
                    ch = True
        F.live = live
        return live
