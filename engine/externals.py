"""Models of external functions, intrinsics and the vp_* harness interface."""
import math
import z3
import fpm
from fpm import Unsupported, rnd
from symex import (M64, OB, SPtr, FBits, Cat, PathEnd, Violation, Inconclusive, sgn, mask, Bool, BV)


def install(X):
    E = X.ext
    P = X.ext_prefix = []
    FP = X.FP

    def cstr(p):
        out = []
        while True:
            c = X.load(p, 1, "i")
            if c.__class__ is not int:
                return "?"
            if c == 0:
                return bytes(out).decode(errors="replace")
            out.append(c)
            p += 1
            if len(out) > 200:
                return bytes(out).decode(errors="replace")

    def reg(*names):
        def d(f):
            for n in names:
                E[n] = f
            return f
        return d

    def pre(*names):
        def d(f):
            for n in names:
                P.append((n, f))
            return f
        return d

    # ---------------- harness interface
    def fresh(st, base):
        n = st.namecnt.get(base, 0)
        st.namecnt[base] = n + 1
        return base if n == 0 else "%s#%d" % (base, n)

    @reg("vp_u64")
    def vp_u64(a, I):
        st = X.cur
        lo, hi = a[1], a[2]
        nm = fresh(st, cstr(a[0]))
        if lo == hi:
            st.inputs.append((nm, "u", lo))
            return lo
        v = z3.BitVec(nm, 64)
        st.inputs.append((nm, "u", v))
        if not (lo.__class__ is int and lo == 0):
            X.add_pc(st, z3.UGE(v, X.tobv(lo, 64)))
        if not (hi.__class__ is int and hi == M64):
            X.add_pc(st, z3.ULE(v, X.tobv(hi, 64)))
        # cheap initial model maintenance
        return v

    @reg("vp_bool")
    def vp_bool(a, I):
        st = X.cur
        nm = fresh(st, cstr(a[0]))
        v = z3.Bool(nm)
        st.inputs.append((nm, "u", v))
        return v

    def symf(a, w):
        st = X.cur
        nm = fresh(st, cstr(a[0]))
        v = FP.sym(nm, w)
        st.inputs.append((nm, "f", v))
        if X.fpmode != "uf":
            for c in (FP.cmp("oge", v, a[1]), FP.cmp("ole", v, a[2])):
                if c.__class__ is not int:
                    X.add_pc(st, c)
        return v

    @reg("vp_f64")
    def vp_f64(a, I):
        return symf(a, 64)

    @reg("vp_f32")
    def vp_f32(a, I):
        return symf(a, 32)

    @reg("vp_concrete")
    def vp_concrete(a, I):
        return X.concretize(a[0], "vp_concrete")

    @reg("vp_assume")
    def vp_assume(a, I):
        st = X.cur
        c = a[0]
        if c.__class__ is int:
            if not c:
                raise PathEnd()
            return
        f, m = X.feasible(st, c)
        if not f:
            raise PathEnd()
        X.add_pc(st, c, m)

    def do_assert(c, label):
        st = X.cur
        X.stats["asserts"] += 1
        X.asserts_by_label[label] = X.asserts_by_label.get(label, 0) + 1
        if c.__class__ is int:
            if not c:
                if label in X.known and X.violkeys.get(("assert", label), 0) >= X.max_viol:
                    return
                v = X.mkviol("assert", label)
                if label in X.known and isinstance(v, Violation):
                    X.report(v)
                    return
                raise v
            X.stats["trivial_asserts"] += 1
            return
        if X.violkeys.get(("assert", label), 0) >= X.max_viol:
            return
        X.stats["assert_queries"] += 1
        r, m = X.check_assert(st, z3.Not(c))
        if r == "sat":
            X.report(Violation("assert", label, st, m))
            if X.fpmode == "real":
                return
            f, mm = X.feasible(st, c)
            if not f:
                raise PathEnd()
            X.add_pc(st, c, mm)
        elif r == "unknown":
            X.undecided.append(("assert", label, X.where(st)))

    @reg("vp_assert_")
    def vp_assert(a, I):
        do_assert(a[0], cstr(a[1]))

    @reg("vp_close_", "vp_closef_")
    def vp_close(a, I):
        x, y, tol, lab = a
        lab = cstr(lab)
        if X.fpmode == "uf":
            return do_assert(FP.same(x, y), lab)
        if x.__class__ is float and y.__class__ is float:
            return do_assert(1 if abs(x - y) <= tol else 0, lab)
        if X.fpmode == "real":
            d = fpm.sub(fpm.toR(x), fpm.toR(y))
            if fpm.isconst(d):
                return do_assert(1 if abs(fpm.cval(d)) <= tol else 0, lab)
            cd, dens = fpm.clear_div(d)
            if cd is not None and not cd.t and all(X.cur.nz.get(q.key()) for q in dens):
                return do_assert(z3.simplify(fpm.z3e(cd) == 0) and 1, lab)
            e = fpm.z3e(d)
            t = z3.RealVal(repr(tol))
            return do_assert(z3.And(e <= t, e >= -t), lab)
        d = FP.bin("fsub", x, y, 64)
        return do_assert(FP.cmp("ole", FP.abs(d, 64), tol), lab)

    @reg("vp_same_", "vp_samef_")
    def vp_same(a, I):
        x, y, lab = a
        return do_assert(FP.same(x, y), cstr(lab))

    @reg("vp_reach")
    def vp_reach(a, I):
        X.cur.reach.add(cstr(a[0]))

    @reg("vp_end")
    def vp_end(a, I):
        # end the path silently (finishes normally)
        X.finish(X.cur)
        raise PathEnd()

    @reg("vp_allow_abort")
    def vp_allow_abort(a, I):
        X.cur.user["allow_abort"] = a[0]

    @reg("vp_check_failed")
    def vp_check_failed(a, I):
        lab = cstr(a[0])
        if X.cur.user.get("allow_abort"):
            X.cur.reach.add("aborted")
            X.finish(X.cur)
            raise PathEnd()
        raise X.mkviol("check", "program aborts: " + lab)

    @reg("vp_dbg")
    def vp_dbg(a, I):
        print("DBG", cstr(a[0]), a[1], flush=True)

    @reg("vp_dbgf")
    def vp_dbgf(a, I):
        v = a[1]
        print("DBG", cstr(a[0]), v if v.__class__ is float else (fpm.z3e(v) if v.__class__ is fpm.R else v), flush=True)

    # ---------------- memory
    @reg("malloc", "_Znwm", "_Znam")
    def malloc(a, I):
        n = a[0] if a[0].__class__ is int else X.concretize(a[0], "malloc size")
        if n > (1 << 31):
            raise X.mkviol("mem", "allocation of %d bytes" % n)
        return X.alloc(X.cur, n, "heap%d" % n)

    @reg("_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t")
    def mallocnt(a, I):
        return malloc(a[:1], I)

    @reg("_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE10_M_replaceEmmPKcm")
    def str_replace(a, I):
        t, pos, n1, src, n2 = [a[0]] + [X.concretize(x) if i != 2 else x for i, x in enumerate(a[1:])]
        n = X.concretize(X.load(t + 8, 8, "i"))
        old = X.load(t, 8, "p")
        bs = [X.load(old + i, 1, "i") for i in range(pos)] + [X.load(src + i, 1, "i") for i in range(n2)] + [X.load(old + i, 1, "i") for i in range(pos + n1, n)]
        d = old
        if len(bs) > 15 and len(bs) > n:
            d = X.alloc(X.cur, len(bs) + 1, "heap%d" % (len(bs) + 1))
            X.store(t, 8, d)
            X.store(t + 16, 8, len(bs))
        for i, b in enumerate(bs):
            X.store(d + i, 1, b)
        X.store(d + len(bs), 1, 0)
        X.store(t + 8, 8, len(bs))
        return t

    @reg("_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE12_M_constructEmc")
    def str_construct(a, I):
        n = X.concretize(a[1])
        if n > 15:
            d = X.alloc(X.cur, n + 1, "heap%d" % (n + 1))
            X.store(a[0], 8, d)
            X.store(a[0] + 16, 8, n)
        else:
            d = X.load(a[0], 8, "p")
        for i in range(n):
            X.store(d + i, 1, a[2])
        X.store(d + n, 1, 0)
        X.store(a[0] + 8, 8, n)

    @reg("calloc")
    def calloc(a, I):
        n = X.concretize(X.bin("mul", a[0], a[1], 64))
        return X.alloc(X.cur, n, "heap%d" % n, fill=0)

    @reg("realloc")
    def realloc(a, I):
        n = X.concretize(a[1])
        p = X.alloc(X.cur, n, "heap%d" % n)
        if a[0].__class__ is int and a[0] == 0:
            return p
        o = X.cur.mem[a[0] >> 32]
        X.memcpy(p, a[0], min(n, o.size))
        free((a[0],), I)
        return p

    @reg("aligned_alloc")
    def aligned_alloc(a, I):
        return malloc((a[1],), I)

    @reg("posix_memalign")
    def posix_memalign(a, I):
        p = malloc((a[2],), I)
        X.store(a[0], 8, p)
        return 0

    @reg("free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm")
    def free(a, I):
        p = a[0]
        if p.__class__ is not int:
            p = X.conc_ptr(p)
        if p == 0:
            return
        oid = p >> 32
        o = X.cur.mem.get(oid)
        if o is None or (p & 0xffffffff) != OB:
            raise X.mkviol("mem", "free of invalid pointer")
        if not o.alive:
            raise X.mkviol("mem", "double free of " + o.name)
        o = X.wobj(X.cur, oid)
        o.alive = False
        o.cells = {}

    @pre("llvm.memcpy", "llvm.memmove")
    def memcpy(a, I):
        X.memcpy(a[0], a[1], a[2])

    @reg("memcpy", "memmove")
    def cmemcpy(a, I):
        X.memcpy(a[0], a[1], a[2])
        return a[0]

    @pre("llvm.memset")
    def memset(a, I):
        X.memset(a[0], a[1], a[2])

    @reg("memset")
    def cmemset(a, I):
        X.memset(a[0], X.castop("trunc", a[1], 32, 8), a[2])
        return a[0]

    @reg("memcmp", "bcmp")
    def memcmp(a, I):
        n = X.concretize(a[2])
        for i in range(n):
            x = X.load(X.gep_add(a[0], i), 1, "i")
            y = X.load(X.gep_add(a[1], i), 1, "i")
            if x.__class__ is int and y.__class__ is int:
                if x != y:
                    return (x - y) & mask(32)
                continue
            if X.branch(X.tobv(x, 8) == X.tobv(y, 8)):
                continue
            return 1 if not X.branch(z3.ULT(X.tobv(x, 8), X.tobv(y, 8))) else mask(32)
        return 0

    @reg("strlen")
    def strlen(a, I):
        n = 0
        p = a[0]
        while True:
            c = X.load(p + n, 1, "i")
            if c.__class__ is not int:
                raise Unsupported("strlen symbolic")
            if c == 0:
                return n
            n += 1

    # ---------------- aborts
    @reg("abort", "exit", "_ZSt9terminatev", "__assert_fail", "_ZSt17__throw_bad_allocv", "_ZSt20__throw_length_errorPKc",
         "_ZSt19__throw_logic_errorPKc", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt20__throw_out_of_rangePKc", "__cxa_pure_virtual", "_Exit", "_exit",
         "_ZSt25__throw_bad_function_callv")
    def aborts(a, I):
        if X.cur.user.get("allow_abort"):
            X.cur.reach.add("aborted")
            X.finish(X.cur)
            raise PathEnd()
        raise X.mkviol("check", "program aborts (abort/exit/throw)")

    @reg("__cxa_throw")
    def throws(a, I):
        return aborts(a, I)
    X.ext_throw = aborts

    @reg("__cxa_allocate_exception")
    def cxa_alloc(a, I):
        return X.alloc(X.cur, 256, "exception")

    @reg("__cxa_atexit", "__cxa_guard_abort", "atexit")
    def zero(a, I):
        return 0

    @reg("__cxa_guard_acquire")
    def gacq(a, I):
        v = X.load(a[0], 1, "i")
        return 0 if v else 1

    @reg("__cxa_guard_release")
    def grel(a, I):
        X.store(a[0], 1, 1)

    # ---------------- intrinsics without effect
    @pre("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias", "llvm.assume", "llvm.donothing", "llvm.va_", "llvm.stackrestore", "llvm.invariant", "llvm.prefetch")
    def nop(a, I):
        return None

    @pre("llvm.stacksave")
    def stacksave(a, I):
        return 0

    @pre("llvm.expect", "llvm.ssa.copy", "llvm.launder", "llvm.strip", "llvm.is.constant")
    def ident(a, I):
        return a[0]

    @pre("llvm.is.constant")
    def isconst(a, I):
        return 0
    E_is = isconst
    P.insert(0, ("llvm.is.constant", E_is))

    @pre("llvm.objectsize")
    def objsize(a, I):
        return M64

    @pre("llvm.trap")
    def trap(a, I):
        raise X.mkviol("ub", "trap")

    def W(I):
        t = I.ty
        return t.w

    def minmax(pred):
        def f(a, I):
            if I.ty.k == "vector":
                return tuple(X.select(X.icmp(pred, x, y, I.ty.el.w), x, y, I.ty.el) for x, y in zip(a[0], a[1]))
            return X.select(X.icmp(pred, a[0], a[1], I.ty.w), a[0], a[1], I.ty)
        return f
    for n, p in (("umax", "ugt"), ("umin", "ult"), ("smax", "sgt"), ("smin", "slt")):
        P.append(("llvm." + n + ".", minmax(p)))

    @pre("llvm.abs.")
    def iabs(a, I):
        w = I.ty.w
        return X.select(X.icmp("slt", a[0], 0, w), X.bin("sub", 0, a[0], w), a[0], I.ty)

    @pre("llvm.ctpop")
    def ctpop(a, I):
        w = I.ty.w
        if a[0].__class__ is int:
            return bin(a[0]).count("1")
        e = X.tobv(a[0], w)
        s = z3.BitVecVal(0, w)
        for i in range(w):
            s = s + z3.ZeroExt(w - 1, z3.Extract(i, i, e))
        return X.simp(s)

    @pre("llvm.ctlz", "llvm.cttz")
    def ctz(a, I):
        raise Unsupported("ctlz/cttz symbolic") if a[0].__class__ is not int else None

    def ctlz(a, I):
        w = I.ty.w
        x = a[0] if a[0].__class__ is int else X.concretize(a[0])
        return w - x.bit_length()

    def cttz(a, I):
        w = I.ty.w
        x = a[0] if a[0].__class__ is int else X.concretize(a[0])
        return w if x == 0 else (x & -x).bit_length() - 1
    P.insert(0, ("llvm.ctlz", ctlz))
    P.insert(0, ("llvm.cttz", cttz))

    @pre("llvm.bswap")
    def bswap(a, I):
        x = X.concretize(a[0])
        return int.from_bytes(x.to_bytes(I.ty.w // 8, "little"), "big")

    def fsh(left):
        def f(a, I):
            w = I.ty.w
            s = X.bin("urem", a[2], w, w)
            if s.__class__ is not int:
                s = X.concretize(s)
            if left:
                if s == 0:
                    return a[0]
                return X.bin("or", X.bin("shl", a[0], s, w), X.bin("lshr", a[1], w - s, w), w)
            if s == 0:
                return a[1]
            return X.bin("or", X.bin("shl", a[0], w - s, w), X.bin("lshr", a[1], s, w), w)
        return f
    P.append(("llvm.fshl", fsh(True)))
    P.append(("llvm.fshr", fsh(False)))

    def sat(op):
        def f(a, I):
            w = I.ty.w
            if op == "usub":
                return X.select(X.icmp("ult", a[0], a[1], w), 0, X.bin("sub", a[0], a[1], w), I.ty)
            s = X.bin("add", a[0], a[1], w)
            return X.select(X.icmp("ult", s, a[0], w), mask(w), s, I.ty)
        return f
    P.append(("llvm.usub.sat", sat("usub")))
    P.append(("llvm.uadd.sat", sat("uadd")))

    def wov(op, signed):
        def f(a, I):
            w = I.ty.elts[0].w
            r = X.bin(op, a[0], a[1], w)
            if a[0].__class__ is int and a[1].__class__ is int:
                if signed:
                    x = {"add": sgn(a[0], w) + sgn(a[1], w), "sub": sgn(a[0], w) - sgn(a[1], w), "mul": sgn(a[0], w) * sgn(a[1], w)}[op]
                    return (r, int(sgn(r, w) != x))
                x = {"add": a[0] + a[1], "sub": a[0] - a[1], "mul": a[0] * a[1]}[op]
                return (r, int(x != r))
            ext = (z3.SignExt if signed else z3.ZeroExt)
            k = w if op == "mul" else 1
            A, B = ext(k, X.tobv(a[0], w)), ext(k, X.tobv(a[1], w))
            big = {"add": A + B, "sub": A - B, "mul": A * B}[op]
            return (r, X.sb(big != ext(k, X.tobv(r, w))))
        return f
    for o in ("add", "sub", "mul"):
        P.append(("llvm.u%s.with.overflow" % o, wov(o, False)))
        P.append(("llvm.s%s.with.overflow" % o, wov(o, True)))

    @pre("llvm.vector.reduce.")
    def vred(a, I):
        raise Unsupported("vector.reduce")

    def vred_int(op):
        def f(a, I):
            r = a[0][0]
            for x in a[0][1:]:
                r = X.bin(op, r, x, I.ty.w)
            return r
        return f
    for o in ("add", "mul", "and", "or", "xor"):
        P.insert(0, ("llvm.vector.reduce.%s." % o, vred_int(o)))

    # ---------------- math
    def vmap(f):
        def g(a, I):
            if I is not None and I.ty.k == "vector":
                return tuple(f(tuple(q[i] for q in a), I.ty.el.w) for i in range(I.ty.n))
            return f(a, I.ty.w if I is not None else 64)
        return g

    def mathreg(names, prefixes, f):
        g = vmap(f)
        for n in names:
            E[n] = g
        for p in prefixes:
            P.append((p, g))

    mathreg(["sqrt", "sqrtf"], ["llvm.sqrt"], lambda a, w: FP.sqrt(a[0], w))
    mathreg(["fabs", "fabsf"], ["llvm.fabs"], lambda a, w: FP.abs(a[0], w))

    def fmuladd(a, w):
        return FP.bin("fadd", FP.bin("fmul", a[0], a[1], w), a[2], w)
    mathreg(["fma", "fmaf"], ["llvm.fmuladd", "llvm.fma"], fmuladd)

    def fmm(p):
        def f(a, w):
            c = FP.cmp(p, a[0], a[1])
            if c.__class__ is int:
                return a[0] if c else a[1]
            if X.fsplit:
                return a[0] if X.branch(c) else a[1]
            return FP.ite(c, a[0], a[1], w)
        return f
    mathreg(["fmin", "fminf"], ["llvm.minnum"], fmm("olt"))
    mathreg(["fmax", "fmaxf"], ["llvm.maxnum"], fmm("ogt"))

    def copysign(a, w):
        if a[0].__class__ is float and a[1].__class__ is float:
            return math.copysign(a[0], a[1])
        m = FP.abs(a[0], w)
        c = FP.cmp("olt", a[1], 0.0)
        if c.__class__ is int:
            return FP.neg(m) if c else m
        return FP.ite(c, FP.neg(m), m, w)
    mathreg(["copysign", "copysignf"], ["llvm.copysign"], copysign)

    def floorlike(fn):
        def f(a, w):
            v = a[0]
            if v.__class__ is float:
                if fn == "floor":
                    return float(math.floor(v)) if math.isfinite(v) else v
                if fn == "ceil":
                    return float(math.ceil(v)) if math.isfinite(v) else v
                if fn == "trunc":
                    return float(math.trunc(v)) if math.isfinite(v) else v
                if fn == "round":
                    return float(math.floor(abs(v) + 0.5)) * (1 if v >= 0 else -1) if math.isfinite(v) else v
                return float(round(v))
            if X.fpmode == "fp":
                rm = {"floor": z3.RTN(), "ceil": z3.RTP(), "trunc": z3.RTZ(), "round": z3.RNA(), "rint": z3.RNE()}[fn]
                return z3.fpRoundToIntegral(rm, v)
            if X.fpmode == "real":
                if fn == "floor":
                    return float(X.real_floor(v, False))
                if fn == "ceil":
                    return -float(X.real_floor(fpm.scale(v, fpm.Fraction(-1)), False))
                if fn == "trunc":
                    return float(X.real_floor(v, True))
            raise Unsupported(fn)
        return f
    for n in ("floor", "ceil", "trunc", "round", "rint"):
        mathreg([n, n + "f"], ["llvm." + n + "."], floorlike(n))

    def concmath(name, fn):
        def f(a, w):
            if all(x.__class__ is float for x in a):
                try:
                    return rnd(fn(*a), w)
                except (ValueError, ZeroDivisionError):
                    return math.nan
                except OverflowError:
                    return math.inf
            if name == "pow" and X.fpmode == "real" and a[1].__class__ is float and 2 * a[1] == int(2 * a[1]) and abs(a[1]) <= 16:
                r = 1.0
                for _ in range(int(abs(a[1]))):
                    r = FP.bin("fmul", r, a[0], w)
                if a[1] != int(a[1]):
                    r = FP.bin("fmul", r, FP.sqrt(a[0], w), w)
                return FP.bin("fdiv", 1.0, r, w) if a[1] < 0 else r
            if X.fpmode == "uf":
                return FP.f(name, len(a))(*[FP.z(x) for x in a])
            if X.fpmode == "real" and X.cur.user.get("uf_math") is not None or getattr(X, "uf_math", False):
                f_ = z3.Function(name, *([z3.RealSort()] * (len(a) + 1)))
                return fpm.var(f_(*[fpm.z3e(fpm.toR(x)) for x in a]))
            raise Unsupported("symbolic " + name)
        return f
    for n in ("sin", "cos", "tan", "exp", "log", "log2", "log10", "atan", "acos", "asin", "sinh", "cosh", "tanh", "erf"):
        mathreg([n, n + "f"], ["llvm." + n + "."], concmath(n, getattr(math, n)))
    mathreg(["cbrt"], [], concmath("cbrt", lambda x: math.copysign(abs(x) ** (1 / 3), x)))

    def mpow(x, y):
        return math.pow(x, y)
    mathreg(["pow", "powf"], ["llvm.pow."], concmath("pow", mpow))
    mathreg(["atan2", "atan2f"], [], concmath("atan2", math.atan2))
    mathreg(["fmod", "fmodf"], [], concmath("fmod", math.fmod))

    @pre("llvm.powi")
    def powi(a, I):
        n = sgn(a[1], 32)
        r = 1.0
        for _ in range(abs(n)):
            r = FP.bin("fmul", r, a[0], I.ty.w)
        return r if n >= 0 else FP.bin("fdiv", 1.0, r, I.ty.w)

    @reg("hypot")
    def hypot(a, I):
        return FP.sqrt(FP.bin("fadd", FP.bin("fmul", a[0], a[0], 64), FP.bin("fmul", a[1], a[1], 64), 64), 64)

    @reg("omp_get_thread_num")
    def omp0(a, I):
        return 0

    @reg("omp_get_num_threads", "omp_get_max_threads")
    def omp1(a, I):
        return 1

    @reg("puts", "printf", "putchar", "fflush", "sched_yield", "usleep")
    def printf(a, I):
        return 0
