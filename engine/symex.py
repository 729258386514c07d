"""Symbolic executor for LLVM IR (KLEE-like): forking or state-merging exploration, z3 as decision procedure."""
import math
import os
import struct
import sys
import time
import z3
from fractions import Fraction
import llvmc
from llvmc import Module
import fpm
from fpm import Unsupported, rnd

TRACE = float(os.environ.get("VP_TRACE", "0"))
sys.setrecursionlimit(100000)
M64 = (1 << 64) - 1
OB = 0x10000000
Bool = z3.BoolRef
BV = z3.BitVecRef
_d = struct.Struct("<d")
_q = struct.Struct("<Q")
_f = struct.Struct("<f")
_i = struct.Struct("<I")


def mask(w):
    return (1 << w) - 1


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


class SPtr:
    """symbolic pointer: guarded alternatives (cond|None, base address int, offset int|BV64)"""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts


class FBits:
    """integer holding the bit pattern of a symbolic float"""
    __slots__ = ("v", "size")

    def __init__(self, v, size):
        self.v = v
        self.size = size


class Cat:
    """little-endian concatenation of memory cells"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts


class Obj:
    __slots__ = ("size", "cells", "owner", "fill", "alive", "name", "kind")

    def __init__(self, size, owner, name, fill=None, kind="heap"):
        self.size = size
        self.cells = {}
        self.owner = owner
        self.fill = fill
        self.alive = True
        self.name = name
        self.kind = kind

    def clone(self, owner):
        o = Obj.__new__(Obj)
        o.size = self.size
        o.cells = dict(self.cells)
        o.owner = owner
        o.fill = self.fill
        o.alive = self.alive
        o.name = self.name
        o.kind = self.kind
        return o


class Frame:
    __slots__ = ("F", "R", "blk", "ip", "prev", "dst", "allocas", "retblk")

    def copy(self):
        f = Frame.__new__(Frame)
        f.F = self.F
        f.R = list(self.R)
        f.blk = self.blk
        f.ip = self.ip
        f.prev = self.prev
        f.dst = self.dst
        f.allocas = list(self.allocas)
        f.retblk = self.retblk
        return f


class State:
    __slots__ = ("pc", "frames", "mem", "nobj", "conc", "inputs", "model", "sid", "ip", "steps", "defs", "R", "nosym",
                 "nz", "namecnt", "unin", "reach", "user")

    def fork(self, X):
        s = State.__new__(State)
        s.pc = list(self.pc)
        for f in self.frames:
            pass
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.nobj = self.nobj
        s.conc = dict(self.conc)
        s.inputs = list(self.inputs)
        s.model = self.model
        s.sid = X.newsid()
        self.sid = X.newsid()
        s.ip = self.ip
        s.steps = self.steps
        s.defs = set(self.defs)
        s.nz = dict(self.nz)
        s.namecnt = dict(self.namecnt)
        s.unin = self.unin
        s.reach = set(self.reach)
        s.R = None
        s.user = dict(self.user)
        return s


class ForkEx(Exception):
    def __init__(self, states):
        self.states = states


class PathEnd(Exception):
    pass


class Violation(Exception):
    def __init__(self, kind, label, st, model):
        self.kind = kind
        self.label = label
        self.st = st
        self.model = model


class Inconclusive(Exception):
    pass


class Exec:
    def __init__(self, mod, fp="real", merge="none", symaddr="ite", timeout_ms=20000, max_steps=20_000_000,
                 deadline=None, on_violation=None, zero_uninit=False, max_viol=3, verbose=0, nomerge=(), assert_timeout_ms=120000,
                 incr=True, fsplit=False, branch_ms=None):
        self.fsplit = fsplit
        self._cv = {}
        self._lin = {}
        self._mono = {}
        self.branch_ms = branch_ms
        self.m = mod
        self.FP = {"real": fpm.RealFP, "fp": fpm.IeeeFP, "uf": fpm.UfFP}[fp](self)
        self.fpmode = fp
        self.merge = merge
        self.symaddr = symaddr
        self.timeout = timeout_ms
        self.assert_timeout = assert_timeout_ms
        self.max_steps = max_steps
        self.deadline = deadline
        self._sid = 0
        self.solver = z3.Solver()
        self.sstack = []
        self.stats = dict(queries=0, solver_s=0.0, paths=0, pruned=0, asserts=0, assert_queries=0, forks=0, merges=0,
                          steps=0, unknown=0, trivial_asserts=0, fallback=0)
        self.funcs_used = {}
        self.viol = []
        self.violkeys = {}
        self.max_viol = max_viol
        self.known = set()
        self.on_violation = on_violation
        self.undecided = []
        self.reach = {}
        self.cur = None
        self.zero_uninit = zero_uninit
        self.verbose = verbose
        self.nomerge = nomerge
        self.ext = {}
        self.stopall = False
        self.samples = []
        self.samples_full = []
        self.asserts_by_label = {}
        self.incr = incr
        self.allow_abort = False
        import externals
        externals.install(self)

    def newsid(self):
        self._sid += 1
        return self._sid

    # ------------------------------------------------------------ solver
    def sync(self, pc):
        st = self.sstack
        n = 0
        m = min(len(st), len(pc))
        while n < m and st[n] is pc[n]:
            n += 1
        if len(st) > n:
            self.solver.pop(len(st) - n)
            del st[n:]
        for c in pc[n:]:
            self.solver.push()
            self.solver.add(c)
            st.append(c)

    def pinned(self, st, neg, tries=8):
        """search a counterexample with most inputs pinned to values of a model of the path condition"""
        import random
        rng = random.Random(len(st.pc) * 7919 + self.stats["asserts"])
        syms = []
        for n, k, e in st.inputs:
            if e.__class__ is fpm.R:
                e = fpm.z3e(e)
            if isinstance(e, z3.ExprRef) and not z3.is_bool(e):
                syms.append(e)
        if not syms:
            return None
        base = self.ensure_model(st)
        for t in range(tries):
            s = z3.Solver()
            s.set("timeout", 1500)
            s.add(*st.pc)
            free = set(rng.sample(range(len(syms)), min(len(syms), 1 + t % 3)))
            if t >= 2:
                # a different base point: nudge some inputs to small rationals, then complete
                s2 = z3.Solver()
                s2.set("timeout", 1500)
                s2.add(*st.pc)
                ok = False
                for i in rng.sample(range(len(syms)), len(syms)):
                    if syms[i].sort() == z3.RealSort():
                        v = z3.RealVal(str(Fraction(rng.randint(-12, 12), 4)))
                    elif z3.is_bv(syms[i]):
                        continue
                    else:
                        continue
                    if s2.check(syms[i] == v) == z3.sat:
                        s2.add(syms[i] == v)
                if s2.check() == z3.sat:
                    m = s2.model()
                else:
                    m = base
            else:
                m = base
            if m is None:
                return None
            for i, e in enumerate(syms):
                if i in free:
                    continue
                v = z3.simplify(m.eval(e, model_completion=True))
                if z3.is_algebraic_value(v):
                    continue
                s.add(e == v)
            s.add(neg)
            self.stats["queries"] += 1
            if s.check() == z3.sat:
                return s.model()
        return None

    def cvars(self, e):
        """ids of the free constants of an expression (cached)"""
        k = e.get_id()
        r = self._cv.get(k)
        if r is not None:
            return r[1]
        out = set()
        seen = set()
        todo = [e]
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            h = self._cv.get(i)
            if h is not None:
                out |= h[1]
                continue
            n = x.num_args()
            if n == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(i)
            else:
                todo.extend(x.children())
        self._cv[k] = (e, out)
        return out

    def slice(self, pc, extra):
        """constraints transitively sharing variables with extra"""
        vs = set()
        for c in extra:
            vs |= self.cvars(c)
        rest = [(c, self.cvars(c)) for c in pc]
        out = []
        while True:
            n = []
            for c, v in rest:
                if v & vs:
                    out.append(c)
                    vs |= v
                else:
                    n.append((c, v))
            if len(n) == len(rest):
                return out
            rest = n

    def lin(self, e):
        """linear abstraction: every non-linear monomial becomes a variable of its own (cached)"""
        k = e.get_id()
        r = self._lin.get(k)
        if r is not None:
            return r[1]
        if e.num_args() == 0:
            o = e
        elif z3.is_mul(e):
            fs = []
            co = None
            todo = list(e.children())
            while todo:
                x = todo.pop()
                if z3.is_mul(x):
                    todo.extend(x.children())
                elif z3.is_rational_value(x):
                    co = x if co is None else z3.simplify(co * x)
                else:
                    fs.append(self.lin(x))
            if len(fs) > 1:
                key = tuple(sorted(x.get_id() for x in fs))
                v = self._mono.get(key)
                if v is None:
                    v = (z3.Real("mono!%d" % len(self._mono)), fs)
                    self._mono[key] = v
                o = v[0]
            elif fs:
                o = fs[0]
            else:
                o = None
            o = co if o is None else o if co is None else co * o
        else:
            ch = e.children()
            n = [self.lin(x) for x in ch]
            if all(a is b or a.eq(b) for a, b in zip(ch, n)):
                o = e
            elif z3.is_and(e):
                o = z3.And(*n)
            elif z3.is_or(e):
                o = z3.Or(*n)
            elif z3.is_add(e):
                o = z3.Sum(n)
            else:
                o = e.decl()(*n)
        self._lin[k] = (e, o)
        return o

    def quick(self, pc, extra, ms):
        """decision on the slice of the path condition; 'sat' has no model"""
        t0 = time.time()
        self.stats["queries"] += 1
        sl = self.slice(pc, extra)
        if self.fpmode == "real":
            s = z3.Solver()
            s.set("timeout", ms)
            s.add(*[self.lin(c) for c in sl])
            s.add(*[self.lin(c) for c in extra])
            if s.check() == z3.unsat:
                self.stats["solver_s"] += time.time() - t0
                self.stats["linear_unsat"] = self.stats.get("linear_unsat", 0) + 1
                return "unsat"
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(*sl)
        s.add(*extra)
        r = s.check()
        dt = time.time() - t0
        self.stats["solver_s"] += dt
        if TRACE and dt > TRACE:
            print("QUICK %.1f %s ms=%d: %s" % (dt, r, ms, str(extra)[:200]), flush=True)
        return "sat" if r == z3.sat else "unsat" if r == z3.unsat else "unknown"

    def guess(self, st, neg, tries=4):
        """evaluate the negated assertion at a few points which satisfy the path condition (only to find counterexamples)"""
        import random
        rng = random.Random(len(st.pc) * 104729 + self.stats["asserts"])
        syms = []
        for n, k, e in st.inputs:
            if e.__class__ is fpm.R:
                e = fpm.z3e(e)
            if isinstance(e, z3.ExprRef):
                syms.append(e)
        base = self.ensure_model(st)
        if base is None or not syms:
            return None
        f = z3.And(*(list(st.pc) + [neg]))
        for t in range(tries):
            sub = []
            for e in syms:
                if e.sort() == z3.RealSort() and t > 0:
                    sub.append((e, z3.RealVal(str(Fraction(rng.randint(-12 if t % 2 else 2, 12), 4)))))
                else:
                    v = z3.simplify(base.eval(e, model_completion=True))
                    if z3.is_algebraic_value(v):
                        v = v.approx(10)
                    sub.append((e, v))
            if z3.is_true(z3.simplify(z3.substitute(f, *sub))):
                s = z3.Solver()
                s.set("timeout", 3000)
                s.add(*[e == v for e, v in sub])
                if s.check() == z3.sat:
                    return s.model()
        return None

    def check_assert(self, st, neg):
        big = self.fpmode == "real" and len(st.inputs) > 24
        if big:
            t0 = time.time()
            m = self.guess(st, neg)
            self.stats["solver_s"] += time.time() - t0
            if m is not None:
                return "sat", m
        if self.branch_ms:
            if self.quick(st.pc, (neg,), 3000) == "unsat":
                return "unsat", None
        r, m = self.check(st.pc, (neg,), timeout=3000, light=True)
        if r == "unknown":
            t0 = time.time()
            m = self.pinned(st, neg)
            self.stats["solver_s"] += time.time() - t0
            if m is not None:
                return "sat", m
            r, m = self.check(st.pc, (neg,), timeout=self.assert_timeout)
        return r, m

    def check(self, pc, extra=(), timeout=None, light=False):
        """returns ('sat', model) / ('unsat', None) / ('unknown', None)"""
        if self.deadline and time.time() > self.deadline:
            raise Inconclusive("time budget exhausted")
        t0 = time.time()
        self.stats["queries"] += 1
        to = timeout or self.timeout
        try:
            if self.incr:
                self.sync(pc)
                self.solver.set("timeout", min(to, 10000))
                r = self.solver.check(*extra)
                if r == z3.sat:
                    return "sat", self.solver.model()
                if r == z3.unsat:
                    return "unsat", None
            s = z3.Solver()
            s.set("timeout", to)
            s.add(*pc)
            s.add(*extra)
            self.stats["fallback"] += 1
            r = s.check()
            if r == z3.sat:
                return "sat", s.model()
            if r == z3.unsat:
                return "unsat", None
            if light:
                return "unknown", None
            if self.fpmode == "real":
                for tac in (z3.Then("simplify", "propagate-values", "solve-eqs", "elim-term-ite", "purify-arith", "qfnra-nlsat"),
                            z3.Then("simplify", "qfnra")):
                    s = tac.solver()
                    s.set("timeout", to)
                    s.add(*pc)
                    s.add(*extra)
                    try:
                        r = s.check()
                    except z3.Z3Exception:
                        continue
                    if r == z3.sat:
                        return "sat", s.model()
                    if r == z3.unsat:
                        return "unsat", None
            r = self.cvc5(list(pc) + list(extra), to)
            if r:
                return r, None
            self.stats["unknown"] += 1
            return "unknown", None
        finally:
            self.stats["solver_s"] += time.time() - t0
            if TRACE and time.time() - t0 > TRACE:
                print("SLOW %.1f to=%s light=%s npc=%d at %s: %s" % (time.time() - t0, to, light, len(pc), self.where(self.cur) if self.cur else "", str(extra)[:300]), flush=True)

    def cvc5(self, cs, to):
        """last resort: the cvc5 binary on the SMT-LIB text; only 'unsat' is used (no model import)."""
        import subprocess
        s = z3.Solver()
        s.add(*cs)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        try:
            p = subprocess.run(["cvc5", "--tlimit=%d" % to, "-"], input=txt, capture_output=True, text=True,
                               timeout=to / 1000 + 10)
        except Exception:
            return None
        if "(error" in p.stdout or "(error" in p.stderr:
            return None
        if p.stdout.startswith("unsat"):
            return "unsat"
        return None

    def ensure_model(self, st):
        if st.model is None:
            if self.branch_ms:
                r, m = self.check(st.pc, timeout=self.branch_ms, light=True)
            else:
                r, m = self.check(st.pc)
            if r == "unsat":
                raise PathEnd()
            if r == "sat":
                st.model = m
        return st.model

    def evalb(self, model, c):
        if model is None:
            return None
        try:
            v = model.eval(c, model_completion=True)
        except z3.Z3Exception:
            return None
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        v = z3.simplify(v)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def feasible(self, st, c):
        """(True|False, model or None)"""
        c = z3.simplify(c) if c.__class__ is Bool else c
        if z3.is_true(c):
            return True, st.model
        if z3.is_false(c):
            return False, None
        if st.model is not None and self.evalb(st.model, c) is True:
            return True, st.model
        if self.branch_ms:
            r, m = self.quick(st.pc, (c,), self.branch_ms), None
        else:
            r, m = self.check(st.pc, (c,))
        if r == "unsat":
            return False, None
        return True, m          # unknown -> explored

    def add_pc(self, st, c, model=None):
        if c.__class__ is int:
            if not c:
                raise PathEnd()
            return
        st.pc.append(c)
        if model is not None:
            st.model = model
        elif st.model is not None and self.evalb(st.model, c) is not True:
            st.model = None

    def add_def(self, key, c):
        st = self.cur
        if key in st.defs:
            return
        st.defs.add(key)
        st.pc.append(c)
        st.model = None

    def assume_nonzero(self, r):
        """real mode: is the denominator non-zero on this path?"""
        st = self.cur
        k = r.key()
        if k in st.nz:
            return
        e = fpm.z3e(r)
        if self.branch_ms:
            rr = self.quick(st.pc, (e == 0,), 5000)
        else:
            rr, m = self.check(st.pc, (e == 0,), timeout=5000)
        if rr == "unsat":
            st.nz[k] = True
            st.pc.append(e != 0)
            self.stats["nz_proved"] = self.stats.get("nz_proved", 0) + 1
        else:
            if TRACE:
                print("NZ-OPEN", str(e)[:300], flush=True)
            st.nz[k] = False
            self.stats["nz_open"] = self.stats.get("nz_open", 0) + 1

    # ------------------------------------------------------------ values
    def tobv(self, v, w):
        c = v.__class__
        if c is int:
            return z3.BitVecVal(v, w)
        if c is BV:
            return v
        if c is Bool:
            return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if c is SPtr:
            e = None
            for g, b, o in reversed(v.alts):
                x = (z3.BitVecVal(b, 64) + o) if o.__class__ is not int else z3.BitVecVal((b + o) & M64, 64)
                e = x if e is None or g is None else z3.If(g, x, e)
            return e
        if c is FBits:
            return self.FP.tobits(v.v, v.size * 8)
        if c is Cat:
            ps = []
            for s, x in reversed(v.parts):
                if x.__class__ is float:
                    x = fbits(x, s * 8)
                elif x.__class__ is not int and x.__class__ is not BV and x.__class__ is not SPtr:
                    x = self.FP.tobits(x, s * 8)
                ps.append(self.tobv(x, s * 8))
            return z3.Concat(*ps) if len(ps) > 1 else ps[0]
        if isinstance(v, z3.BitVecRef):
            return v
        raise Unsupported("tobv %r" % c)

    def tobool(self, v):
        if v.__class__ is int:
            return z3.BoolVal(bool(v))
        if v.__class__ is Bool or z3.is_bool(v):
            return v
        return v == 1

    def val(self, e):
        """fold constant z3 terms back to python"""
        if e.__class__ is z3.BitVecNumRef:
            return e.as_long()
        return e

    def simp(self, e):
        e = z3.simplify(e)
        if e.__class__ is z3.BitVecNumRef:
            return e.as_long()
        if z3.is_true(e):
            return 1
        if z3.is_false(e):
            return 0
        return e

    def bin(self, op, a, b, w):
        if w == 1:
            if a.__class__ is int and b.__class__ is int:
                if op == "and":
                    return a & b
                if op == "or":
                    return a | b
                return (a ^ b) & 1
            if op == "and" or op == "mul":
                if a.__class__ is int:
                    return b if a else 0
                if b.__class__ is int:
                    return a if b else 0
                return self.sb(z3.And(a, b))
            if op == "or":
                if a.__class__ is int:
                    return 1 if a else b
                if b.__class__ is int:
                    return 1 if b else a
                return self.sb(z3.Or(a, b))
            if op in ("xor", "add", "sub"):
                if a.__class__ is int:
                    a, b = b, a
                if b.__class__ is int:
                    return z3.Not(a) if b else a
                return self.sb(z3.Xor(a, b))
            raise Unsupported("i1 " + op)
        if a.__class__ is int and b.__class__ is int:
            return self.cbin(op, a, b, w)
        # neutral elements
        if b.__class__ is int:
            if b == 0:
                if op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
                    return a
                if op in ("mul", "and"):
                    return 0
            elif b == 1 and op in ("mul", "udiv", "sdiv"):
                return a
            elif op == "and" and b == mask(w):
                return a
        elif a.__class__ is int:
            if a == 0:
                if op in ("add", "or", "xor"):
                    return b
                if op in ("mul", "and", "shl", "lshr", "ashr"):
                    return 0
            elif a == 1 and op == "mul":
                return b
            elif op == "and" and a == mask(w):
                return b
        if a.__class__ is SPtr and w == 64 and op in ("add", "sub"):
            if b.__class__ is int or b.__class__ is BV:
                bb = b if op == "add" else (-b & M64 if b.__class__ is int else -b)
                return self.gep_add(a, bb)
        if a.__class__ is FBits or a.__class__ is Cat or a.__class__ is SPtr:
            r = self.fbits_logic(op, a, b, w)
            if r is not None:
                return r
            a = self.tobv(a, w)
        if b.__class__ is FBits or b.__class__ is Cat or b.__class__ is SPtr:
            b = self.tobv(b, w)
        if op in ("udiv", "sdiv", "urem", "srem"):
            if b.__class__ is not int:
                self.guard_assert(b != 0, "division by zero")
            elif b == 0:
                raise self.mkviol("ub", "division by zero")
        a = a if a.__class__ is int else a
        e = None
        if op == "add":
            e = a + b
        elif op == "sub":
            e = a - b
        elif op == "mul":
            e = a * b
        elif op == "and":
            e = a & b
        elif op == "or":
            e = a | b
        elif op == "xor":
            e = a ^ b
        elif op == "shl":
            e = a << b
        elif op == "lshr":
            e = z3.LShR(self.tobv(a, w), self.tobv(b, w))
        elif op == "ashr":
            e = self.tobv(a, w) >> b
        elif op == "udiv":
            e = z3.UDiv(self.tobv(a, w), self.tobv(b, w))
        elif op == "urem":
            e = z3.URem(self.tobv(a, w), self.tobv(b, w))
        elif op == "sdiv":
            e = self.tobv(a, w) / self.tobv(b, w)
        elif op == "srem":
            e = z3.SRem(self.tobv(a, w), self.tobv(b, w))
        else:
            raise Unsupported(op)
        return self.simp(e)

    def fbits_logic(self, op, a, b, w):
        if a.__class__ is FBits and b.__class__ is int:
            if op == "and" and b == mask(w - 1):
                return FBits(self.FP.abs(a.v, w), a.size)
            if op == "xor" and b == 1 << (w - 1):
                return FBits(self.FP.neg(a.v), a.size)
        if a.__class__ is Cat and b.__class__ is int and op in ("lshr", "and", "shl"):
            # extraction of whole parts
            if op == "lshr" and b % 8 == 0:
                return self.cat_slice(a, b // 8, w // 8)
            if op == "and":
                n = b.bit_length()
                if n % 8 == 0 and b == mask(n):
                    return self.cat_slice(a, 0, w // 8, n // 8)
        return None

    def cat_slice(self, a, skip, tot, keep=None):
        out = []
        off = 0
        for s, v in a.parts:
            if off >= skip and (keep is None or off + s <= skip + keep):
                out.append((s, v))
            elif off + s <= skip or (keep is not None and off >= skip + keep):
                pass
            else:
                return None
            off += s
        n = sum(s for s, _ in out)
        if n < tot:
            out.append((tot - n, 0))
        if len(out) == 1:
            s, v = out[0]
            return v if v.__class__ in (int, BV, SPtr) else FBits(v, s)
        return Cat(out)

    def cbin(self, op, a, b, w):
        m = (1 << w) - 1
        if op == "add":
            return (a + b) & m
        if op == "sub":
            return (a - b) & m
        if op == "mul":
            return (a * b) & m
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        if op == "shl":
            return (a << b) & m if b < w else 0
        if op == "lshr":
            return a >> b if b < w else 0
        if op == "ashr":
            return (sgn(a, w) >> min(b, w - 1)) & m
        if b == 0:
            raise self.mkviol("ub", "division by zero")
        if op == "udiv":
            return a // b
        if op == "urem":
            return a % b
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        if op == "sdiv":
            return q & m
        return (x - q * y) & m

    def sb(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return 1
        if z3.is_false(e):
            return 0
        return e

    def icmp(self, p, a, b, w):
        ca, cb = a.__class__, b.__class__
        if ca is int and cb is int:
            if p[0] == "s":
                a = sgn(a, w)
                b = sgn(b, w)
                p = "u" + p[1:]
            if p == "eq":
                return 1 if a == b else 0
            if p == "ne":
                return 1 if a != b else 0
            if p == "ult":
                return 1 if a < b else 0
            if p == "ule":
                return 1 if a <= b else 0
            if p == "ugt":
                return 1 if a > b else 0
            return 1 if a >= b else 0
        if w == 1:
            a, b = self.tobool(a), self.tobool(b)
            if p == "eq":
                return self.sb(a == b)
            if p == "ne":
                return self.sb(z3.Xor(a, b))
            a, b = self.tobv(a, 1), self.tobv(b, 1)
            ca = cb = BV
        if ca is SPtr or cb is SPtr:
            # null tests and same-object comparisons stay cheap through simplify
            a, b = self.tobv(a, w), self.tobv(b, w)
        else:
            if ca is FBits or ca is Cat:
                a = self.tobv(a, w)
            if cb is FBits or cb is Cat:
                b = self.tobv(b, w)
            if a.__class__ is int:
                a = z3.BitVecVal(a, w)
        if p == "eq":
            e = a == b
        elif p == "ne":
            e = a != b
        elif p == "slt":
            e = a < b
        elif p == "sle":
            e = a <= b
        elif p == "sgt":
            e = a > b
        elif p == "sge":
            e = a >= b
        elif p == "ult":
            e = z3.ULT(a, b)
        elif p == "ule":
            e = z3.ULE(a, b)
        elif p == "ugt":
            e = z3.UGT(a, b)
        else:
            e = z3.UGE(a, b)
        return self.sb(e)

    def castop(self, op, a, w0, w1):
        c = a.__class__
        if op == "trunc":
            if c is int:
                return a & ((1 << w1) - 1)
            if c is Cat or c is FBits:
                if c is FBits and a.size * 8 == w1:
                    return a
                if c is Cat and w1 % 8 == 0:
                    r = self.cat_slice(a, 0, w1 // 8, w1 // 8)
                    if r is not None:
                        return r
                a = self.tobv(a, w0)
            elif c is SPtr:
                a = self.tobv(a, w0)
            if w1 == 1:
                return self.sb(z3.Extract(0, 0, a) == 1)
            return self.simp(z3.Extract(w1 - 1, 0, a))
        if op == "zext":
            if c is int:
                return a
            if w0 == 1:
                return z3.If(a, z3.BitVecVal(1, w1), z3.BitVecVal(0, w1))
            if c is FBits and False:
                pass
            if c is FBits or c is Cat:
                p = list(a.parts) if c is Cat else [(a.size, a.v)]
                return Cat(p + [((w1 - w0) // 8, 0)])
            return self.simp(z3.ZeroExt(w1 - w0, a))
        if op == "sext":
            if c is int:
                return sgn(a, w0) & ((1 << w1) - 1)
            if w0 == 1:
                return z3.If(a, z3.BitVecVal(mask(w1), w1), z3.BitVecVal(0, w1))
            return self.simp(z3.SignExt(w1 - w0, self.tobv(a, w0)))
        raise Unsupported(op)

    def select(self, c, a, b, ty):
        if c.__class__ is int:
            return a if c else b
        if a is b:
            return a
        if self.fsplit and (ty.k in ("float", "double", "ptr") or ty.k in ("vector", "array") and ty.el.k in ("float", "double")):
            return a if self.branch(c) else b
        return self.ite(c, a, b, ty)

    def ite(self, c, a, b, ty):
        """merge values of type ty under z3 Bool c"""
        k = ty.k
        if k == "int":
            ca, cb = a.__class__, b.__class__
            if ca is int and cb is int and a == b:
                return a
            if ty.w == 1:
                if ca is int and cb is int:
                    return c if a else self.sb(z3.Not(c))
                return self.sb(z3.If(c, self.tobool(a), self.tobool(b)))
            if ca is SPtr or cb is SPtr:
                return self.ite_ptr(c, a, b)
            if (ca is FBits or cb is FBits):
                w = ty.w
                av = a.v if ca is FBits else bitsf(a, w)
                bv = b.v if cb is FBits else bitsf(b, w)
                return FBits(self.FP.ite(c, av, bv, w), w // 8)
            if ca is Cat or cb is Cat:
                if ca is Cat and cb is Cat and [s for s, _ in a.parts] == [s for s, _ in b.parts]:
                    return Cat([(s, self.ite_any(c, x, y, s)) for (s, x), (_, y) in zip(a.parts, b.parts)])
                a, b = self.tobv(a, ty.w), self.tobv(b, ty.w)
            return self.simp(z3.If(c, self.tobv(a, ty.w), self.tobv(b, ty.w)))
        if k == "ptr":
            return self.ite_ptr(c, a, b)
        if k in ("float", "double"):
            if a.__class__ is float and b.__class__ is float and (a == b and math.copysign(1, a) == math.copysign(1, b)):
                return a
            return self.FP.ite(c, a, b, ty.w)
        if k == "struct":
            return tuple(self.ite(c, x, y, t) for x, y, t in zip(a, b, ty.elts))
        if k in ("array", "vector"):
            return tuple(self.ite(c, x, y, ty.el) for x, y in zip(a, b))
        raise Unsupported("ite " + k)

    def ite_any(self, c, a, b, size):
        """merge two cell values of equal byte size"""
        if a.__class__ is FBits:
            a = a.v
        if b.__class__ is FBits:
            b = b.v
        ca, cb = a.__class__, b.__class__
        if a is b:
            return a
        if ca is int and cb is int:
            if a == b:
                return a
            if size == 8 and (a > OB or a == 0) and (b > OB or b == 0) and (self.isaddr(a) or a == 0) and (self.isaddr(b) or b == 0):
                return self.ite_ptr(c, a, b)
            return self.simp(z3.If(c, z3.BitVecVal(a, size * 8), z3.BitVecVal(b, size * 8)))
        fa = self.isf(a)
        fb = self.isf(b)
        if fa and fb:
            if ca is float and cb is float and a == b and math.copysign(1, a) == math.copysign(1, b):
                return a
            return self.FP.ite(c, a, b, size * 8)
        if fa and cb is int:
            return self.FP.ite(c, a, bitsf(b, size * 8), size * 8)
        if fb and ca is int:
            return self.FP.ite(c, bitsf(a, size * 8), b, size * 8)
        if ca is SPtr or cb is SPtr:
            return self.ite_ptr(c, a, b)
        if ca is Bool:
            a = self.tobv(a, size * 8)
        if cb is Bool:
            b = self.tobv(b, size * 8)
        return self.simp(z3.If(c, self.tobv(a, size * 8), self.tobv(b, size * 8)))

    def isf(self, v):
        c = v.__class__
        return c is float or c is fpm.R or c is z3.FPRef or (isinstance(v, z3.ExprRef) and c is not BV and c is not Bool
                                                            and not isinstance(v, z3.BitVecRef) and not isinstance(v, z3.BoolRef))

    def isaddr(self, a):
        return (a >> 32) in self.cur.mem

    def ite_ptr(self, c, a, b):
        if a.__class__ is int and b.__class__ is int and a == b:
            return a
        if a.__class__ is BV or b.__class__ is BV:
            return self.simp(z3.If(c, self.tobv(a, 64), self.tobv(b, 64)))
        A = self.alts(a)
        B = self.alts(b)
        nc = z3.Not(c)
        out = []
        for g, ba, o in A:
            out.append((c if g is None else z3.And(c, g), ba, o))
        for g, ba, o in B:
            out.append((nc if g is None else z3.And(nc, g), ba, o))
        # combine same base
        res = []
        by = {}
        for g, ba, o in out:
            if ba in by:
                i = by[ba]
                g0, _, o0 = res[i]
                if o.__class__ is int and o0.__class__ is int and o == o0:
                    no = o
                else:
                    no = self.simp(z3.If(g, self.tobv(o, 64), self.tobv(o0, 64)))
                res[i] = (z3.Or(g0, g), ba, no)
            else:
                by[ba] = len(res)
                res.append((g, ba, o))
        if len(res) == 1:
            g, ba, o = res[0]
            if o.__class__ is int:
                return (ba + o) & M64
            return SPtr([(None, ba, o)])
        return SPtr(res)

    def alts(self, p):
        if p.__class__ is SPtr:
            return p.alts
        if p.__class__ is int:
            oid = p >> 32
            if oid == 0 or p < OB:
                return [(None, p, 0)]
            base = (oid << 32) + OB
            return [(None, base, (p - base) & M64)]
        raise Unsupported("alts of %r" % p.__class__)

    def gep_add(self, p, off):
        """p + off (off int or BV64)"""
        if off.__class__ is int:
            if p.__class__ is int:
                return (p + off) & M64
            if p.__class__ is SPtr:
                return SPtr([(g, b, ((o + off) & M64) if o.__class__ is int else self.simp(o + off)) for g, b, o in p.alts])
            if p.__class__ is BV:
                return self.simp(p + off)
        if p.__class__ is int:
            p = SPtr(self.alts(p))
        if p.__class__ is SPtr:
            return SPtr([(g, b, self.simp((z3.BitVecVal(o, 64) if o.__class__ is int else o) + off)) for g, b, o in p.alts])
        return self.simp(p + off)

    def sidx(self, v, w, size):
        """index value (type iw) -> signed byte offset, int or BV64"""
        if v.__class__ is int:
            return (sgn(v, w) * size) & M64
        v = self.tobv(v, w)
        if w < 64:
            v = z3.SignExt(64 - w, v)
        if size != 1:
            v = v * size
        return self.simp(v)

    def offadd(self, a, b):
        if a.__class__ is int and b.__class__ is int:
            return (a + b) & M64
        return self.simp((z3.BitVecVal(a, 64) if a.__class__ is int else a) + b)

    # ------------------------------------------------------------ forking helpers
    def mkviol(self, kind, label, st=None, model=None):
        st = st or self.cur
        if model is None:
            r, model = self.check(st.pc, timeout=self.assert_timeout)
            if r == "unsat":
                return PathEnd()
            if r == "unknown":
                self.undecided.append((kind, label, self.where(st)))
                return PathEnd()
        return Violation(kind, label, st, model)

    def guard_assert(self, c, label):
        """c must hold on the path; report if it can fail, then continue under c"""
        st = self.cur
        if c.__class__ is int:
            if not c:
                raise self.mkviol("ub", label)
            return
        nc = z3.Not(c)
        r, m = self.check(st.pc, (nc,), timeout=self.assert_timeout)
        if r == "sat":
            self.report(Violation("ub", label, st, m))
        elif r == "unknown":
            self.undecided.append(("ub", label, self.where(st)))
        else:
            return
        ok, m = self.feasible(st, c)
        if not ok:
            raise PathEnd()
        self.add_pc(st, c, m)

    def branch(self, c):
        """fork on a z3 Bool during an instruction; returns python bool on this (re-executed) path"""
        st = self.cur
        k = ("b", c.get_id())
        v = st.conc.get(k)
        if v is not None:
            return v[0]
        if not self.branch_ms:
            self.ensure_model(st)
        nc = z3.Not(c)
        f1, m1 = self.feasible(st, c)
        f0, m0 = self.feasible(st, nc)
        if f1 and not f0:
            return True
        if f0 and not f1:
            return False
        if not f1 and not f0:
            raise PathEnd()
        self.stats["forks"] += 1
        s = st.fork(self)
        st.conc[k] = (True, c)
        self.add_pc(st, c, m1)
        s.conc[k] = (False, c)
        self.add_pc(s, nc, m0)
        raise ForkEx([st, s])

    def concretize(self, e, what="value", limit=4096):
        """enumerate all feasible values of a BV by forking"""
        if e.__class__ is int:
            return e
        if e.__class__ is SPtr or e.__class__ is FBits or e.__class__ is Cat:
            e = self.tobv(e, 64)
        st = self.cur
        k = ("v", e.get_id())
        v = st.conc.get(k)
        if v is not None:
            return v[0]
        if e.__class__ is Bool:
            return 1 if self.branch(e) else 0
        vals = []
        extra = []
        m = self.ensure_model(st)
        while True:
            if m is None:
                raise Inconclusive("concretize: unknown")
            x = m.eval(e, model_completion=True)
            x = z3.simplify(x)
            if not z3.is_bv_value(x):
                raise Unsupported("concretize non-value")
            vals.append((x.as_long(), m))
            extra.append(e != x)
            if len(vals) > limit:
                raise Inconclusive("concretize: more than %d values for %s" % (limit, what))
            r, m = self.check(st.pc, tuple(extra))
            if r == "unsat":
                break
            if r == "unknown":
                raise Inconclusive("concretize: unknown")
        if len(vals) == 1:
            st.conc[k] = (vals[0][0], e)
            return vals[0][0]
        self.stats["forks"] += len(vals) - 1
        out = []
        for x, mm in vals[1:]:
            s = st.fork(self)
            s.conc[k] = (x, e)
            self.add_pc(s, e == x, mm)
            out.append(s)
        st.conc[k] = (vals[0][0], e)
        self.add_pc(st, e == vals[0][0], vals[0][1])
        raise ForkEx([st] + out)

    def real_floor(self, r, trunc0, limit=4096):
        """enumerate integer part of a symbolic real by forking; trunc0: toward zero else floor"""
        st = self.cur
        k = ("fl", r.key(), trunc0)
        v = st.conc.get(k)
        if v is not None:
            return v
        e = fpm.z3e(r)
        opts = []
        extra = []
        while True:
            rr, m = self.check(st.pc, tuple(extra))
            if rr == "unsat":
                break
            if rr == "unknown":
                raise Inconclusive("real_floor unknown")
            x = m.eval(e, model_completion=True)
            x = z3.simplify(x)
            if z3.is_algebraic_value(x):
                fr = x.approx(30).as_fraction()
            else:
                fr = x.as_fraction()
            n = math.floor(fr)
            if trunc0 and fr < 0:
                n = -math.floor(-fr)
                c = z3.And(e > n - 1, e <= n) if n < 0 else z3.And(e > -1, e < 1)
            elif trunc0 and n == 0:
                c = z3.And(e > -1, e < 1)
            else:
                c = z3.And(e >= n, e < n + 1)
            opts.append((n, c, m))
            extra.append(z3.Not(c))
            if len(opts) > limit:
                raise Inconclusive("real_floor: too many values")
        if not opts:
            raise PathEnd()
        out = []
        for n, c, m in opts[1:]:
            s = st.fork(self)
            s.conc[k] = n
            self.add_pc(s, c, m)
            out.append(s)
        n, c, m = opts[0]
        st.conc[k] = n
        if out:
            self.add_pc(st, c, m)
            self.stats["forks"] += len(out)
            raise ForkEx([st] + out)
        return n

    # ------------------------------------------------------------ memory
    def alloc(self, st, size, name, fill=None, kind="heap"):
        oid = st.nobj
        st.nobj += 1
        st.mem[oid] = Obj(size, st.sid, name, fill, kind)
        return (oid << 32) + OB

    def wobj(self, st, oid):
        o = st.mem[oid]
        if o.owner != st.sid:
            o = o.clone(st.sid)
            st.mem[oid] = o
        return o

    def getobj(self, st, a, size, what):
        oid = a >> 32
        o = st.mem.get(oid)
        off = (a & 0xffffffff) - OB
        if o is None:
            raise self.mkviol("mem", "%s through invalid pointer 0x%x (null or wild)" % (what, a))
        if not o.alive:
            raise self.mkviol("mem", "%s after free: %s" % (what, o.name))
        if off < 0 or off + size > o.size:
            raise self.mkviol("mem", "%s out of bounds: offset %d size %d of %s[%d bytes]" % (what, off, size, o.name, o.size))
        return oid, o, off

    def load(self, a, size, kind):
        """kind: 'i' int, 'p' pointer, 'f' float"""
        st = self.cur
        if a.__class__ is not int:
            return self.load_sym(a, size, kind)
        oid, o, off = self.getobj(st, a, size, "read")
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
            cl = v.__class__
            if kind == "f":
                if cl is float or cl is fpm.R:
                    return v
                if cl is int:
                    return bitsf(v, size * 8)
                if cl is FBits:
                    return v.v
                if cl is BV:
                    return self.FP.frombits(v, size * 8)
                if cl is Cat:
                    return self.FP.frombits(self.tobv(v, size * 8), size * 8)
                return v
            if cl is int or cl is BV or cl is SPtr:
                return v
            if cl is float:
                return fbits(v, size * 8)
            if cl is FBits or cl is Cat or cl is z3.BitVecNumRef:
                return v
            return FBits(v, size)
        return self.load_slow(o, off, size, kind)

    def load_slow(self, o, off, size, kind):
        parts = self.gather(o, off, size)
        # collapse
        if all(p[1].__class__ is int for p in parts):
            x = 0
            sh = 0
            for s, v in parts:
                x |= v << sh
                sh += 8 * s
            return bitsf(x, size * 8) if kind == "f" else x
        if len(parts) == 1:
            v = parts[0][1]
            if kind == "f":
                if v.__class__ is FBits:
                    return v.v
                if v.__class__ is BV:
                    return self.FP.frombits(v, size * 8)
                return v
            return v if not self.isf(v) else FBits(v, size)
        c = Cat(parts)
        if kind == "f":
            return self.FP.frombits(self.tobv(c, size * 8), size * 8)
        if all(v.__class__ in (int, BV) for s, v in parts):
            return self.simp(self.tobv(c, size * 8))
        return c

    def gather(self, o, off, size):
        """list of (size, value) covering [off, off+size)"""
        parts = []
        p = off
        end = off + size
        cells = o.cells
        while p < end:
            c = cells.get(p)
            if c is not None and p + c[0] <= end:
                v = c[1]
                if v.__class__ is float:
                    v = fbits(v, c[0] * 8)
                parts.append((c[0], v))
                p += c[0]
                continue
            if c is not None:
                # larger cell starts here: take a piece
                n = end - p
                parts.append((n, self.piece(c, 0, n)))
                p += n
                continue
            # covered by an earlier cell?
            q = p - 1
            hit = None
            while q >= 0 and q > p - 64:
                c = cells.get(q)
                if c is not None:
                    if q + c[0] > p:
                        hit = (q, c)
                    break
                q -= 1
            if hit:
                q, c = hit
                n = min(q + c[0], end) - p
                parts.append((n, self.piece(c, p - q, n)))
                p += n
                continue
            # hole
            n = 1
            while p + n < end and (p + n) not in cells:
                n += 1
            if o.fill is not None:
                v = 0
                for _ in range(n):
                    v = (v << 8) | o.fill
                parts.append((n, v))
            else:
                parts.append((n, self.uninit(o, p, n)))
            p += n
        return parts

    def uninit(self, o, off, n):
        st = self.cur
        if self.zero_uninit:
            v = 0
        else:
            st.unin += 1
            nm = "uninit!%s!%d!%d" % (o.name, off, st.unin)
            if self.fpmode != "fp" and n in (4, 8) and getattr(self, "_ldkind", None) == "f":
                v = self.FP.sym(nm, n * 8)
            else:
                v = z3.BitVec(nm, n * 8)
            self.stats["uninit_reads"] = self.stats.get("uninit_reads", 0) + 1
        # remember
        oid = None
        for k, ob in st.mem.items():
            if ob is o:
                oid = k
                break
        if oid is not None:
            self.wobj(st, oid).cells[off] = (n, v)
        return v

    def piece(self, c, skip, n):
        s, v = c
        if v.__class__ is float:
            v = fbits(v, s * 8)
        if v.__class__ is int:
            return (v >> (8 * skip)) & mask(8 * n)
        if v.__class__ is Cat:
            r = self.cat_slice(v, skip, n, n)
            if r is not None:
                return r
        if self.isf(v):
            v = self.FP.tobits(v, s * 8)
        v = self.tobv(v, s * 8)
        return self.simp(z3.Extract(8 * (skip + n) - 1, 8 * skip, v))

    def store(self, a, size, v):
        st = self.cur
        if a.__class__ is not int:
            return self.store_sym(a, size, v)
        oid, o, off = self.getobj(st, a, size, "write")
        if o.owner != st.sid:
            o = o.clone(st.sid)
            st.mem[oid] = o
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            if v.__class__ is not Cat:
                o.cells[off] = (size, v)
                return
        self.put(o, off, size, v)

    def put(self, o, off, size, v):
        self.clear(o, off, size)
        if v.__class__ is Cat:
            p = off
            for s, x in v.parts:
                if x.__class__ is FBits:
                    x = x.v
                o.cells[p] = (s, x)
                p += s
            return
        if v.__class__ is FBits:
            v = v.v
        o.cells[off] = (size, v)

    def clear(self, o, off, size):
        cells = o.cells
        end = off + size
        # earlier overlapping cell
        q = off - 1
        lo = max(0, off - 32)
        while q >= lo:
            c = cells.get(q)
            if c is not None:
                if q + c[0] > off:
                    del cells[q]
                    cells[q] = (off - q, self.piece(c, 0, off - q))
                    if q + c[0] > end:
                        n = q + c[0] - end
                        cells[end] = (n, self.piece(c, end - q, n))
                break
            q -= 1
        if size <= 16 or size < len(cells):
            rng = [p for p in range(off, end) if p in cells]
        else:
            rng = [p for p in cells if off <= p < end]
        for p in rng:
            c = cells.pop(p)
            if p + c[0] > end:
                n = p + c[0] - end
                cells[end] = (n, self.piece(c, end - p, n))

    def sym_alts(self, a, size, what):
        """resolve symbolic pointer -> [(guard|None, oid, off int|BV)] with in-bounds guaranteed (violations reported)"""
        st = self.cur
        if a.__class__ is FBits or a.__class__ is Cat or a.__class__ is BV or a.__class__ is z3.BitVecRef:
            return [(None, None, self.concretize(self.tobv(a, 64), "address"))]
        out = []
        for g, b, o in a.alts:
            if g is not None:
                f, _ = self.feasible(st, g)
                if not f:
                    continue
            oid = b >> 32
            ob = st.mem.get(oid) if b >= OB else None
            if ob is None or not ob.alive:
                c = g if g is not None else z3.BoolVal(True)
                self.guard_assert(z3.Not(c), "%s through invalid or freed pointer" % what)
                continue
            if o.__class__ is int:
                off = sgn(o, 64)
                if off < 0 or off + size > ob.size:
                    self.guard_assert(z3.Not(g) if g is not None else z3.BoolVal(False),
                                      "%s out of bounds of %s[%d]" % (what, ob.name, ob.size))
                    continue
                out.append((g, oid, off))
            else:
                if ob.size < size:
                    inb = z3.BoolVal(False)
                else:
                    inb = z3.ULE(o, z3.BitVecVal(ob.size - size, 64))
                c = inb if g is None else z3.Implies(g, inb)
                self.guard_assert(c, "%s out of bounds of %s[%d]" % (what, ob.name, ob.size))
                out.append((g, oid, o))
        if not out:
            raise PathEnd()
        return out

    def const_leaves(self, o, lim=8):
        """values of a small tree of selects over constants"""
        out, todo, seen = set(), [o], 0
        while todo:
            x = todo.pop()
            seen += 1
            if seen > 4 * lim:
                return None
            if x.decl().kind() == z3.Z3_OP_ITE:
                todo += [x.arg(1), x.arg(2)]
            elif z3.is_bv_value(x):
                out.add(x.as_long())
            else:
                return None
        return sorted(out) if len(out) <= lim else None

    def sym_offs(self, st, g, ob, o, size, forstore):
        """candidate concrete offsets of the BV offset o"""
        cand = self.const_leaves(o)
        if cand is not None:
            return [x for x in cand if x + size <= ob.size]
        pre = [g] if g is not None else []
        if ob.size // size <= 600:
            cand = [x for x in range(0, ob.size - size + 1, size)]
            r, m = self.check(st.pc, tuple(pre + [z3.URem(o, z3.BitVecVal(size, 64)) != 0]))
            if r != "unsat":
                cand = None
        if cand is None:
            cand = []
            extra = list(pre)
            while True:
                r, m = self.check(st.pc, tuple(extra))
                if r == "unsat":
                    break
                if r == "unknown" or len(cand) > 600:
                    raise Inconclusive("symbolic address with too many targets")
                x = z3.simplify(m.eval(o, model_completion=True)).as_long()
                cand.append(x)
                extra.append(o != x)
        elif len(cand) > 3:
            # cheap range tightening
            lo, hi = 0, len(cand)
            o1 = []
            if len(cand) > 24:
                o1 = []
                m = self.ensure_model(st)
                x = z3.simplify(m.eval(o, model_completion=True)).as_long() if m is not None else None
                # binary search bounds
                def feas(lo_, hi_):
                    r, _ = self.check(st.pc, tuple(pre + [z3.UGE(o, z3.BitVecVal(lo_, 64)), z3.ULE(o, z3.BitVecVal(hi_, 64))]))
                    return r != "unsat"
                a, b = 0, len(cand) - 1
                # lower bound
                l, h = 0, len(cand) - 1
                while l < h:
                    mid = (l + h) // 2
                    if feas(0, cand[mid]):
                        h = mid
                    else:
                        l = mid + 1
                a = l
                l, h = a, len(cand) - 1
                while l < h:
                    mid = (l + h + 1) // 2
                    if feas(cand[mid], cand[-1]):
                        l = mid
                    else:
                        h = mid - 1
                b = l
                cand = cand[a:b + 1]
        return cand

    def load_sym(self, a, size, kind):
        st = self.cur
        if self.symaddr == "fork" or a.__class__ is not SPtr:
            return self.load(self.conc_ptr(a), size, kind)
        al = self.sym_alts(a, size, "read")
        opts = []
        for g, oid, off in al:
            ob = st.mem[oid]
            if off.__class__ is int:
                opts.append((g, (oid << 32) + OB + off))
            else:
                for x in self.sym_offs(st, g, ob, off, size, False):
                    c = off == x
                    opts.append((c if g is None else z3.And(g, c), (oid << 32) + OB + x))
        res = None
        vals = []
        self._ldkind = kind
        for c, addr in opts:
            try:
                vals.append((c, self.load(addr, size, kind)))
            except Unsupported:
                if self.check(st.pc, (c,))[0] != "unsat":
                    raise
        self._ldkind = None
        if kind == "f":
            # group equal values
            res = vals[-1][1]
            for c, v in reversed(vals[:-1]):
                if v is res:
                    continue
                res = self.FP.ite(c, v, res, size * 8)
            return res
        res = vals[-1][1]
        for c, v in reversed(vals[:-1]):
            if v is res or (v.__class__ is int and res.__class__ is int and v == res):
                continue
            if kind == "p":
                res = self.ite_ptr(c, v, res)
            else:
                res = self.ite_any(c, v, res, size)
        return res

    def conc_ptr(self, a):
        if a.__class__ is SPtr:
            if len(a.alts) > 1:
                for g, b, o in a.alts[:-1]:
                    if self.branch(self.tobool(self.sb(g))) if self.sb(g).__class__ is not int else self.sb(g):
                        break
                else:
                    g, b, o = a.alts[-1]
            else:
                g, b, o = a.alts[0]
            if o.__class__ is not int:
                ob = self.cur.mem.get(b >> 32)
                if ob is not None:
                    # bound the enumeration: out-of-range targets are reported as violations
                    self.guard_assert(z3.ULE(o, z3.BitVecVal(max(ob.size - 1, 0), 64)), "access out of bounds of %s[%d]" % (ob.name, ob.size))
                o = self.concretize(o, "offset")
            return (b + o) & M64
        return self.concretize(self.tobv(a, 64), "address")

    def store_sym(self, a, size, v):
        st = self.cur
        if self.symaddr == "fork" or a.__class__ is not SPtr or v.__class__ is Cat:
            return self.store(self.conc_ptr(a), size, v)
        al = self.sym_alts(a, size, "write")
        for g, oid, off in al:
            ob = self.wobj(st, oid)
            if off.__class__ is int:
                if g is None:
                    self.put(ob, off, size, v)
                else:
                    self.condput(ob, oid, off, size, v, g)
            else:
                for x in self.sym_offs(st, g, ob, off, size, True):
                    c = off == x
                    self.condput(ob, oid, x, size, v, c if g is None else z3.And(g, c))

    def condput(self, ob, oid, off, size, v, c):
        if v.__class__ is FBits:
            v = v.v
        kind = "f" if self.isf(v) else "i"
        self._ldkind = kind
        old = self.load((oid << 32) + OB + off, size, kind)
        self._ldkind = None
        if old.__class__ is FBits:
            old = old.v
        ob = self.wobj(self.cur, oid)
        self.put(ob, off, size, self.ite_any(c, v, old, size))

    def memcpy(self, d, s, n):
        st = self.cur
        n = self.concretize(n, "memcpy size") if n.__class__ is not int else n
        if n == 0:
            return
        d = self.conc_ptr(d) if d.__class__ is not int else d
        s = self.conc_ptr(s) if s.__class__ is not int else s
        so, sobj, soff = self.getobj(st, s, n, "memcpy read")
        do, dobj, doff = self.getobj(st, d, n, "memcpy write")
        # collect source cells
        out = []
        cells = sobj.cells
        p = soff
        end = soff + n
        if n <= 4 * len(cells) + 64:
            q = soff
            # leading partial
            c = cells.get(q)
            if c is None:
                for back in range(1, 33):
                    c2 = cells.get(q - back)
                    if c2 is not None:
                        if c2[0] > back:
                            k = min(c2[0] - back, n)
                            out.append((0, k, self.piece(c2, back, k)))
                            q += k
                        break
            while q < end:
                c = cells.get(q)
                if c is None:
                    q += 1
                    continue
                if q + c[0] <= end:
                    out.append((q - soff, c[0], c[1]))
                    q += c[0]
                else:
                    k = end - q
                    out.append((q - soff, k, self.piece(c, 0, k)))
                    q = end
        else:
            for q, c in cells.items():
                if q >= soff and q + c[0] <= end:
                    out.append((q - soff, c[0], c[1]))
                elif q < end and q + c[0] > soff:
                    a = max(q, soff)
                    b = min(q + c[0], end)
                    out.append((a - soff, b - a, self.piece(c, a - q, b - a)))
        fill = sobj.fill
        dobj = self.wobj(st, do)
        self.clear(dobj, doff, n)
        if fill is not None and dobj.fill != fill:
            # materialise holes
            cov = sorted((a, b) for a, b, _ in out)
            p = 0
            fb = 0x0101010101010101 * fill
            for a, b in cov + [(n, 0)]:
                while p < a:
                    k = 8 if a - p >= 8 and (doff + p) % 8 == 0 else 1
                    dobj.cells[doff + p] = (k, fb & mask(8 * k))
                    p += k
                p = max(p, a + b)
        elif fill is None and dobj.fill is not None:
            cov = sorted((a, b) for a, b, _ in out)
            # holes of uninitialised source over filled destination: leave destination fill (padding)
        for a, k, v in out:
            dobj.cells[doff + a] = (k, v)

    def memset(self, d, b, n):
        st = self.cur
        n = self.concretize(n, "memset size") if n.__class__ is not int else n
        if n == 0:
            return
        d = self.conc_ptr(d) if d.__class__ is not int else d
        do, dobj, doff = self.getobj(st, d, n, "memset")
        dobj = self.wobj(st, do)
        self.clear(dobj, doff, n)
        if b.__class__ is not int:
            for i in range(n):
                dobj.cells[doff + i] = (1, b)
            return
        if doff == 0 and n == dobj.size:
            dobj.fill = b
            return
        if dobj.fill == b:
            return
        fb = 0x0101010101010101 * b
        p = doff
        end = doff + n
        while p < end:
            k = 8 if end - p >= 8 and p % 8 == 0 else (4 if end - p >= 4 and p % 4 == 0 else 1)
            dobj.cells[p] = (k, fb & mask(8 * k))
            p += k

    def load_ty(self, a, ty):
        k = ty.k
        if k == "int":
            s = ty.ssize
            self._ldkind = "i"
            v = self.load(a, s, "i")
            if ty.w == 1:
                if v.__class__ is int:
                    return v & 1
                return self.sb(z3.Extract(0, 0, self.tobv(v, 8)) == 1)
            if ty.w != s * 8:
                return self.castop("trunc", v, s * 8, ty.w)
            return v
        if k == "ptr":
            return self.load(a, 8, "p")
        if k in ("float", "double"):
            self._ldkind = "f"
            v = self.load(a, ty.size, "f")
            self._ldkind = None
            return v
        if k == "struct":
            return tuple(self.load_ty(self.gep_add(a, o), t) for o, t in zip(ty.offs, ty.elts))
        if k in ("array", "vector"):
            return tuple(self.load_ty(self.gep_add(a, i * ty.el.size), ty.el) for i in range(ty.n))
        raise Unsupported("load " + k)

    def store_ty(self, a, v, ty):
        k = ty.k
        if k == "int":
            s = ty.ssize
            if v.__class__ is Bool:
                v = z3.If(v, z3.BitVecVal(1, s * 8), z3.BitVecVal(0, s * 8))
            elif ty.w != s * 8 and v.__class__ is not int:
                v = self.castop("zext", v, ty.w, s * 8)
            self.store(a, s, v)
        elif k in ("ptr", "float", "double"):
            self.store(a, ty.size, v)
        elif k == "struct":
            for o, t, x in zip(ty.offs, ty.elts, v):
                self.store_ty(self.gep_add(a, o), x, t)
        elif k in ("array", "vector"):
            for i in range(ty.n):
                self.store_ty(self.gep_add(a, i * ty.el.size), v[i], ty.el)
        else:
            raise Unsupported("store " + k)

    # ------------------------------------------------------------ code generation
    def compile(self, F):
        if not F.decoded:
            self.m.decode(F)
        for B in F.blocks:
            B.code = None
        return F

    def blockcode(self, F, B):
        env = {"X": self, "SG": sgn, "ccmp": fpm.ccmp, "rnd": rnd, "cbin": fpm.cbin}
        nk = [0]

        def K(v):
            if v.__class__ is int:
                return repr(v)
            if v.__class__ is float and math.isfinite(v):
                return repr(v)
            n = "k%d" % nk[0]
            nk[0] += 1
            env[n] = v
            return n

        def O(o):
            return "R[%d]" % o[1] if o[0] == "r" else K(o[1])
        L = ["def blk(st,R,start):"]
        emit = L.append
        n = len(B.ins)

        def isint(o):
            return ("%s.__class__ is int" % o) if o.startswith("R[") else "True"
        opened = False
        emit(" if start<=0:")
        body = []

        def flush(mark):
            nonlocal body
            if not body:
                body.append("pass")
            for b in body:
                L.append("  " + b)
            body = []
            if mark is not None:
                L.append(" if start<=%d:" % mark)
                body.append("st.ip=%d" % mark)
        binops = {"add": "+", "sub": "-", "mul": "*", "and": "&", "or": "|", "xor": "^"}
        for idx, I in enumerate(B.ins):
            op = I.op
            d = "R[%d]" % I.dst
            o = [O(x) for x in I.ops] if I.ops is not None else []
            ty = I.ty
            if op in ("load", "store", "call", "invoke", "alloca", "fdiv", "fptosi", "fptoui", "sitofp", "uitofp",
                      "udiv", "sdiv", "urem", "srem", "atomicrmw", "cmpxchg", "br", "switch", "ret", "fcmp", "fmul", "fadd", "fsub", "select"):
                # potentially forking (symbolic) instruction: resume point
                if op in ("load", "store", "call", "invoke", "fptosi", "fptoui", "sitofp", "uitofp", "br", "switch", "atomicrmw", "cmpxchg",
                          "udiv", "sdiv", "urem", "srem", "fdiv", "select"):
                    flush(idx)
            if ty.k == "vector" and op in list(binops) + ["shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv", "fneg", "icmp", "fcmp",
                                                             "trunc", "zext", "sext", "sitofp", "uitofp", "fpext", "fptrunc", "bitcast", "select"] or (
                    op == "bitcast" and I.x.k == "vector"):
                nm = K((I,))
                body.append("%s=X.vecop(%s[0],%s)" % (d, nm, ",".join(o)))
                continue
            if op in binops:
                w = ty.w
                a, b = o
                if w == 1 or w > 64:
                    body.append("%s=X.bin(%r,%s,%s,%d)" % (d, op, a, b, w))
                else:
                    cond = " and ".join(isint(x) for x, y in zip(o, I.ops) if y[0] == "r") or "True"
                    ex = "%s%s%s" % (a, binops[op], b)
                    if op in ("add", "sub", "mul"):
                        ex = "(%s)&%d" % (ex, mask(w))
                    body.append("%s=%s if %s else X.bin(%r,%s,%s,%d)" % (d, ex, cond, op, a, b, w))
            elif op in ("shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
                body.append("%s=X.bin(%r,%s,%s,%d)" % (d, op, o[0], o[1], ty.w))
            elif op in ("fadd", "fsub", "fmul", "fdiv"):
                w = ty.w
                a, b = o
                cond = " and ".join("%s.__class__ is float" % x for x, y in zip(o, I.ops) if y[0] == "r") or "True"
                if op != "fdiv" and w == 64:
                    c = {"fadd": "+", "fsub": "-", "fmul": "*"}[op]
                    body.append("%s=%s%s%s if %s else X.FP.bin(%r,%s,%s,%d)" % (d, a, c, b, cond, op, a, b, w))
                else:
                    body.append("%s=X.FP.bin(%r,%s,%s,%d)" % (d, op, a, b, w))
            elif op == "frem":
                body.append("%s=X.FP.bin('frem',%s,%s,%d)" % (d, o[0], o[1], ty.w))
            elif op == "fneg":
                body.append("%s=X.FP.neg(%s)" % (d, o[0]))
            elif op == "icmp":
                p, t = I.x
                w = t.w or 64
                body.append("%s=X.icmp(%r,%s,%s,%d)" % (d, p, o[0], o[1], w))
            elif op == "fcmp":
                body.append("%s=X.FP.cmp(%r,%s,%s)" % (d, I.x[0], o[0], o[1]))
            elif op in ("trunc", "zext", "sext"):
                body.append("%s=X.castop(%r,%s,%d,%d)" % (d, op, o[0], I.x.w, ty.w))
            elif op in ("ptrtoint",):
                if ty.w == 64:
                    body.append("%s=%s" % (d, o[0]))
                else:
                    body.append("%s=X.castop('trunc',%s,64,%d)" % (d, o[0], ty.w))
            elif op == "inttoptr" or op == "addrspacecast" or op == "freeze":
                body.append("%s=%s" % (d, o[0]))
            elif op == "bitcast":
                f0 = I.x.k in ("float", "double")
                f1 = ty.k in ("float", "double")
                if f0 and not f1:
                    body.append("%s=X.f2i(%s,%d)" % (d, o[0], ty.w))
                elif f1 and not f0:
                    body.append("%s=X.i2f(%s,%d)" % (d, o[0], ty.w))
                else:
                    body.append("%s=%s" % (d, o[0]))
            elif op in ("fpext", "fptrunc"):
                body.append("%s=X.FP.cast(%s,%d,%d)" % (d, o[0], I.x.w, ty.w))
            elif op in ("sitofp", "uitofp"):
                body.append("%s=X.int2fp(%s,%d,%d,%d)" % (d, o[0], I.x.w, 1 if op == "sitofp" else 0, ty.w))
            elif op in ("fptosi", "fptoui"):
                body.append("%s=X.fp2int(%s,%d,%d,%d)" % (d, o[0], I.x.w, 1 if op == "fptosi" else 0, ty.w))
            elif op == "alloca":
                sz = I.x.size
                body.append("%s=X.do_alloca(st,%d,%s)" % (d, sz, o[0] if o else "1"))
            elif op == "load":
                if ty.k == "ptr":
                    body.append("%s=X.load(%s,8,'p')" % (d, o[0]))
                elif ty.k == "int" and ty.w in (8, 16, 32, 64):
                    body.append("%s=X.load(%s,%d,'i')" % (d, o[0], ty.size))
                else:
                    body.append("%s=X.load_ty(%s,%s)" % (d, o[0], K((ty,)) + "[0]"))
            elif op == "store":
                t = I.x
                if t.k in ("ptr", "float", "double") or (t.k == "int" and t.w in (8, 16, 32, 64)):
                    body.append("X.store(%s,%d,%s)" % (o[1], t.size, o[0]))
                else:
                    body.append("X.store_ty(%s,%s,%s)" % (o[1], o[0], K((t,)) + "[0]"))
            elif op == "getelementptr":
                st, ws = I.x
                t = st
                coff = 0
                dyn = []
                for j, (x, w) in enumerate(zip(I.ops[1:], ws)):
                    if j == 0:
                        sz = st.size
                    elif t.k == "struct":
                        coff += t.offs[x[1]]
                        t = t.elts[x[1]]
                        continue
                    else:
                        t = t.el
                        sz = t.size
                    if x[0] == "c":
                        coff += sgn(x[1], w) * sz
                    else:
                        dyn.append((x[1], w, sz))
                base = o[0]
                if not dyn:
                    if coff == 0:
                        body.append("%s=%s" % (d, base))
                    else:
                        body.append("%s=(%s+%d)&%d if %s else X.gep_add(%s,%d)" % (d, base, coff, M64, isint(base), base, coff & M64))
                else:
                    cond = " and ".join([isint(base)] + [isint("R[%d]" % r) for r, w, s in dyn])
                    cexp = "+".join([base] + [("R[%d]*%d" % (r, s) if w == 64 else "SG(R[%d],%d)*%d" % (r, w, s)) for r, w, s in dyn])
                    if coff:
                        cexp += "+%d" % coff
                    soff = "%d" % (coff & M64)
                    for r, w, s in dyn:
                        soff = "X.offadd(%s,X.sidx(R[%d],%d,%d))" % (soff, r, w, s)
                    body.append("%s=(%s)&%d if %s else X.gep_add(%s,%s)" % (d, cexp, M64, cond, base, soff))
            elif op == "select":
                body.append("%s=X.select(%s,%s,%s,%s)" % (d, o[0], o[1], o[2], K((ty,)) + "[0]"))
            elif op == "extractvalue":
                e = o[0]
                for j in I.x:
                    e += "[%d]" % j
                body.append("%s=%s" % (d, e))
            elif op == "insertvalue":
                body.append("%s=X.insval(%s,%s,%r)" % (d, o[0], o[1], tuple(I.x)))
            elif op == "extractelement":
                body.append("%s=%s[%s]" % (d, o[0], o[1]))
            elif op == "insertelement":
                body.append("%s=X.insval(%s,%s,(%s,))" % (d, o[0], o[1], o[2]))
            elif op == "shufflevector":
                m, nn = I.x
                body.append("_v=%s+%s" % (o[0], o[1]))
                body.append("%s=(%s,)" % (d, ",".join("_v[%d]" % (j if j >= 0 else 0) for j in m)))
            elif op in ("call", "invoke"):
                tgt, callee, atys, nxt = I.x
                if isinstance(tgt, str):
                    raise Unsupported("inline asm")
                if tgt is None:
                    body.append("return X.do_call(st,None,%s,(%s),%d,%d,%r)" % (O(callee), "".join(x + "," for x in o), I.dst, idx + 1, nxt))
                    flush(idx + 1)
                    continue
                h = self.ext.get(tgt.name)
                if h is None and tgt.decl:
                    h = self.ext_generic(tgt.name)
                if h is not None:
                    hn = K((h,)) + "[0]"
                    call = "%s((%s),%s)" % (hn, "".join(x + "," for x in o), K((I,)) + "[0]")
                    if ty.k == "void":
                        body.append(call)
                    else:
                        body.append("%s=%s" % (d, call))
                    if op == "invoke":
                        body.append("return X.jump(st,%d,%d)" % (B.idx, nxt))
                elif tgt.decl:
                    body.append("X.no_ext(%r)" % tgt.name)
                else:
                    body.append("return X.do_call(st,%s[0],None,(%s),%d,%d,%r)" % (K((tgt,)), "".join(x + "," for x in o), I.dst, idx + 1, nxt))
                flush(idx + 1)
            elif op == "br":
                if not o:
                    body.append("return X.jump(st,%d,%d)" % (B.idx, I.x[0]))
                else:
                    c = o[0]
                    body.append("c=%s" % c)
                    body.append("if c.__class__ is int: return X.jump(st,%d,%d if c else %d)" % (B.idx, I.x[0], I.x[1]))
                    body.append("return X.condbr(st,%d,c,%d,%d)" % (B.idx, I.x[0], I.x[1]))
            elif op == "switch":
                body.append("return X.switch(st,%d,%s,%s[0])" % (B.idx, o[0], K((I.x,))))
            elif op == "ret":
                body.append("return X.do_ret(st,%s)" % (o[0] if o else "None"))
            elif op == "unreachable":
                body.append("X.unreachable(st)")
            elif op == "atomicrmw":
                body.append("%s=X.atomicrmw(%d,%s,%s,%s[0])" % (d, I.x[0], o[0], o[1], K((I.x[1],))))
            elif op == "cmpxchg":
                body.append("%s=X.cmpxchg(%s,%s,%s,%s[0])" % (d, o[0], o[1], o[2], K((I.x,))))
            elif op == "fence":
                pass
            elif op == "landingpad" or op == "resume":
                body.append("X.unreachable(st)")
            else:
                raise Unsupported("instruction " + op)
        flush(None)
        src = "\n".join(L)
        try:
            exec(compile(src, "<%s:%d>" % (F.name, B.idx), "exec"), env)
        except SyntaxError:
            print(src)
            raise
        B.code = env["blk"]
        return B.code

    def ext_generic(self, name):
        for p, h in self.ext_prefix:
            if name.startswith(p):
                return h
        if "__throw" in name:
            return self.ext_throw
        return None

    def no_ext(self, name):
        raise Unsupported("call to unmodelled external function " + name)

    def vecop(self, I, *o):
        op = I.op
        ty = I.ty
        if op == "bitcast":
            # via memory
            a = self.alloc(self.cur, max(ty.size, I.x.size), "bitcast")
            self.store_ty(a, o[0], I.x)
            return self.load_ty(a, ty)
        n = ty.n
        el = ty.el
        out = []
        for i in range(n):
            x = [q[i] if q.__class__ is tuple else q for q in o]
            if op in ("fadd", "fsub", "fmul", "fdiv"):
                out.append(self.FP.bin(op, x[0], x[1], el.w))
            elif op == "fneg":
                out.append(self.FP.neg(x[0]))
            elif op == "icmp":
                out.append(self.icmp(I.x[0], x[0], x[1], I.x[1].el.w or 64))
            elif op == "fcmp":
                out.append(self.FP.cmp(I.x[0], x[0], x[1]))
            elif op in ("trunc", "zext", "sext"):
                out.append(self.castop(op, x[0], I.x.el.w, el.w))
            elif op in ("sitofp", "uitofp"):
                out.append(self.int2fp(x[0], I.x.el.w, op == "sitofp", el.w))
            elif op in ("fpext", "fptrunc"):
                out.append(self.FP.cast(x[0], I.x.el.w, el.w))
            elif op == "select":
                out.append(self.select(x[0], x[1], x[2], el))
            else:
                out.append(self.bin(op, x[0], x[1], el.w))
        return tuple(out)

    def f2i(self, v, w):
        if v.__class__ is float:
            return fbits(v, w)
        return FBits(v, w // 8)

    def i2f(self, v, w):
        if v.__class__ is int:
            return bitsf(v, w)
        if v.__class__ is FBits:
            return v.v
        return self.FP.frombits(self.tobv(v, w), w)

    def int2fp(self, v, w0, signed, w):
        if v.__class__ is not int:
            if v.__class__ is Bool:
                if self.fpmode == "real":
                    return self.FP.ite(v, -1.0 if signed else 1.0, 0.0, w)
                v = self.tobv(v, w0)
            if self.fpmode == "fp":
                return self.FP.fromint(v, signed, w)
            v = self.concretize(v, "int->fp")
        x = sgn(v, w0) if signed else v
        f = float(x)
        if w == 32:
            # correct single rounding
            f = rnd_int32(x)
        return f

    def fp2int(self, v, w0, signed, w):
        if v.__class__ is float:
            if v != v or math.isinf(v):
                return 1 << (w - 1)
            return int(v) & mask(w)
        if self.fpmode == "real":
            if fpm.isconst(v):
                return int(fpm.cval(v)) & mask(w)
            return self.real_floor(v, True) & mask(w)
        if self.fpmode == "fp":
            return self.FP.toint(v, signed, w)
        raise Unsupported("uf fp->int")

    def insval(self, agg, v, idx):
        l = list(agg)
        if len(idx) == 1:
            l[idx[0]] = v
        else:
            l[idx[0]] = self.insval(l[idx[0]], v, idx[1:])
        return tuple(l)

    def atomicrmw(self, op, p, v, ty):
        old = self.load_ty(p, ty)
        names = {0: None, 1: "add", 2: "sub", 3: "and", 5: "or", 6: "xor"}
        if op == 0:
            new = v
        else:
            new = self.bin(names[op], old, v, ty.w)
        self.store_ty(p, new, ty)
        return old

    def cmpxchg(self, p, c, n, ty):
        old = self.load_ty(p, ty)
        eq = self.icmp("eq", old, c, ty.w or 64)
        self.store_ty(p, self.select(eq, n, old, ty), ty)
        return (old, eq)

    # ------------------------------------------------------------ control
    def do_alloca(self, st, size, n):
        if n.__class__ is not int:
            n = self.concretize(n)
        a = self.alloc(st, size * n, "stack:" + st.frames[-1].F.name[:60], kind="stack")
        st.frames[-1].allocas.append(a >> 32)
        return a

    def jump(self, st, src, dst):
        fr = st.frames[-1]
        F = fr.F
        B = F.blocks[dst]
        if B.phis:
            R = fr.R
            vals = []
            for I in B.phis:
                k, v = I.x[src]
                vals.append(R[v] if k == "r" else v)
            for I, v in zip(B.phis, vals):
                R[I.dst] = v
        fr.prev = src
        fr.blk = dst
        fr.ip = 0
        return None

    def condbr(self, st, src, c, t, f):
        if t == f:
            return self.jump(st, src, t)
        k = ("b", c.get_id())
        v = st.conc.get(k)
        if v is not None:
            return self.jump(st, src, t if v[0] else f)
        if self.merge != "none":
            F = st.frames[-1].F
            if not any(x in F.name for x in self.nomerge):
                ip = self.m.compute_ipdom(F)[src]
                if ip >= 0 or ip == -1:
                    return self.merge_branch(st, src, c, t, f, ip)
        b = self.branch(c)
        return self.jump(st, src, t if b else f)

    def switch(self, st, src, v, x):
        dflt, cases, ty = x
        if v.__class__ is not int:
            w = ty.w
            # fork over cases
            bv = self.tobv(v, w)
            for cv, b in cases:
                e = self.sb(bv == cv)
                if e.__class__ is int:
                    if e:
                        return self.jump(st, src, b)
                    continue
                if self.branch(e):
                    return self.jump(st, src, b)
            return self.jump(st, src, dflt)
        for cv, b in cases:
            if cv == v:
                return self.jump(st, src, b)
        return self.jump(st, src, dflt)

    def do_call(self, st, F, addr, args, dst, ip, nxt):
        if F is None:
            if addr.__class__ is not int:
                addr = self.conc_ptr(addr)
            F = self.m.func_by_addr.get(addr)
            if F is None:
                raise self.mkviol("mem", "indirect call through invalid pointer 0x%x" % addr)
            h = self.ext.get(F.name) or (self.ext_generic(F.name) if F.decl else None)
            if h is not None:
                r = h(args, None)
                fr = st.frames[-1]
                if dst >= 0:
                    fr.R[dst] = r
                fr.ip = ip
                if nxt is not None:
                    self.jump(st, fr.blk, nxt)
                return None
            if F.decl:
                self.no_ext(F.name)
        if not F.decoded:
            self.m.decode(F)
        self.funcs_used[F.name] = self.funcs_used.get(F.name, 0) + 1
        fr = st.frames[-1]
        fr.ip = ip
        fr.retblk = nxt
        nf = Frame.__new__(Frame)
        nf.F = F
        nf.R = list(args[:F.nargs]) + [None] * (F.nregs - F.nargs)
        nf.blk = 0
        nf.ip = 0
        nf.prev = -1
        nf.dst = dst
        nf.allocas = []
        nf.retblk = None
        st.frames.append(nf)
        if len(st.frames) > 400:
            raise Inconclusive("call depth")
        return None

    def do_ret(self, st, v):
        fr = st.frames.pop()
        for oid in fr.allocas:
            if oid in st.mem:
                del st.mem[oid]
        if not st.frames:
            return "done"
        up = st.frames[-1]
        if fr.dst >= 0:
            up.R[fr.dst] = v
        if up.retblk is not None:
            self.jump(st, up.blk, up.retblk)
            up.retblk = None
        return None

    def unreachable(self, st):
        raise self.mkviol("ub", "unreachable code reached")

    def where(self, st):
        return " <- ".join(fr.F.name for fr in reversed(st.frames[-4:]))

    def step_run(self, st, stop=None):
        """run st until fork/exit/stop; returns list of successor states (unfinished) or [] ; arrived states flagged"""
        self.cur = st
        frames = st.frames
        n = 0
        while True:
            fr = frames[-1]
            if stop is not None:
                depth, blk = stop
                L = len(frames)
                if L < depth or (L == depth and fr.blk == blk and fr.ip == 0):
                    return "arrived"
            B = fr.F.blocks[fr.blk]
            code = B.code
            if code is None:
                code = self.blockcode(fr.F, B)
            n += 1
            st.steps += len(B.ins)
            if n & 1023 == 0:
                if st.steps > self.max_steps:
                    raise Inconclusive("instruction bound exceeded in " + self.where(st))
                if self.deadline and time.time() > self.deadline:
                    raise Inconclusive("time budget exhausted")
            r = code(st, fr.R, fr.ip)
            if r is not None:
                return r

    def report(self, v):
        key = (v.kind, v.label)
        n = self.violkeys.get(key, 0)
        self.violkeys[key] = n + 1
        if n >= self.max_viol:
            return
        ins = self.model_inputs(v.st, v.model)
        rec = dict(kind=v.kind, label=v.label, where=self.where(v.st), inputs=ins)
        self.viol.append(rec)
        if self.on_violation:
            if self.on_violation(rec):
                self.stopall = True
                raise PathEnd()

    def model_inputs(self, st, model):
        out = []
        for name, kind, e in st.inputs:
            out.append((name, kind, self.model_val(model, e, kind)))
        return out

    def model_val(self, model, e, kind):
        if e.__class__ is int or e.__class__ is float:
            return e
        if e.__class__ is fpm.R:
            e = fpm.z3e(e)
        v = z3.simplify(model.eval(e, model_completion=True))
        if z3.is_bv_value(v):
            return v.as_long()
        if z3.is_true(v):
            return 1
        if z3.is_false(v):
            return 0
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        if z3.is_algebraic_value(v):
            return float(v.approx(40).as_fraction())
        if z3.is_fp(v):
            try:
                if v.isNaN():
                    return math.nan
                if v.isInf():
                    return -math.inf if v.isNegative() else math.inf
                bv = z3.simplify(z3.fpToIEEEBV(v)).as_long()
                return bitsf(bv, v.ebits() + v.sbits())
            except Exception:
                return 0.0
        if self.fpmode == "uf":
            # distinct concrete numbers for distinct abstract values
            s = str(v)
            d = self.__dict__.setdefault("_ufvals", {})
            if s not in d:
                d[s] = 1.0 + 0.37 * len(d)
            return d[s]
        return 0.0

    def run_state(self, st, stop=None):
        """returns ('arrived', st) / ('done', st) / ('forked', [states]) / ('end',)"""
        try:
            r = self.step_run(st, stop)
            return (r, st)
        except ForkEx as f:
            for s in f.states:
                s.frames[-1].ip = s.ip
            return ("forked", f.states)
        except PathEnd:
            return ("end", None)
        except Violation as v:
            try:
                self.report(v)
            except PathEnd:
                pass
            return ("end", None)

    def explore(self, states, stop=None):
        """DFS; returns list of arrived states"""
        work = list(states)
        arrived = []
        while work:
            if self.stopall:
                return []
            st = work.pop()
            r, x = self.run_state(st, stop)
            if r == "arrived":
                arrived.append(x)
            elif r == "done":
                self.finish(x)
            elif r == "forked":
                work.extend(reversed(x))
            else:
                self.stats["pruned"] += 1
        return arrived

    def finish(self, st):
        self.stats["paths"] += 1
        self.stats["steps"] += st.steps
        if st.model is None and st.pc:
            if self.branch_ms:
                if len(self.samples) > 1 and all(l in self.reach for l in st.reach):
                    return
                r, m = self.check(st.pc, timeout=2000, light=True)
            else:
                r, m = self.check(st.pc)
            if r == "unsat":
                self.stats["pruned"] += 1
                return
            if r == "unknown":
                return
            st.model = m
        for l in st.reach:
            self.reach[l] = self.reach.get(l, 0) + 1
        if len(self.samples) < 3 and st.inputs:
            try:
                m = st.model
                self.samples_full.append(self.model_inputs(st, m) if m is not None else [(n, k, 0) for n, k, e in st.inputs])
                self.samples.append({n: (self.model_val(m, e, k) if m is not None else 0) for n, k, e in st.inputs[:24]})
            except Exception:
                pass

    # ------------------------------------------------------------ merging
    def merge_branch(self, st, src, c, t, f, ip):
        if not self.branch_ms:
            self.ensure_model(st)
        nc = z3.Not(c)
        f1, m1 = self.feasible(st, c)
        f0, m0 = self.feasible(st, nc)
        if f1 and not f0:
            return self.jump(st, src, t)
        if f0 and not f1:
            return self.jump(st, src, f)
        if not f1:
            raise PathEnd()
        self.stats["forks"] += 1
        k = len(st.pc)
        s = st.fork(self)
        self.add_pc(st, c, m1)
        self.jump(st, src, t)
        self.add_pc(s, nc, m0)
        self.jump(s, src, f)
        depth = len(st.frames)
        stop = (depth, ip) if ip >= 0 else (depth, None)
        if depth == 1 and ip < 0:
            raise_states = [st, s]
            for q in raise_states:
                q.ip = q.frames[-1].ip
            raise ForkEx(raise_states)
        arr = self.explore([st, s], stop)
        if not arr:
            raise PathEnd()
        arr = self.merge_states(arr, k)
        self.cur = arr[0]
        for q in arr:
            q.ip = q.frames[-1].ip
        if len(arr) == 1 and arr[0] is st:
            return "switch" if False else self._cont(st)
        raise ForkEx(arr)

    def _cont(self, st):
        st.ip = st.frames[-1].ip
        raise ForkEx([st])

    def merge_states(self, arr, k):
        out = []
        for s in arr:
            for i, o in enumerate(out):
                m = self.try_merge(o, s, k)
                if m is not None:
                    out[i] = m
                    self.stats["merges"] += 1
                    break
            else:
                out.append(s)
        return out

    def fp_only(self, a, b):
        if a is b:
            return True
        return self.isf(a) and self.isf(b)

    def mergeable(self, a, b):
        """value-level merge policy"""
        if a is b:
            return True
        ca, cb = a.__class__, b.__class__
        if ca is int and cb is int:
            if a == b:
                return True
            return self.merge == "all"
        if ca is float and cb is float and a == b:
            return True
        if a is None or b is None:
            return True
        fa, fb = self.isf(a), self.isf(b)
        if fa and fb:
            return True
        if ca is tuple and cb is tuple:
            return all(self.mergeable(x, y) for x, y in zip(a, b))
        if self.merge == "all":
            return not (ca is Cat or cb is Cat)
        if self.merge == "fp":
            if ca is BV or cb is BV or ca is Bool or cb is Bool:
                return not (ca is int or cb is int) or True
            return False
        return False

    def try_merge(self, a, b, k):
        if len(a.frames) != len(b.frames):
            return None
        for x, y in zip(a.frames, b.frames):
            if x.F is not y.F or x.blk != y.blk or x.ip != y.ip:
                return None
        if [i[0] for i in a.inputs] != [i[0] for i in b.inputs]:
            return None
        if a.user != b.user:
            return None
        save = self.cur
        self.cur = a
        try:
            regd = []
            for fi, (x, y) in enumerate(zip(a.frames, b.frames)):
                if x.allocas != y.allocas:
                    return None
                live = None
                if fi == len(a.frames) - 1 and x.ip == 0:
                    live = self.m.liveness(x.F)[x.blk]
                for i, (u, v) in enumerate(zip(x.R, y.R)):
                    if u is v:
                        continue
                    if live is not None and i not in live:
                        continue
                    if u is v:
                        continue
                    if u.__class__ is int and v.__class__ is int and u == v:
                        continue
                    if u is None or v is None:
                        continue
                    if not self.mergeable(u, v):
                        return None
                    regd.append((fi, i, u, v))
            memd = []
            for oid in set(a.mem) | set(b.mem):
                oa, ob = a.mem.get(oid), b.mem.get(oid)
                if oa is ob:
                    continue
                if oa is None or ob is None:
                    if oid >= min(a.nobj, b.nobj) or True:
                        memd.append((oid, None, None))
                        continue
                if oa.size != ob.size or oa.alive != ob.alive:
                    return None
                if oa.fill != ob.fill and oa.cells is not ob.cells:
                    return None
                dif = []
                ca, cb = oa.cells, ob.cells
                for off in set(ca) | set(cb):
                    x, y = ca.get(off), cb.get(off)
                    if x is y:
                        continue
                    if x is None or y is None:
                        z = x or y
                        if oa.fill is not None:
                            fv = 0
                            for _ in range(z[0]):
                                fv = fv << 8 | oa.fill
                            other = fv
                            # hole must not be covered by overlapping cells
                            o2 = ca if x is None else cb
                            if any((off + d) in o2 for d in range(1, z[0])):
                                return None
                            x = x or (z[0], other)
                            y = y or (z[0], other)
                        else:
                            # uninitialised on one side: keep the initialised value
                            o2 = ca if x is None else cb
                            if any((off + d) in o2 for d in range(1, z[0])):
                                return None
                            dif.append((off, z[0], z[1], z[1]))
                            continue
                    if x[0] != y[0]:
                        return None
                    u, v = x[1], y[1]
                    if u is v or (u.__class__ is int and v.__class__ is int and u == v):
                        continue
                    if not self.mergeable(u, v):
                        return None
                    dif.append((off, x[0], u, v))
                if dif:
                    memd.append((oid, oa, dif))
            # commit
            ca = z3.And(*a.pc[k:]) if len(a.pc) > k + 1 else (a.pc[k] if len(a.pc) > k else z3.BoolVal(True))
            cb = z3.And(*b.pc[k:]) if len(b.pc) > k + 1 else (b.pc[k] if len(b.pc) > k else z3.BoolVal(True))
            g = self.merge_guard(a.pc[k:], b.pc[k:], ca)
            try:
                newregs = []
                for fi, i, u, v in regd:
                    newregs.append((fi, i, self.ite(g, u, v, a.frames[fi].F.regtys[i])))
                newmem = []
                for oid, oa, dif in memd:
                    if dif is None:
                        continue
                    newmem.append((oid, [(off, s, self.ite_any(g, u, v, s)) for off, s, u, v in dif]))
            except Unsupported:
                return None
            for fi, i, v in newregs:
                a.frames[fi].R[i] = v
            a.nobj = max(a.nobj, b.nobj)
            for oid, oa, dif in memd:
                if dif is None and oid not in a.mem:
                    a.mem[oid] = b.mem[oid]
            for oid, l in newmem:
                o = self.wobj(a, oid)
                for off, s, v in l:
                    o.cells[off] = (s, v)
            common = a.pc[:k]
            da = a.defs
            if len(a.pc) > k + 1 or len(b.pc) > k + 1 or not self.complementary(a.pc[k:], b.pc[k:]):
                e = z3.simplify(z3.Or(ca, cb))
                a.pc = common + ([] if z3.is_true(e) else [e])
            else:
                a.pc = common
            a.defs = a.defs & b.defs
            a.nz = {x: v for x, v in a.nz.items() if b.nz.get(x) == v and False}
            a.conc = {x: v for x, v in a.conc.items() if x in b.conc and (b.conc[x] is v)}
            a.model = a.model or None
            if a.model is not None:
                for c in a.pc[k:]:
                    if self.evalb(a.model, c) is not True:
                        a.model = None
                        break
            a.steps = max(a.steps, b.steps)
            a.reach = a.reach | b.reach
            a.unin = max(a.unin, b.unin)
            for x, v in b.namecnt.items():
                a.namecnt[x] = max(a.namecnt.get(x, 0), v)
            a.sid = self.newsid()
            return a
        finally:
            self.cur = save

    def merge_guard(self, pa, pb, ca):
        return z3.simplify(ca)

    def complementary(self, pa, pb):
        if len(pa) == 1 and len(pb) == 1:
            return z3.is_false(z3.simplify(z3.And(pa[0], pb[0]))) and z3.is_true(z3.simplify(z3.Or(pa[0], pb[0])))
        return False

    # ------------------------------------------------------------ entry
    def initial(self):
        st = State.__new__(State)
        st.pc = []
        st.frames = []
        st.mem = {}
        st.nobj = self.m.nobj0
        st.conc = {}
        st.inputs = []
        st.model = None
        st.sid = self.newsid()
        st.ip = 0
        st.steps = 0
        st.defs = set()
        st.nz = {}
        st.namecnt = {}
        st.unin = 0
        st.reach = set()
        st.R = None
        st.user = {}
        self.cur = st
        for name, (oid, ty, cst, init) in self.m.globals.items():
            o = Obj(ty.size, st.sid, "global:" + name, 0 if init else None, "global")
            st.mem[oid] = o
        for name, (oid, ty, cst, init) in self.m.globals.items():
            if init and not name.startswith("llvm."):
                v = self.m.const(init)
                if v != self.m.zero(ty):
                    self.init_store(st.mem[oid], 0, v, ty)
        return st

    def init_store(self, o, off, v, ty):
        k = ty.k
        if k == "int":
            o.cells[off] = (ty.ssize, v)
        elif k in ("ptr", "float", "double"):
            o.cells[off] = (ty.size, v)
        elif k == "struct":
            for q, t, x in zip(ty.offs, ty.elts, v):
                self.init_store(o, off + q, x, t)
        elif k in ("array", "vector"):
            es = ty.el.size
            for i in range(ty.n):
                self.init_store(o, off + i * es, v[i], ty.el)

    def push_call(self, st, F, args):
        if not F.decoded:
            self.m.decode(F)
        nf = Frame.__new__(Frame)
        nf.F = F
        nf.R = list(args) + [None] * (F.nregs - len(args))
        nf.blk = 0
        nf.ip = 0
        nf.prev = -1
        nf.dst = -1
        nf.allocas = []
        nf.retblk = None
        st.frames.append(nf)

    def run(self, entry, args=(), ctors=True):
        st = self.initial()
        if ctors and "llvm.global_ctors" in self.m.globals:
            oid, ty, cst, init = self.m.globals["llvm.global_ctors"]
            if init:
                for c in sorted(self.m.const(init), key=lambda c: c[0]):
                    F = self.m.func_by_addr[c[1]]
                    self.push_call(st, F, [])
                    r, _ = self.run_state(st)
                    if r != "done":
                        raise Unsupported("global constructor forked or failed")
        F = self.m.funcs[entry]
        self.push_call(st, F, list(args))
        self.explore([st])


def fbits(x, w):
    if w == 64:
        return _q.unpack(_d.pack(x))[0]
    try:
        return _i.unpack(_f.pack(x))[0]
    except OverflowError:
        return 0x7f800000 if x > 0 else 0xff800000


def bitsf(x, w):
    if w == 64:
        return _d.unpack(_q.pack(x))[0]
    return _f.unpack(_i.pack(x))[0]


def rnd_int32(x):
    import numpy as np
    return float(np.float32(x)) if abs(x) < 2**53 else float(np.float32(float(x)))
