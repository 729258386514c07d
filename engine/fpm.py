"""Floating-point back ends: exact reals (polynomial normal form), IEEE (z3 FP), uninterpreted."""
from fractions import Fraction
import math
import struct
import z3

_f32 = struct.Struct("<f")


def rnd(x, w):
    if w == 32:
        if x != x or x in (math.inf, -math.inf):
            return x
        try:
            return _f32.unpack(_f32.pack(x))[0]
        except OverflowError:
            return math.inf if x > 0 else -math.inf
    return x


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ polynomials over real atoms
ATOMS = []        # z3 Real expr
ATOM_INFO = []    # None | ('div', num R, den R) | ('sqrt', R)
ATOM_IDX = {}
F0 = Fraction(0)
F1 = Fraction(1)


def atom(e, info=None):
    k = e.get_id()
    i = ATOM_IDX.get(k)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(e)
        ATOM_INFO.append(info)
        ATOM_IDX[k] = i
    return i


class R:
    __slots__ = ("t", "z", "h")

    def __init__(self, t):
        self.t = t
        self.z = None
        self.h = None

    def key(self):
        if self.h is None:
            self.h = frozenset(self.t.items())
        return self.h


def const(x):
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            raise Unsupported("inf/nan mixed with symbolic real")
        x = Fraction(x)
    return R({(): x}) if x else R({})


def var(e):
    return R({((atom(e), 1),): F1})


def toR(v):
    return v if v.__class__ is R else const(v)


def isconst(r):
    t = r.t
    return not t or (len(t) == 1 and () in t)


def cval(r):
    return r.t.get((), F0)


def add(a, b):
    if len(a.t) < len(b.t):
        a, b = b, a
    t = dict(a.t)
    for m, c in b.t.items():
        n = t.get(m)
        if n is None:
            t[m] = c
        else:
            n = n + c
            if n:
                t[m] = n
            else:
                del t[m]
    return R(t)


def scale(a, c):
    if not c:
        return R({})
    return R({m: k * c for m, k in a.t.items()})


def sub(a, b):
    t = dict(a.t)
    for m, c in b.t.items():
        n = t.get(m)
        if n is None:
            t[m] = -c
        else:
            n = n - c
            if n:
                t[m] = n
            else:
                del t[m]
    return R(t)


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, p in n:
        d[a] = d.get(a, 0) + p
    return tuple(sorted(d.items()))


MAXT = 3000


def mul(a, b):
    if isconst(a):
        return scale(b, cval(a))
    if isconst(b):
        return scale(a, cval(b))
    if len(a.t) * len(b.t) > MAXT:
        # give up normalisation: opaque atoms
        if len(a.t) > 1:
            a = var(z3e(a))
        if len(b.t) > 1:
            b = var(z3e(b))
    t = {}
    red = False
    for m, c in a.t.items():
        for n, d in b.t.items():
            k = mmul(m, n)
            for at, p in k:
                if p >= 2 and ATOM_INFO[at] is not None and ATOM_INFO[at][0] == "sqrt":
                    red = True
            x = t.get(k, F0) + c * d
            if x:
                t[k] = x
            else:
                t.pop(k, None)
    r = R(t)
    return reduce_sqrt(r) if red else r


def reduce_sqrt(r):
    out = R({})
    for m, c in r.t.items():
        rest = []
        acc = R({(): c})
        for at, p in m:
            inf = ATOM_INFO[at]
            if inf is not None and inf[0] == "sqrt" and p >= 2:
                for _ in range(p // 2):
                    acc = mul(acc, inf[1])
                if p % 2:
                    rest.append((at, 1))
            else:
                rest.append((at, p))
        if rest:
            acc = mul(acc, R({tuple(rest): F1}))
        out = add(out, acc)
    return out


def z3e(r):
    if r.z is not None:
        return r.z
    ts = []
    for m, c in r.t.items():
        fs = []
        for at, p in m:
            fs.extend([ATOMS[at]] * p)
        if not fs:
            ts.append(z3.RealVal(str(c)))
            continue
        e = fs[0] if len(fs) == 1 else z3.Product(*fs)
        if c != 1:
            e = z3.RealVal(str(c)) * e
        ts.append(e)
    if not ts:
        e = z3.RealVal(0)
    elif len(ts) == 1:
        e = ts[0]
    else:
        e = z3.Sum(ts)
    r.z = e
    return e


def clear_div(r, rounds=64):
    """multiply r by denominators (assumed non-zero) until no 'div' atom remains; returns (poly, [dens])"""
    dens = []
    for _ in range(rounds):
        cand = None
        for m in r.t:
            for at, p in m:
                inf = ATOM_INFO[at]
                if inf is not None and inf[0] == "div" and (cand is None or at > cand):
                    cand = at
        if cand is None:
            return r, dens
        num, den = ATOM_INFO[cand][1], ATOM_INFO[cand][2]
        deg = max((p for m in r.t for at, p in m if at == cand), default=0)
        parts = [R({}) for _ in range(deg + 1)]
        for m, c in r.t.items():
            d = 0
            rest = []
            for at, p in m:
                if at == cand:
                    d = p
                else:
                    rest.append((at, p))
            parts[d] = add(parts[d], R({tuple(rest): c}))
        npow = [const(1)]
        dpow = [const(1)]
        for _i in range(deg):
            npow.append(mul(npow[-1], num))
            dpow.append(mul(dpow[-1], den))
        out = R({})
        for d in range(deg + 1):
            if parts[d].t:
                out = add(out, mul(parts[d], mul(npow[d], dpow[deg - d])))
        dens.extend([den] * deg)
        r = out
        if len(r.t) > 20000:
            return None, dens
    return None, dens


class RealFP:
    """exact real semantics for symbolic values; concrete values keep machine rounding."""
    name = "real"

    def __init__(self, X):
        self.X = X
        self.defs = {}
        self.cnt = 0

    def sym(self, name, w):
        return var(z3.Real(name))

    def z(self, v):
        return z3e(toR(v))

    def norm(self, r):
        return r

    def bin(self, op, a, b, w):
        fa = a.__class__ is float
        fb = b.__class__ is float
        if fa and fb:
            return cbin(op, a, b, w)
        if op == "fadd":
            if fa and a == 0:
                return b
            if fb and b == 0:
                return a
            return self.fold(add(toR(a), toR(b)))
        if op == "fsub":
            if fb and b == 0:
                return a
            return self.fold(sub(toR(a), toR(b)))
        if op == "fmul":
            if fa:
                return 0.0 if a == 0 else self.fold(scale(b, Fraction(a)) if math.isfinite(a) else self.bad())
            if fb:
                return 0.0 if b == 0 else self.fold(scale(a, Fraction(b)) if math.isfinite(b) else self.bad())
            return self.fold(mul(a, b))
        if op == "fdiv":
            return self.div(a, b)
        raise Unsupported("real " + op)

    def bad(self):
        raise Unsupported("inf in real mode")

    def fold(self, r):
        # keep exact constants as R unless exactly representable
        if not r.t:
            return 0.0
        if len(r.t) == 1 and () in r.t:
            c = r.t[()]
            f = float(c)
            if Fraction(f) == c:
                return f
        return r

    def div(self, a, b):
        if b.__class__ is float:
            if b == 0:
                raise Unsupported("symbolic/0")
            return self.fold(scale(a, 1 / Fraction(b)))
        ra = toR(a)
        if isconst(b):
            return self.fold(scale(ra, 1 / cval(b)))
        if not ra.t:
            return 0.0
        # single-term denominators / common scaling: normalise den to monic
        k = next(iter(sorted(b.t.items(), key=lambda kv: kv[0])))
        lead = k[1]
        bn = scale(b, 1 / lead)
        an = scale(ra, 1 / lead)
        # same polynomial -> quotient constant
        if an.t and len(an.t) == len(bn.t):
            m0 = next(iter(bn.t))
            if m0 in an.t:
                q = an.t[m0] / bn.t[m0]
                if all(an.t.get(m) == c * q for m, c in bn.t.items()):
                    self.X.assume_nonzero(bn)
                    return self.fold(const(q))
        key = ("inv", bn.key())
        v = self.defs.get(key)
        if v is None:
            self.cnt += 1
            zv = z3.Real("inv!%d" % self.cnt)
            i = len(ATOMS)
            ATOMS.append(zv)
            ATOM_INFO.append(("div", const(1), bn))
            ATOM_IDX[zv.get_id()] = i
            v = R({((i, 1),): F1})
            self.defs[key] = v
        self.X.add_def(key, self._invdef(v, bn))
        self.X.assume_nonzero(bn)
        if self.X.branch_ms:
            k2 = ("invsgn", key[1])
            st = self.X.cur
            if k2 not in st.nz:
                st.nz[k2] = True
                d, zv = z3e(bn), z3e(v)
                if self.X.quick(st.pc, (d <= 0,), 1000) == "unsat":
                    self.X.add_def(k2, z3.And(zv > 0, d > 0, zv * d == 1))
                elif self.X.quick(st.pc, (d >= 0,), 1000) == "unsat":
                    self.X.add_def(k2, z3.And(zv < 0, d < 0, zv * d == 1))
        return self.fold(mul(an, v))

    def _invdef(self, v, bn):
        d = z3e(bn)
        return z3.Implies(d != 0, z3e(v) * d == 1)

    def sqrt(self, a, w):
        if a.__class__ is float:
            return rnd(math.sqrt(a), w) if a >= 0 else math.nan
        if isconst(a):
            return rnd(math.sqrt(float(cval(a))), w)
        key = ("sqrt", a.key())
        v = self.defs.get(key)
        if v is None:
            self.cnt += 1
            zv = z3.Real("sqrt!%d" % self.cnt)
            i = len(ATOMS)
            ATOMS.append(zv)
            ATOM_INFO.append(("sqrt", a))
            ATOM_IDX[zv.get_id()] = i
            v = R({((i, 1),): F1})
            self.defs[key] = v
        d = z3e(a)
        zv = z3e(v)
        self.X.add_def(key, z3.And(zv >= 0, z3.Implies(d >= 0, zv * zv == d), z3.Implies(d > 0, zv > 0)))
        if self.X.branch_ms:
            k2 = ("sqrtpos", key[1])
            st = self.X.cur
            if k2 not in st.defs and k2 not in st.nz:
                st.nz[k2] = True
                if self.X.quick(st.pc, (d <= 0,), 1000) == "unsat":
                    self.X.add_def(k2, z3.And(zv > 0, zv * zv == d, d > 0))
        return v

    def neg(self, a):
        if a.__class__ is float:
            return -a
        return scale(a, Fraction(-1))

    def cmp(self, pred, a, b):
        if a.__class__ is float and b.__class__ is float:
            return ccmp(pred, a, b)
        p = pred[1:]
        if pred in ("ord", "true"):
            return 1
        if pred in ("uno", "false"):
            return 0
        for v, o in ((a, b), (b, a)):
            if v.__class__ is float and math.isinf(v):
                big = (v > 0)
                if v is a:
                    lt = not big   # a<b
                else:
                    lt = big
                return {"eq": 0, "ne": 1, "lt": int(lt), "le": int(lt), "gt": int(not lt), "ge": int(not lt)}[p]
        d = sub(toR(a), toR(b))
        if isconst(d):
            c = cval(d)
            return int({"eq": c == 0, "ne": c != 0, "lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0}[p])
        # normalise: leading coefficient magnitude 1
        k = min(d.t.items(), key=lambda kv: kv[0] if kv[0] else ((1 << 60, 1),))
        s = abs(k[1])
        d = scale(d, 1 / s)
        e = z3e(d)
        return {"eq": e == 0, "ne": e != 0, "lt": e < 0, "le": e <= 0, "gt": e > 0, "ge": e >= 0}[p]

    def ite(self, c, a, b, w):
        ra, rb = toR(a), toR(b)
        if ra.t == rb.t:
            return a
        return var(z3.If(c, z3e(ra), z3e(rb)))

    def abs(self, a, w):
        if a.__class__ is float:
            return abs(a)
        e = z3e(a)
        if self.X.fsplit:
            c = self.cmp("oge", a, 0.0)
            if c.__class__ is int:
                return a if c else self.neg(a)
            return a if self.X.branch(c) else self.neg(a)
        return var(z3.If(e >= 0, e, -e))

    def cast(self, a, w0, w1):
        return rnd(a, w1) if a.__class__ is float else a

    def same(self, a, b):
        """z3 Bool or int: a equals b exactly"""
        return self.cmp("oeq", a, b)

    def frombits(self, bv, w):
        raise Unsupported("symbolic int bits -> real")

    def tobits(self, a, w):
        raise Unsupported("symbolic real -> int bits")

    def fromint(self, bv, signed, w):
        raise Unsupported("symbolic int -> real")


def cbin(op, a, b, w):
    try:
        if op == "fadd":
            r = a + b
        elif op == "fsub":
            r = a - b
        elif op == "fmul":
            r = a * b
        elif op == "fdiv":
            if b == 0:
                if a != a or a == 0:
                    return math.nan
                return math.copysign(math.inf, a) * math.copysign(1, b)
            r = a / b
        elif op == "frem":
            r = math.fmod(a, b)
        else:
            raise Unsupported(op)
    except OverflowError:
        r = math.inf
    return rnd(r, w)


def ccmp(pred, a, b):
    un = a != a or b != b
    if pred == "ord":
        return int(not un)
    if pred == "uno":
        return int(un)
    if pred == "true":
        return 1
    if pred == "false":
        return 0
    if un:
        return 1 if pred[0] == "u" else 0
    p = pred[1:]
    return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p])


RM = z3.RNE()


class IeeeFP:
    name = "fp"

    def __init__(self, X):
        self.X = X
        self.S = {32: z3.Float32(), 64: z3.Float64()}

    def sym(self, name, w):
        return z3.FP(name, self.S[w])

    def z(self, v, w=64):
        if v.__class__ is float:
            return z3.FPVal(v, self.S[w])
        return v

    def w(self, a, b, w):
        return self.z(a, w), self.z(b, w)

    def bin(self, op, a, b, w):
        if a.__class__ is float and b.__class__ is float:
            return cbin(op, a, b, w)
        a, b = self.w(a, b, w)
        if op == "fadd":
            return z3.fpAdd(RM, a, b)
        if op == "fsub":
            return z3.fpSub(RM, a, b)
        if op == "fmul":
            return z3.fpMul(RM, a, b)
        if op == "fdiv":
            return z3.fpDiv(RM, a, b)
        raise Unsupported("fp " + op)

    def sqrt(self, a, w):
        if a.__class__ is float:
            return rnd(math.sqrt(a), w) if a >= 0 else math.nan
        return z3.fpSqrt(RM, a)

    def neg(self, a):
        return -a if a.__class__ is float else z3.fpNeg(a)

    def cmp(self, pred, a, b):
        if a.__class__ is float and b.__class__ is float:
            return ccmp(pred, a, b)
        if a.__class__ is float:
            a = z3.FPVal(a, b.sort())
        elif b.__class__ is float:
            b = z3.FPVal(b, a.sort())
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if pred == "ord":
            return z3.Not(un)
        if pred == "uno":
            return un
        p = pred[1:]
        if pred[0] == "o" or pred == "one":
            if p == "eq":
                return z3.fpEQ(a, b)
            if p == "ne":
                return z3.And(z3.Not(un), z3.Not(z3.fpEQ(a, b)))
            return {"lt": z3.fpLT, "le": z3.fpLEQ, "gt": z3.fpGT, "ge": z3.fpGEQ}[p](a, b)
        if p == "eq":
            return z3.Or(un, z3.fpEQ(a, b))
        if p == "ne":
            return z3.Not(z3.fpEQ(a, b))
        # unordered: not of the ordered inverse
        return z3.Not({"lt": z3.fpGEQ, "le": z3.fpGT, "gt": z3.fpLEQ, "ge": z3.fpLT}[p](a, b))

    def ite(self, c, a, b, w):
        a, b = self.w(a, b, w)
        if a.eq(b):
            return a
        return z3.If(c, a, b)

    def abs(self, a, w):
        return abs(a) if a.__class__ is float else z3.fpAbs(a)

    def cast(self, a, w0, w1):
        if a.__class__ is float:
            return rnd(a, w1)
        return z3.fpToFP(RM, a, self.S[w1])

    def same(self, a, b):
        if a.__class__ is float and b.__class__ is float:
            return int(a == b or (a != a and b != b))
        if a.__class__ is float:
            a = z3.FPVal(a, b.sort())
        elif b.__class__ is float:
            b = z3.FPVal(b, a.sort())
        return a == b

    def frombits(self, bv, w):
        return z3.fpBVToFP(bv, self.S[w])

    def tobits(self, a, w):
        return z3.fpToIEEEBV(a)

    def fromint(self, bv, signed, w):
        return (z3.fpSignedToFP if signed else z3.fpUnsignedToFP)(RM, bv, self.S[w])

    def toint(self, a, signed, w):
        return (z3.fpToSBV if signed else z3.fpToUBV)(z3.RTZ(), a, z3.BitVecSort(w))


class UfFP:
    """uninterpreted arithmetic: bit-exact data flow (IEEE ops as free functions)."""
    name = "uf"

    def __init__(self, X):
        self.X = X
        self.S = z3.DeclareSort("FPV")
        self.fn = {}
        self.cst = {}

    def f(self, n, k, bool_=False):
        key = (n, k)
        r = self.fn.get(key)
        if r is None:
            r = z3.Function(n, *([self.S] * k), z3.BoolSort() if bool_ else self.S)
            self.fn[key] = r
        return r

    def sym(self, name, w):
        return z3.Const(name, self.S)

    def z(self, v, w=64):
        if v.__class__ is float:
            c = self.cst.get(v)
            if c is None:
                c = z3.Const("c!%r" % v, self.S)
                self.cst[v] = c
            return c
        return v

    def bin(self, op, a, b, w):
        if a.__class__ is float and b.__class__ is float:
            return cbin(op, a, b, w)
        return self.f("%s%d" % (op, w), 2)(self.z(a), self.z(b))

    def sqrt(self, a, w):
        if a.__class__ is float:
            return rnd(math.sqrt(a), w)
        return self.f("sqrt%d" % w, 1)(a)

    def neg(self, a):
        return -a if a.__class__ is float else self.f("fneg", 1)(a)

    def abs(self, a, w):
        return abs(a) if a.__class__ is float else self.f("fabs", 1)(a)

    def cmp(self, pred, a, b):
        if a.__class__ is float and b.__class__ is float:
            return ccmp(pred, a, b)
        return self.f("fcmp_" + pred, 2, True)(self.z(a), self.z(b))

    def ite(self, c, a, b, w):
        a, b = self.z(a), self.z(b)
        return a if a.eq(b) else z3.If(c, a, b)

    def cast(self, a, w0, w1):
        if a.__class__ is float:
            return rnd(a, w1)
        return self.f("cast%d_%d" % (w0, w1), 1)(a)

    def same(self, a, b):
        if a.__class__ is float and b.__class__ is float:
            return int(a == b or (a != a and b != b))
        return self.z(a) == self.z(b)

    def frombits(self, bv, w):
        raise Unsupported("uf frombits")

    def tobits(self, a, w):
        raise Unsupported("uf tobits")

    def fromint(self, bv, signed, w):
        raise Unsupported("uf fromint")
