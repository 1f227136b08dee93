"""Symbolic values and the path explorer."""
from fractions import Fraction
import math
import time
import numpy as _np
from . import nf
from .nf import Unsupported, F0, F1, POS, NONNEG, NEG, NONPOS, ATOMS


class PathInfeasible(Exception):
    pass


class Budget(Exception):
    pass


NAN = float("nan")
INF = float("inf")

# ------------------------------------------------------------------ literals
# canonical literal: (poly, op), op in '>', '>=', '==', '!='


def canon_lit(p, op):
    """returns True/False or (poly, op) canonical"""
    p = nf.simplify(p)
    p = _clear_pos(p)
    p = nf.simplify(p)
    if p.is_const():
        c = p.const()
        return {">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op]
    if nf.is_zero(p):
        return op in (">=", "==")
    p = _drop_pos_content(p)
    s = nf.terms_sign(p)
    r = _by_sign(s, op)
    if r is not None:
        return r
    if len(p.t) == 2:
        q = _two_term(p)
        if q is not None:
            if q.is_const():
                return canon_lit(q, op)
            p = q
    lm = _plead(p)
    pr = tuple((i, -e) for i, e in lm if ATOMS[i].kind == "prime")
    if pr:
        p = nf.mul(p, nf.Poly({pr: F1}))
        lm = _plead(p)
    c = abs(p.t[lm])
    if c != 1:
        p = nf.scale(p, 1 / c)
    if op in ("==", "!=") and p.t[lm] < 0:
        p = nf.neg(p)
    return (p, op)


def _plead(p):
    """leading monomial, chosen without looking at the constant (prime power) factors"""
    return max(p.t, key=lambda m: (nf._mkey(tuple((i, e) for i, e in m if ATOMS[i].kind != "prime")), nf._mkey(m)))


def _by_sign(s, op):
    if s == POS:
        return op in (">", ">=", "!=")
    if s == NEG:
        return op == "!="
    if s == NONNEG and op == ">=":
        return True
    if s == NONPOS and op == ">":
        return False
    return None


def _clear_pos(p):
    for _ in range(20):
        best = None
        for m in p.t:
            for i, e in m:
                a = ATOMS[i]
                if a.kind == "sum" and e < 0:
                    s = nf.atom_sign(a)
                    if s in (POS, NONNEG, NEG, NONPOS) or e.denominator != 1:
                        if best is None or (a.depth, i) > best[0]:
                            best = ((a.depth, i), i, s)
        if best is None:
            return p
        i, s = best[1], best[2]
        k = min(dict(m).get(i, F0) for m in p.t)
        if s in (NEG, NONPOS) and k.denominator == 1:
            if k.numerator % 2:
                p = nf.neg(p)
        if len(p.t) > 400:
            return p
        p = nf.mul(p, nf.Poly({((i, -k),): F1}))
    return p


def _drop_pos_content(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        rest = []
        for i, e in m:
            s = nf.atom_sign(ATOMS[i])
            if s == POS or (e < 0 and s == NONNEG) or (e < 0 and e.denominator != 1):
                continue
            if s == NEG and e.denominator == 1:
                if e.numerator % 2:
                    c = -c
                continue
            rest.append((i, e))
        return nf.Poly({tuple(rest): F1 if c > 0 else -F1})
    c, g, q = nf.content(p)
    # put back what is not strictly positive
    back = []
    sg = 1
    for i, e in g:
        s = nf.atom_sign(ATOMS[i])
        if s == POS or (e < 0 and s == NONNEG) or (e < 0 and e.denominator != 1):
            continue
        if s == NEG and e.denominator == 1:
            if e.numerator % 2:
                sg = -sg
            continue
        back.append((i, e))
    if sg < 0:
        q = nf.neg(q)
    if back:
        q = nf.mul(q, nf.Poly({tuple(back): F1}))
    return q


def _two_term(p):
    (m1, c1), (m2, c2) = p.t.items()
    s1, s2 = nf.mono_sign(m1), nf.mono_sign(m2)
    zero = None
    if s1 != POS or s2 != POS:
        # one side may vanish: a power of a non-negative base
        if {s1, s2} != {POS, NONNEG}:
            return None
        zs = [(i, e) for i, e in (m1 if s1 == NONNEG else m2) if nf.atom_sign(ATOMS[i]) != POS]
        if len(zs) != 1 or zs[0][1].denominator == 1 or zs[0][1] < 0 or any(
                ATOMS[i].kind == "expm" for i, e in m1 + m2):
            return None
        zero = zs[0]
        if any(i == zero[0] for i, e in (m2 if s1 == NONNEG else m1)):
            return None
    if (c1 > 0) == (c2 > 0):
        return None
    if c1 < 0:
        m1, c1, m2, c2 = m2, c2, m1, c1
    # c1*m1 - |c2|*m2
    c2 = -c2
    hasexp = any(ATOMS[i].kind == "expm" for i, e in m1 + m2)
    if hasexp:
        L = nf.sub(nf.log(nf.Poly({m1: c1})), nf.log(nf.Poly({m2: c2})))
        L = nf.simplify(_clear_pos(L))
        if L.is_const():
            return L
        return _drop_pos_content(L)
    r = nf.mul_mono(m1, tuple((i, -e) for i, e in m2))
    r = [(i, e) for i, e in r]
    r2 = [(i, e) for i, e in r if ATOMS[i].kind != "prime"]
    if not r2:
        # constants only: evaluate numerically with care
        v = math.log(c1 / c2) + sum(float(e) * math.log(ATOMS[i].args[0]) for i, e in r)
        if abs(v) < 1e-9:
            return None
        return nf.const(1 if v > 0 else -1)
    lead = zero or max(r2, key=lambda t: t[0])
    k = 1 / abs(lead[1])
    q = nf.mul(nf.const_pow(c1 / c2, k), nf.Poly({(): F1}))
    for i, e in r:
        if ATOMS[i].kind == "prime":
            q = nf.mul(q, nf.const_pow(Fraction(ATOMS[i].args[0]), e * k))
    num = nf.mul(q, nf.ONE)
    mp = tuple((i, e * k) for i, e in r2 if e > 0)
    mn = tuple((i, -e * k) for i, e in r2 if e < 0)
    # K * mp  > mn ; keep constant on mp side
    return nf.sub(nf.mul(num, nf.Poly({mp: F1})), nf.Poly({mn: F1}))


def neg_lit(l):
    p, op = l
    if op == ">":
        return canon_raw(nf.neg(p), ">=")
    if op == ">=":
        return canon_raw(nf.neg(p), ">")
    if op == "==":
        return (p, "!=")
    return (p, "==")


def canon_raw(p, op):
    return (p, op)


# ------------------------------------------------------------------ booleans
class SymBool:
    __slots__ = ("k", "a", "wd")

    def __init__(self, k, a=None, wd=frozenset()):
        self.k = k
        self.a = a
        self.wd = wd

    @staticmethod
    def of(x):
        if isinstance(x, SymBool):
            return x
        return SymBool("const", bool(x))

    def __bool__(self):
        return CUR.decide(self)

    def __and__(self, o):
        return b_and(self, SymBool.of(o))

    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, SymBool.of(o))

    __ror__ = __or__

    def __invert__(self):
        return b_not(self)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __hash__(self):
        return hash((self.k, str(self.a)))

    def __add__(self, o):
        return Sym.of(1 if bool(self) else 0) + o

    __radd__ = __add__

    def __mul__(self, o):
        return Sym.of(1 if bool(self) else 0) * o

    __rmul__ = __mul__

    def __repr__(self):
        return "B(%s,%s)" % (self.k, self.a)

    def all(self):
        return self

    def any(self):
        return self


def b_not(x):
    if x.k == "const":
        return SymBool("const", not x.a)
    if x.k == "lit":
        return SymBool("lit", neg_lit(x.a), x.wd)
    if x.k == "not":
        return x.a
    return SymBool("not", x)


def b_and(x, y):
    if x.k == "const":
        return y if x.a else x
    if y.k == "const":
        return x if y.a else y
    return SymBool("and", (x, y))


def b_or(x, y):
    if x.k == "const":
        return x if x.a else y
    if y.k == "const":
        return y if y.a else x
    return SymBool("or", (x, y))


def mk_lit(p, op, wd=frozenset()):
    l = canon_lit(p, op)
    if l is True or l is False:
        return SymBool("const", l)
    return SymBool("lit", l, wd)


# ------------------------------------------------------------------ numbers
def to_frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, _np.integer)):
        return Fraction(int(x))
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if x != x or x in (INF, -INF):
            return None
        return Fraction(repr(x))
    raise TypeError(type(x))


def is_num(x):
    return isinstance(x, (int, float, Fraction, _np.integer, _np.floating, _np.bool_)) and not isinstance(x, Sym)


class Sym:
    """A symbolic real scalar."""
    __slots__ = ("p", "wd", "ty")
    __array_priority__ = 1000

    def __init__(self, p, wd=frozenset(), ty="float"):
        self.p = p
        self.wd = wd
        self.ty = ty

    @staticmethod
    def of(x):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return Sym(nf.const(1 if bool(x) else 0), ty="int")
        f = to_frac(x)
        if f is None:
            return float(x)
        return Sym(nf.const(f), ty="int" if isinstance(x, (int, _np.integer)) else "float")

    # -- constants
    def is_const(self):
        return self.p.is_const()

    def cval(self):
        return self.p.const()

    def __index__(self):
        if self.is_const() and self.cval().denominator == 1:
            return int(self.cval())
        raise Unsupported("symbolic index")

    def __int__(self):
        if self.is_const():
            return int(self.cval())
        raise Unsupported("int() of symbolic value")

    def __float__(self):
        if self.is_const():
            return float(self.cval())
        raise Unsupported("float() of symbolic value")

    def __hash__(self):
        if self.is_const():
            c = self.cval()
            return hash(c)
        return hash(self.p)

    def __bool__(self):
        return bool(self != 0)

    def __repr__(self):
        return "Sym(%r)" % (self.p,)

    def __format__(self, spec):
        return repr(self)

    # -- arithmetic
    def _co(self, o):
        if isinstance(o, Sym):
            return o
        if isinstance(o, SymBool):
            return Sym.of(o)
        if is_num(o):
            return Sym.of(o)
        return None

    def _nanlike(self, o, op, swap=False):
        # o is a python float nan/inf
        if o != o:
            return NAN
        # infinite
        if op in ("+",):
            return o
        if op == "-":
            return -o if not swap else o
        if op == "*":
            if bool(self > 0):
                return o
            if bool(self < 0):
                return -o
            return NAN
        if op == "/":
            if not swap:
                return Sym.of(0.0)
            return o if bool(self > 0) else -o
        raise Unsupported("inf arithmetic")

    def __add__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return self._nanlike(o, "+")
        return Sym(nf.add(self.p, o.p), self.wd | o.wd, _ty(self, o))

    __radd__ = __add__

    def __sub__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return self._nanlike(o, "-")
        return Sym(nf.sub(self.p, o.p), self.wd | o.wd, _ty(self, o))

    def __rsub__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return self._nanlike(o, "-", True)
        return Sym(nf.sub(o.p, self.p), self.wd | o.wd, _ty(self, o))

    def __mul__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return self._nanlike(o, "*")
        return Sym(nf.mul(self.p, o.p), self.wd | o.wd, _ty(self, o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return self._nanlike(o, "/")
        return _div(self, o)

    def __rtruediv__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if isinstance(o, float):
            return self._nanlike(o, "/", True)
        return _div(o, self)

    def __neg__(self):
        return Sym(nf.neg(self.p), self.wd, self.ty)

    def __pos__(self):
        return self

    def __abs__(self):
        return s_abs(self)

    def __pow__(self, o):
        o2 = self._co(o)
        if o2 is None:
            return NotImplemented
        if isinstance(o2, float):
            return NAN if o2 != o2 else _unsup("inf power")
        return s_pow(self, o2)

    def __rpow__(self, o):
        o2 = self._co(o)
        if o2 is None:
            return NotImplemented
        if isinstance(o2, float):
            return NAN if o2 != o2 else _unsup("inf power")
        return s_pow(o2, self)

    def __floordiv__(self, o):
        o = self._co(o)
        return s_floor(_div(self, o))

    def __rfloordiv__(self, o):
        return s_floor(_div(self._co(o), self))

    def __mod__(self, o):
        o = self._co(o)
        return self - o * s_floor(_div(self, o))

    def __round__(self, n=0):
        return s_round(self, n)

    # -- comparisons
    def _cmp(self, o, op):
        o2 = self._co(o)
        if o2 is None:
            return NotImplemented
        if isinstance(o2, float):
            if o2 != o2:
                return op == "!="
            if o2 > 0:
                return {"<": True, "<=": True, ">": False, ">=": False, "==": False, "!=": True}[op]
            return {"<": False, "<=": False, ">": True, ">=": True, "==": False, "!=": True}[op]
        wd = self.wd | o2.wd
        if op == "<":
            b = mk_lit(nf.sub(o2.p, self.p), ">", wd)
        elif op == "<=":
            b = mk_lit(nf.sub(o2.p, self.p), ">=", wd)
        elif op == ">":
            b = mk_lit(nf.sub(self.p, o2.p), ">", wd)
        elif op == ">=":
            b = mk_lit(nf.sub(self.p, o2.p), ">=", wd)
        elif op == "==":
            b = mk_lit(nf.sub(self.p, o2.p), "==", wd)
        else:
            b = mk_lit(nf.sub(self.p, o2.p), "!=", wd)
        if b.k == "const":
            return b.a
        return b

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return r

    def __ne__(self, o):
        r = self._cmp(o, "!=")
        return r

    # numpy scalar api
    ndim = 0
    shape = ()
    size = 1

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def astype(self, t):
        return self

    def any(self):
        return self != 0

    def all(self):
        return self != 0


def _unsup(msg):
    raise Unsupported(msg)


def _ty(a, b):
    return "int" if a.ty == "int" and b.ty == "int" else "float"


def _wd_lit(p, op):
    """definedness literal; frozenset() if trivially true"""
    l = canon_lit(p, op)
    if l is True:
        return frozenset()
    if l is False:
        return frozenset([("FALSE", "")])
    return frozenset([l])


def _div(a, b):
    if b.p.is_zero():
        if CUR is not None:
            CUR.note_div0()
        return Sym(nf.ZERO, a.wd | b.wd | frozenset([("FALSE", "")]))
    wd = a.wd | b.wd
    if nf.terms_sign(b.p) not in (POS, NEG):
        wd = wd | _wd_lit(b.p, "!=")
    return Sym(nf.mul(a.p, nf.powr(b.p, -1)), wd)


def s_pow(a, b):
    """a ** b"""
    wd = a.wd | b.wd
    if b.is_const():
        r = b.cval()
        if r.denominator == 1:
            if r >= 0:
                return Sym(nf.powr(a.p, r), wd, _ty(a, b))
            if a.p.is_zero():
                return Sym(nf.ZERO, wd | frozenset([("FALSE", "")]))
            if nf.terms_sign(a.p) not in (POS, NEG):
                wd = wd | _wd_lit(a.p, "!=")
            return Sym(nf.powr(a.p, r), wd)
        if a.p.is_zero():
            if r > 0:
                return Sym(nf.ZERO, wd)
            return Sym(nf.ZERO, wd | frozenset([("FALSE", "")]))
        s = nf.terms_sign(a.p)
        if r > 0:
            if s not in (POS, NONNEG):
                wd = wd | _wd_lit(a.p, ">=")
        elif s != POS:
            wd = wd | _wd_lit(a.p, ">")
        if a.is_const() and a.cval() < 0:
            return Sym(nf.ZERO, wd | frozenset([("FALSE", "")]))
        return Sym(nf.powr(a.p, r), wd)
    # symbolic exponent
    if a.is_const() and a.cval() == 1:
        return Sym(nf.ONE, wd)
    if nf.terms_sign(a.p) != POS:
        wd = wd | _wd_lit(a.p, ">")
    return Sym(nf.exp(nf.mul(b.p, nf.log(a.p))), wd)


def s_exp(a):
    return Sym(nf.exp(a.p), a.wd)


def s_log(a):
    wd = a.wd
    if a.is_const() and a.cval() <= 0:
        return Sym(nf.ZERO, wd | frozenset([("FALSE", "")]))
    if nf.terms_sign(a.p) != POS:
        wd = wd | _wd_lit(a.p, ">")
    return Sym(nf.log(a.p), wd)


def s_sqrt(a):
    return s_pow(a, Sym(nf.const(Fraction(1, 2))))


def s_abs(a):
    if bool(a >= 0):
        return a
    return -a


def s_max(a, b):
    if isinstance(a, float) or isinstance(b, float):
        if a != a or b != b:
            return NAN
        return a if (a == INF or b == -INF) else b
    return a if _prefer(a, b) else b


def _prefer(a, b):
    """decide a >= b, but reuse b >= a when the path already knows it"""
    c = a >= b
    if isinstance(c, SymBool):
        k = CUR.known(c)
        if k is None:
            k2 = CUR.known(b >= a)
            if k2 is True:
                return False
    return bool(c)


def s_min(a, b):
    if isinstance(a, float) or isinstance(b, float):
        if a != a or b != b:
            return NAN
        return a if (a == -INF or b == INF) else b
    return b if _prefer(a, b) else a


def s_fn(name, *args):
    wd = frozenset()
    for a in args:
        wd = wd | a.wd
    return Sym(nf.fn(name, *[a.p for a in args]), wd)


def s_tan(a):
    c = nf.fn("cos", a.p)
    wd = a.wd
    if nf.terms_sign(c) != POS:
        wd = wd | _wd_lit(c, "!=")
    return Sym(nf.fn("tan", a.p), wd)


def s_sinh(a):
    e = nf.exp(a.p)
    return Sym(nf.scale(nf.sub(e, nf.powr(e, -1)), Fraction(1, 2)), a.wd)


def s_cosh(a):
    e = nf.exp(a.p)
    return Sym(nf.scale(nf.add(e, nf.powr(e, -1)), Fraction(1, 2)), a.wd)


def s_tanh(a):
    return _div(s_sinh(a), s_cosh(a))


def s_floor(a):
    if a.is_const():
        return Sym(nf.const(math.floor(a.cval())))
    return s_fn("floor", a)


def s_round(a, n=0):
    n = int(n)
    if a.is_const():
        return Sym(nf.const(Fraction(round(a.cval() * 10 ** n), 10 ** n)))
    return s_fn("round%d" % n, a)


# ------------------------------------------------------------------ arrays
class SymArr:
    """An array of unknown length, seen at one arbitrary (generic) index."""
    __array_priority__ = 2000
    __slots__ = ("e", "tag", "muts")

    def __init__(self, e, tag="n"):
        self.e = e
        self.tag = tag
        self.muts = 0

    def _b(self, o):
        if isinstance(o, SymArr):
            return o.e
        if isinstance(o, _np.ndarray):
            raise Unsupported("mixing symbolic and concrete arrays")
        return o

    def __bool__(self):
        raise ValueError("The truth value of an array with more than one element is ambiguous. "
                         "Use a.any() or a.all()")

    def __repr__(self):
        return "SymArr(%r)" % (self.e,)

    ndim = 1

    @property
    def shape(self):
        return (array_len(self),)

    @property
    def size(self):
        return array_len(self)

    def tolist(self):
        return SymList(self.e)

    def copy(self):
        return SymArr(self.e)

    def astype(self, t):
        return SymArr(self.e)

    def any(self):
        return q_any(self)

    def all(self):
        return q_all(self)

    def max(self, axis=None):
        return reduce_("max", self)

    def min(self, axis=None):
        return reduce_("min", self)

    def __iter__(self):
        raise Unsupported("iteration over symbolic array")

    def __getitem__(self, i):
        if isinstance(i, SymArr) and isinstance(i.e, (SymBool, bool)):
            return MaskedArr(self, i)
        if isinstance(i, slice) and i == slice(None):
            return self
        raise Unsupported("indexing symbolic array")

    def __setitem__(self, i, v):
        CUR.note_mutation(self)
        if isinstance(i, (SymArr,)):
            c = i.e
            if isinstance(v, MaskedArr):
                if v.mask.e is not c and repr(v.mask.e) != repr(c):
                    raise Unsupported("masked assignment with another mask")
                x = v.arr.e
            elif isinstance(v, SymArr):
                raise Unsupported("masked assignment")
            else:
                x = v
            if bool(c):
                self.e = x
            return
        if isinstance(i, slice) and i == slice(None):
            self.e = self._b(v)
            return
        # single element written: generic element may or may not be it
        raise Unsupported("element assignment")

    def _inpl(self, f, o):
        CUR.note_mutation(self)
        self.e = f(self.e, self._b(o))
        return self

    def __iadd__(self, o):
        return self._inpl(lambda a, b: a + b, o)

    def __isub__(self, o):
        return self._inpl(lambda a, b: a - b, o)

    def __imul__(self, o):
        return self._inpl(lambda a, b: a * b, o)

    def __itruediv__(self, o):
        return self._inpl(lambda a, b: a / b, o)

    def __ipow__(self, o):
        return self._inpl(lambda a, b: a ** b, o)


def _mkop(name, f):
    def op(self, o):
        if isinstance(o, (list, tuple, str, dict)) or o is None:
            return NotImplemented
        return SymArr(f(self.e, self._b(o)))
    op.__name__ = name
    setattr(SymArr, name, op)


for _n, _f in {
    "__add__": lambda a, b: a + b, "__radd__": lambda a, b: b + a,
    "__sub__": lambda a, b: a - b, "__rsub__": lambda a, b: b - a,
    "__mul__": lambda a, b: a * b, "__rmul__": lambda a, b: b * a,
    "__truediv__": lambda a, b: a / b, "__rtruediv__": lambda a, b: b / a,
    "__pow__": lambda a, b: a ** b, "__rpow__": lambda a, b: b ** a,
    "__lt__": lambda a, b: a < b, "__le__": lambda a, b: a <= b,
    "__gt__": lambda a, b: a > b, "__ge__": lambda a, b: a >= b,
    "__eq__": lambda a, b: a == b, "__ne__": lambda a, b: a != b,
    "__and__": lambda a, b: SymBool.of(a) & b, "__or__": lambda a, b: SymBool.of(a) | b,
    "__rand__": lambda a, b: SymBool.of(a) & b, "__ror__": lambda a, b: SymBool.of(a) | b,
    "__floordiv__": lambda a, b: a // b, "__mod__": lambda a, b: a % b,
}.items():
    _mkop(_n, _f)
SymArr.__hash__ = None      # as numpy arrays
SymArr.__neg__ = lambda self: SymArr(-self.e)
SymArr.__pos__ = lambda self: self
SymArr.__abs__ = lambda self: SymArr(s_abs(self.e) if isinstance(self.e, Sym) else abs(self.e))
SymArr.__invert__ = lambda self: SymArr(b_not(SymBool.of(self.e)))


class MaskedArr:
    def __init__(self, arr, mask):
        self.arr = arr
        self.mask = mask


class SymList:
    """list of unknown length (generic element)"""

    def __init__(self, e):
        self.e = e


def array_len(a):
    return CUR.array_len()


class QBool(SymBool):
    """any/all over a generic-element condition"""
    __slots__ = ("q",)

    def __init__(self, q, cond):
        SymBool.__init__(self, "quant", cond)
        self.q = q


def q_any(a):
    e = a.e
    if isinstance(e, Sym) or isinstance(e, float):
        e = e != 0
    if not isinstance(e, SymBool):
        return bool(e)
    if e.k == "const":
        return e.a
    return QBool("any", e)


def q_all(a):
    e = a.e
    if isinstance(e, Sym) or isinstance(e, float):
        e = e != 0
    if not isinstance(e, SymBool):
        return bool(e)
    if e.k == "const":
        return e.a
    return QBool("all", e)


def reduce_(kind, a):
    """max/min over all elements: an unknown number bounding the generic element"""
    e = a.e
    if isinstance(e, float):
        return e
    if isinstance(e, SymBool):
        raise Unsupported("reduction of boolean array")
    if e.is_const():
        return e
    v = Sym(nf.fn("arr" + kind, e.p), e.wd)
    CUR.assume((v >= e) if kind == "max" else (v <= e))
    return v


# ------------------------------------------------------------------ contexts
CUR = None


def set_cur(c):
    global CUR
    CUR = c
    nf.set_ctx(c if c is not None else nf.BaseCtx())


class Domain:
    """bounds on the symbolic inputs: name -> (lo, lo_strict, hi, hi_strict)"""

    def __init__(self, bounds=None):
        self.b = dict(bounds or {})

    def sign(self, name):
        b = self.b.get(name)
        if not b:
            return None
        lo, ls, hi, hs = b
        if lo is not None and (lo > 0 or (lo == 0 and ls)):
            return POS
        if lo is not None and lo == 0:
            return NONNEG
        if hi is not None and (hi < 0 or (hi == 0 and hs)):
            return NEG
        if hi is not None and hi == 0:
            return NONPOS
        return None


POS_FNS = {"disper_x", "z2p"}


class Ctx(nf.BaseCtx):
    """One path."""

    def __init__(self, ex, prefix):
        self.ex = ex
        self.dom = ex.dom
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self._bf, self._bfn = {}, -1
        self.asc = {}        # sign cache, dropped when a fact is added
        self.poss = {}       # canonical poly -> allowed sign set
        self.pc = []
        self.eqs = []
        self.events = []
        self.warns = []
        self.muts = []
        self.notes = []
        self.fresh = 0
        self.qcache = {}
        self.solver = None
        self.wd_assumed = set()
        self.lits = []
        self.extra_dom = {}
        self.signcache = {}
        self.loops = []
        self.files = {}
        self.calls = []
        self.div0 = 0

    # -- sign oracle
    def atom_sign(self, a):
        if a.kind == "var":
            if a.name == "pi":
                return POS
            s = self.dom.sign(a.name)
            if s is None and a.name in self.extra_dom:
                s = self.extra_dom[a.name]
            if s == POS:
                return s
        else:
            s = None
            if a.kind == "fn":
                if a.name in POS_FNS:
                    return POS
                if a.name == "log" and a.args[0].is_const():
                    return POS if a.args[0].const() > 1 else None
        # facts
        p = nf.from_atom(a) if a.kind != "sum" else a.args[0]
        f = self._facts_sign(p)
        if f is not None:
            if s is None:
                return f
            if {s, f} == {NONNEG, POS} or f == POS:
                return POS
            if s == NONNEG and f == "nonzero":
                return POS
            if f != "nonzero":
                return f
        return s if s != "nonzero" else None

    def _facts_sign(self, p):
        st = self._lookup(p)
        if st is None:
            return None
        if st == frozenset("+"):
            return POS
        if st == frozenset("-"):
            return NEG
        if st == frozenset("+0"):
            return NONNEG
        if st == frozenset("-0"):
            return NONPOS
        return None

    def _lookup(self, p):
        k, flip = _key(p)
        st = self.poss.get(k)
        if st is None:
            return None
        if flip:
            st = frozenset({"+": "-", "-": "+", "0": "0"}[x] for x in st)
        return st

    def by_fact(self, l):
        """l follows from one fact q of the path: some positive multiple of p exceeds q termwise"""
        p, op = l
        if op not in (">", ">=") or len(p.t) < 2 or len(p.t) > 40:
            return False
        if len(self.lits) != self._bfn:
            self._bf, self._bfn = {}, len(self.lits)
        if l in self._bf:
            return self._bf[l]
        # the facts are those of the same point on an earlier path with these choices
        k = (tuple(self.trace), len(self.lits), l)
        r = self.ex.bf.get(k)
        if r is None:
            self.ex.bf[k] = r = self._by_fact(p, op)
        self._bf[l] = r
        return r

    def _by_fact(self, p, op):
        atoms = {i for m in p.t for i, e in m}
        lm = nf.lead(p.t)
        for q, oq in self.lits:
            if oq not in (">", ">=") or len(q.t) > 40 or not atoms & {i for m in q.t for i, e in m}:
                continue
            done = set()
            for mp in p.t:
                if mp != lm and len(p.t) > 12:
                    continue
                inv = tuple((i, -e) for i, e in mp)
                for mq, cq in q.t.items():
                    lam = cq / p.t[mp]
                    if lam <= 0:
                        continue
                    r = nf.mul_mono(mq, inv)
                    if (r, lam) in done or any(e.denominator != 1 and nf._needs_fix(((i, e),)) for i, e in r):
                        continue
                    done.add((r, lam))
                    if nf.mono_sign(r) != POS:
                        continue
                    d = nf.sub(nf.mul(nf.scale(p, lam), nf.Poly({r: F1})), q)
                    if not d.t:
                        s = "zero"
                    else:
                        s = nf.terms_sign(d)
                    if s == POS or s in (NONNEG, "zero") and (oq == ">" or op == ">="):
                        return True
        return False

    def poly_sign(self, p):
        f = self._facts_sign(p)
        return f

    def abs_atom(self, a):
        """|a| as Poly, by forking on the sign"""
        p = nf.from_atom(a) if a.kind != "sum" else nf.from_atom(a)
        b = mk_lit(p if a.kind != "sum" else a.args[0], ">=")
        if b.k == "const":
            ok = b.a
        else:
            ok = self.decide(b)
        return p if ok else nf.neg(p)

    # -- misc
    def note_div0(self):
        self.div0 += 1

    def note_mutation(self, arr):
        self.muts.append(arr)

    def array_len(self):
        return Sym(nf.var("n_array"), ty="int")

    def fresh_var(self, hint, sign=None):
        self.fresh += 1
        name = "_%s%d" % (hint, self.fresh)
        if sign:
            self.extra_dom[name] = sign
            self.asc = {}
        return Sym(nf.var(name))

    # -- deciding
    def known(self, b):
        """True/False/None by cheap syntactic lookup"""
        if not isinstance(b, SymBool):
            return bool(b)
        if b.k == "const":
            return b.a
        if b.k == "lit":
            l = canon_lit(*b.a)
            if l is True or l is False:
                return l
            return self._lit_known(l)
        if b.k == "not":
            r = self.known(b.a)
            return None if r is None else (not r)
        if b.k == "and":
            x, y = self.known(b.a[0]), self.known(b.a[1])
            if x is False or y is False:
                return False
            if x is True and y is True:
                return True
            return None
        if b.k == "or":
            x, y = self.known(b.a[0]), self.known(b.a[1])
            if x is True or y is True:
                return True
            if x is False and y is False:
                return False
            return None
        return None

    def _lit_known(self, l):
        p, op = l
        st = self._lookup(p)
        if st is None:
            return None
        want = {">": "+", ">=": "+0", "==": "0", "!=": "+-"}[op]
        if all(x in want for x in st):
            return True
        if not any(x in want for x in st):
            return False
        return None

    def decide(self, b):
        if not isinstance(b, SymBool):
            return bool(b)
        if b.k == "const":
            return b.a
        if b.k == "not":
            return not self.decide(b.a)
        if b.k == "and":
            k = self.known(b)
            if k is not None:
                return k
            return self.decide(b.a[0]) and self.decide(b.a[1])
        if b.k == "or":
            k = self.known(b)
            if k is not None:
                return k
            return self.decide(b.a[0]) or self.decide(b.a[1])
        if b.k == "quant":
            return self._decide_quant(b)
        # literal
        if b.wd:
            self.wd_assumed |= b.wd
        l = canon_lit(*b.a)
        if l is True or l is False:
            return l
        k = self._lit_known(l)
        if k is not None:
            return k
        if self.by_fact(l):
            return True
        if self.by_fact(neg_lit(l)):
            return False
        v = self._choose(l)
        self._learn(l if v else neg_lit(l))
        return v

    def _choose(self, l):
        if self.pos < len(self.prefix):
            v, forced = self.prefix[self.pos]
            self.pos += 1
            self.trace.append((v, forced))
            return v
        t = self.feasible(l)
        f = True
        if t:
            f = self.feasible(neg_lit(l))
        if t and f:
            self.ex.push(self.trace + [(False, False)])
            v, forced = True, False
        elif t:
            v, forced = True, True
        elif f:
            v, forced = False, True
            if not self.feasible(neg_lit(l)):
                raise PathInfeasible()
        self.pos += 1
        self.trace.append((v, forced))
        return v

    def choice(self, n):
        """free n-way choice (explored exhaustively)"""
        for k in range(n - 1):
            if self._free():
                return k
        return n - 1

    def _free(self):
        if self.pos < len(self.prefix):
            v, forced = self.prefix[self.pos]
        else:
            self.ex.push(self.trace + [(False, False)])
            v, forced = True, False
        self.pos += 1
        self.trace.append((v, forced))
        return v

    def _decide_quant(self, b):
        key = (b.q, _bkey(b.a))
        if key in self.qcache:
            return self.qcache[key]
        k = self.known(b.a)
        if b.q == "any":
            if k is True:
                return True
            v = self._free()
            if not v:
                if self.decide(b.a):
                    raise PathInfeasible()
        else:
            if k is False:
                return False
            v = self._free()
            if v:
                if not self.decide(b.a):
                    raise PathInfeasible()
        self.qcache[key] = v
        return v

    def assume(self, b):
        if not isinstance(b, SymBool):
            if not b:
                raise PathInfeasible()
            return
        if b.k == "const":
            if not b.a:
                raise PathInfeasible()
            return
        if b.k == "lit":
            l = canon_lit(*b.a)
            if l is True:
                return
            if l is False:
                raise PathInfeasible()
            k = self._lit_known(l)
            if k is True:
                return
            if k is False:
                raise PathInfeasible()
            self._learn(l)
            return
        if b.k == "and":
            self.assume(b.a[0])
            self.assume(b.a[1])
            return
        if not self.decide(b):
            raise PathInfeasible()

    def _learn(self, l):
        p, op = l
        k, flip = _key(p)
        allow = {">": "+", ">=": "+0", "==": "0", "!=": "+-"}[op]
        if flip:
            allow = [{"+": "-", "-": "+", "0": "0"}[x] for x in allow]
        st = self.poss.get(k, frozenset("+-0")) & frozenset(allow)
        if not st:
            raise PathInfeasible()
        self.poss[k] = st
        self.asc = {}
        self.lits.append(l)
        if st == frozenset("0"):
            self.eqs.append(k)
        if self.solver is not None:
            self.solver.add(l)

    # -- solver
    def _solver(self):
        if self.solver is None:
            from .solver import Z3Ctx
            self.solver = Z3Ctx(self)
            for l in self.lits:
                self.solver.add(l)
        return self.solver

    def feasible(self, l):
        if not self.ex.use_solver:
            return True
        r = self._solver().check_with([l], self.ex.rlimit, 120)
        return r != "unsat"

    def entails(self, l, rlimit=None):
        """PC and domain entail canonical literal l?"""
        if l is True or l is False:
            return l
        k = self._lit_known(l)
        if k is True:
            return True
        r = self._solver().check_with([neg_lit(l)], rlimit or self.ex.rlimit)
        return r == "unsat"


def _key(p):
    if p._k is None:
        lm = nf.lead(p.t)
        c = p.t[lm]
        if c == 1:
            return p, False
        p._k = (nf.scale(p, 1 / c), c < 0)
    return p._k


def _bkey(b):
    if b.k == "lit":
        return ("lit",) + tuple(b.a)
    if b.k == "not":
        return ("not", _bkey(b.a))
    if b.k in ("and", "or"):
        return (b.k, _bkey(b.a[0]), _bkey(b.a[1]))
    return (b.k, b.a)


class Explorer:
    def __init__(self, dom, max_paths=3000, rlimit=200000, use_solver=True, deadline=None, axioms=()):
        self.dom = dom
        self.stack = [[]]
        self.max_paths = max_paths
        self.rlimit = rlimit
        self.use_solver = use_solver
        self.n_paths = 0
        self.n_infeasible = 0
        self.deadline = deadline
        self.axioms = axioms
        self.bf = {}

    def push(self, prefix):
        self.stack.append(list(prefix))

    def run(self, harness):
        """harness(ctx) is executed for every path; yields (ctx, result)"""
        while self.stack:
            if self.n_paths >= self.max_paths:
                raise Budget("more than %d paths" % self.max_paths)
            if self.deadline and time.time() > self.deadline:
                raise Budget("time budget of the exploration used up")
            prefix = self.stack.pop()
            ctx = Ctx(self, prefix)
            set_cur(ctx)
            try:
                for ax in self.axioms:
                    ctx.assume(ax())
                r = harness(ctx)
            except PathInfeasible:
                self.n_infeasible += 1
                continue
            self.n_paths += 1
            yield ctx, r
            set_cur(None)
