"""Stand-ins for numpy, builtins, warnings and pandas used while executing the real
modules on symbolic values.  Their behaviour is numpy's documented behaviour on reals."""
from fractions import Fraction
import builtins as _b
import numpy as _np
from . import nf, sym
from .nf import Unsupported
from .sym import (Sym, SymBool, SymArr, SymList, MaskedArr, NAN, INF, is_num, q_any, q_all, reduce_,
                  s_abs, s_exp, s_log, s_sqrt, s_pow, s_fn, s_max, s_min, s_floor, s_round,
                  s_tan, s_sinh, s_cosh, s_tanh)

HALF = Fraction(1, 2)


class ndarray_t:
    pass


class Poison:
    """value of a loop variable outside the iteration that assigns it"""

    def __init__(self, name):
        self.__dict__["name"] = name

    def _bad(self, *a, **k):
        raise Unsupported("loop-carried variable " + self.__dict__["name"])

    __getattr__ = lambda self, n: self._bad()
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _bad
    __pow__ = __rpow__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __getitem__ = __iter__ = _bad
    __len__ = __float__ = __call__ = __abs__ = __neg__ = _bad
    __eq__ = __ne__ = _bad
    __hash__ = None


class MList(list):
    """a list created by the code; used as an accumulator in map loops"""
    gen = None

    def append(self, v):
        c = sym.CUR
        if c is not None and getattr(c, "map_depth", 0) > 0:
            if len(self) or self.gen is not None:
                raise Unsupported("two appends in one iteration")
            self.gen = (v,)
            return
        list.append(self, v)


def _flt(x):
    """python float nan/inf or Sym from any scalar"""
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymBool):
        return Sym.of(x)
    if is_num(x):
        return Sym.of(x)
    if isinstance(x, Poison):
        x._bad()
    return None


def ew(f, nanval=NAN):
    """elementwise lifting of a scalar function on Syms"""
    def g(*args, **kw):
        for k in kw:
            if k not in ("out", "dtype"):
                raise Unsupported("keyword %s" % k)
        if "out" in kw and kw["out"] is not None:
            raise Unsupported("out=")
        return lift(f, args)
    return g


def lift(f, args):
    if any(isinstance(a, MaskedArr) for a in args):
        m = [a for a in args if isinstance(a, MaskedArr)]
        args2 = [(a.arr if isinstance(a, MaskedArr) else a) for a in args]
        return MaskedArr(lift(f, args2), m[0].mask)
    if any(isinstance(a, MList) and a.gen is not None for a in args):
        args = [SymArr(a.gen[0]) if isinstance(a, MList) and a.gen is not None else a for a in args]
    if any(isinstance(a, SymList) for a in args):
        args = [SymArr(a.e) if isinstance(a, SymList) else a for a in args]
    if any(isinstance(a, (list, tuple)) for a in args):
        args = [(_array(a) if isinstance(a, (list, tuple)) else a) for a in args]
    if any(isinstance(a, SymArr) for a in args):
        if any(isinstance(a, _np.ndarray) and a.size != 1 for a in args):
            raise Unsupported("mixing symbolic and concrete arrays")
        args = [a.flat[0] if isinstance(a, _np.ndarray) else a for a in args]
        return SymArr(lift(f, [a.e if isinstance(a, SymArr) else a for a in args]))
    if any(isinstance(a, _np.ndarray) for a in args):
        arrs = _np.broadcast_arrays(*[a if isinstance(a, _np.ndarray) else _obj0(a) for a in args])
        out = _np.empty(arrs[0].shape, dtype=object)
        for idx in _np.ndindex(arrs[0].shape):
            out[idx] = lift(f, [a[idx] for a in arrs])
        return out
    xs = []
    for a in args:
        x = _flt(a)
        if x is None:
            raise TypeError("unsupported operand type: %s" % type(a).__name__)
        xs.append(x)
    return f(*xs)


def _obj0(a):
    z = _np.empty((), dtype=object)
    z[()] = a
    return z


def nn(f):
    """scalar function where any nan gives nan"""
    def g(*xs):
        for x in xs:
            if isinstance(x, float):
                if x != x:
                    return NAN
                raise Unsupported("infinite argument")
        return f(*xs)
    return g


def _exp(x):
    if isinstance(x, float):
        return NAN if x != x else (INF if x > 0 else Sym.of(0.0))
    return s_exp(x)


def _isnan(x):
    if isinstance(x, float):
        return x != x
    if isinstance(x, Sym) and x.wd:
        sym.CUR.wd_assumed |= x.wd
    return False


def _isfinite(x):
    if isinstance(x, float):
        return False
    return True


def _array(a, dtype=None, copy=None, ndmin=0):
    if isinstance(a, SymArr):
        return SymArr(a.e)
    if isinstance(a, SymList):
        return SymArr(a.e)
    if isinstance(a, MList) and a.gen is not None:
        return SymArr(a.gen[0])
    if isinstance(a, _np.ndarray):
        return a.copy()
    if isinstance(a, (list, tuple)):
        if any(isinstance(x, SymArr) for x in a):
            return StackArr(list(a))
        if any(isinstance(x, (list, tuple, _np.ndarray)) for x in a):
            rows = [_array(x) for x in a]
            shapes = {r.shape for r in rows if isinstance(r, _np.ndarray)}
            if len(shapes) != 1 or any(not isinstance(r, _np.ndarray) for r in rows):
                raise ValueError("inhomogeneous shape")
            out = _np.empty((len(rows),) + rows[0].shape, dtype=object)
            for i, r in enumerate(rows):
                out[i] = r
            return out
        out = _np.empty(len(a), dtype=object)
        for i, x in enumerate(a):
            out[i] = x
        return out
    return _obj0(a) if False else a


class StackArr:
    """np.array([x, y, ...]) where some rows are symbolic arrays (axis 0 concrete)"""

    def __init__(self, rows):
        self.rows = rows

    def __getitem__(self, i):
        if isinstance(i, (int, Sym)):
            r = self.rows[int(i)]
            return r if isinstance(r, SymArr) else SymArr(r)
        raise Unsupported("index")


def _red(kind):
    f = s_max if kind == "max" else s_min

    def g(a, axis=None, **kw):
        if kw:
            raise Unsupported("reduction keyword")
        if isinstance(a, Sym) or is_num(a):
            return a
        if isinstance(a, SymArr):
            if axis not in (None, 0) and not (isinstance(axis, Sym) and int(axis) == 0):
                raise Unsupported("axis")
            return reduce_(kind, a)
        if isinstance(a, SymList):
            return reduce_(kind, a)
        if isinstance(a, StackArr):
            a = a.rows
        if isinstance(a, (list, tuple)):
            if isinstance(a, MList) and a.gen is not None:
                return reduce_(kind, SymArr(a.gen[0]))
            if len(a) == 0:
                raise ValueError("zero-size array to reduction operation")
            if axis is None:
                r = None
                for x in a:
                    if isinstance(x, (SymArr, list, tuple, _np.ndarray)):
                        x = g(x)
                    r = x if r is None else lift(_mm(kind), [r, x])
                return r
            r = a[0]
            for x in a[1:]:
                r = lift(_mm(kind), [r, x])
            if len(a) == 1 and not isinstance(r, (SymArr, _np.ndarray)):
                return r
            return r
        if isinstance(a, _np.ndarray):
            if a.size == 0:
                raise ValueError("zero-size array to reduction operation")
            if axis is None or a.ndim == 1:
                r = None
                for x in a.flat:
                    r = x if r is None else lift(_mm(kind), [r, x])
                return r
            r = a[0]
            for x in a[1:]:
                r = lift(_mm(kind), [r, x])
            return r
        if isinstance(a, SymBool):
            return a
        raise Unsupported("reduction of %s" % type(a).__name__)
    return g


def _mm(kind):
    base = s_max if kind == "max" else s_min

    def f(x, y):
        if isinstance(x, float) and x != x:
            return NAN
        if isinstance(y, float) and y != y:
            return NAN
        return base(x, y)
    return f


def _where(c, *ab):
    if len(ab) != 2:
        raise Unsupported("np.where with one argument")
    a, b = ab
    if isinstance(c, SymArr) or isinstance(a, SymArr) or isinstance(b, SymArr):
        ce = c.e if isinstance(c, SymArr) else c
        r = _where(ce, a.e if isinstance(a, SymArr) else a, b.e if isinstance(b, SymArr) else b)
        return SymArr(r)
    if any(isinstance(x, _np.ndarray) for x in (c, a, b)):
        arrs = _np.broadcast_arrays(*[x if isinstance(x, _np.ndarray) else _obj0(x) for x in (c, a, b)])
        out = _np.empty(arrs[0].shape, dtype=object)
        for idx in _np.ndindex(arrs[0].shape):
            out[idx] = arrs[1][idx] if bool(arrs[0][idx]) else arrs[2][idx]
        return out
    r = a if bool(c) else b
    # numpy promotes the result to a common type
    if isinstance(r, Sym) and r.ty == "int":
        o = b if r is a else a
        if not (isinstance(o, Sym) and o.ty == "int") and not isinstance(o, int):
            r = Sym(r.p, r.wd)
    return r


def _any(a, axis=None, **k):
    if isinstance(a, SymArr):
        return q_any(a)
    if isinstance(a, (list, tuple, _np.ndarray)):
        r = False
        for x in (a.flat if isinstance(a, _np.ndarray) else a):
            if isinstance(x, SymArr):
                x = q_any(x)
            elif isinstance(x, (list, tuple, _np.ndarray)):
                x = _any(x)
            r = SymBool.of(r) | _tobool(x)
            if r.k == "const" and r.a:
                return True
        r = SymBool.of(r)
        return r.a if r.k == "const" else r
    x = _tobool(a)
    return x.a if x.k == "const" else x


def _all(a, axis=None, **k):
    if isinstance(a, SymArr):
        return q_all(a)
    if isinstance(a, (list, tuple, _np.ndarray)):
        r = SymBool.of(True)
        for x in (a.flat if isinstance(a, _np.ndarray) else a):
            if isinstance(x, SymArr):
                x = q_all(x)
            elif isinstance(x, (list, tuple, _np.ndarray)):
                x = _all(x)
            r = r & _tobool(x)
            if r.k == "const" and not r.a:
                return False
        return r.a if r.k == "const" else r
    x = _tobool(a)
    return x.a if x.k == "const" else x


def _tobool(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        r = x != 0
        return SymBool.of(r)
    return SymBool.of(bool(x))


def _append(a, v, axis=None):
    c = sym.CUR
    if isinstance(a, MList) and not len(a):
        a = _np.empty(0, dtype=object)
    if isinstance(a, _np.ndarray) and a.size == 0 and getattr(c, "map_depth", 0) > 0:
        return SymArr(v[0] if isinstance(v, (list, _np.ndarray)) and len(v) == 1 else v)
    if isinstance(a, SymArr):
        raise Unsupported("append to symbolic array")
    l = list(a) if isinstance(a, (list, tuple, _np.ndarray)) else [a]
    if isinstance(v, (list, tuple, _np.ndarray)):
        l += list(v)
    else:
        l.append(v)
    return _array(l)


def _interp(x, xp, fp, left=None, right=None):
    xp = list(xp)
    fp = list(fp)

    def one(z):
        if isinstance(z, float):
            return NAN if z != z else (fp[-1] if z > 0 else fp[0])
        if bool(z <= xp[0]):
            if left is not None and not bool(z >= xp[0]):
                return left
            return Sym.of(fp[0])
        for k in range(1, len(xp)):
            if bool(z <= xp[k]):
                x0, x1, f0, f1 = map(Sym.of, (xp[k - 1], xp[k], fp[k - 1], fp[k]))
                return f0 + (f1 - f0) * (z - x0) / (x1 - x0)
        return right if right is not None else Sym.of(fp[-1])
    return lift(one, [x])


def _searchsorted(a, v, side="left"):
    a = list(a)
    for k, x in enumerate(a):
        if side == "left":
            if bool(Sym.of(x) >= v):
                return k
        elif bool(Sym.of(x) > v):
            return k
    return len(a)


def _argm(kind):
    def g(a, axis=None):
        a = list(a.flat) if isinstance(a, _np.ndarray) else list(a)
        best = 0
        for k in range(1, len(a)):
            x, y = Sym.of(a[k]), a[best]
            if bool(x < y) if kind == "min" else bool(x > y):
                best = k
        return best
    return g


def _arange(*args):
    a = [Sym.of(x).cval() for x in args]
    if len(a) == 1:
        lo, hi, st = Fraction(0), a[0], Fraction(1)
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], Fraction(1)
    else:
        lo, hi, st = a
    out = []
    n = -((lo - hi) // st) if st else 0
    import math
    n = math.ceil((hi - lo) / st)
    if n > 20000:
        raise Unsupported("large arange")
    for k in range(n):
        out.append(Sym(nf.const(lo + k * st)))
    return _array(out)


class _vectorize:
    def __init__(self, f, otypes=None, excluded=None, **kw):
        self.f = f
        self.otypes = otypes
        if kw:
            raise Unsupported("vectorize keywords")

    def __call__(self, *args, **kw):
        arrs = [a for a in list(args) + list(kw.values()) if isinstance(a, (SymArr,))]
        if not arrs:
            if any(isinstance(a, (list, _np.ndarray)) for a in list(args) + list(kw.values())):
                raise Unsupported("vectorize on concrete arrays")
            return self.f(*args, **kw)
        # the output type is that of the first element's result; the generic element may be a
        # later one, so explore both: the first element's result type is free among the
        # types the function can return.
        el = lambda a: a.e if isinstance(a, SymArr) else a
        r = self.f(*[el(a) for a in args], **{k: el(v) for k, v in kw.items()})
        rs = r if isinstance(r, tuple) else (r,)
        out = []
        for x in rs:
            out.append(SymArr(self._cast(x)))
        return tuple(out) if isinstance(r, tuple) else out[0]

    def _cast(self, x):
        if self.otypes is not None:
            return x
        c = sym.CUR
        key = ("vec_int", id(self.f))
        ints = c.ex.__dict__.setdefault("vec_int", {})
        if isinstance(x, Sym) and x.ty == "int":
            ints[self.f.__name__] = True
            return x
        if isinstance(x, Sym) and ints.get(self.f.__name__):
            # some input makes the first output an int: then this element is truncated
            if c.choice(2) == 0:
                return x
            return s_fn("trunc", x)
        return x


def _full_like(a, v, dtype=None):
    if isinstance(a, SymArr):
        return SymArr(v)
    if isinstance(a, _np.ndarray):
        out = _np.empty(a.shape, dtype=object)
        out[...] = v
        return out
    return v


def _round(x, decimals=0, **k):
    n = int(decimals)
    return lift(nn(lambda z: s_round(z, n)), [x])


def _pow(x, y):
    if isinstance(y, float):
        if y != y:
            return NAN
        raise Unsupported("inf power")
    if isinstance(x, float):
        if x != x:
            return NAN
        raise Unsupported("inf power")
    return s_pow(x, y)


def _sign(x):
    if bool(x > 0):
        return Sym.of(1.0)
    if bool(x < 0):
        return Sym.of(-1.0)
    return Sym.of(0.0)


def _bool2(f):
    return lambda a, b: lift(lambda x, y: f(x, y), [a, b])


def _clip(a, lo=None, hi=None, a_min=None, a_max=None):
    lo = a_min if lo is None else lo
    hi = a_max if hi is None else hi
    r = a
    if lo is not None:
        r = lift(_mm("max"), [r, lo])
    if hi is not None:
        r = lift(_mm("min"), [r, hi])
    return r


def _logical(f):
    def g(a, b):
        if isinstance(a, SymArr) or isinstance(b, SymArr):
            return SymArr(f(_tobool(a.e if isinstance(a, SymArr) else a),
                            _tobool(b.e if isinstance(b, SymArr) else b)))
        r = f(_tobool(a), _tobool(b))
        return r.a if r.k == "const" else r
    return g


def _not(a):
    if isinstance(a, SymArr):
        return SymArr(sym.b_not(_tobool(a.e)))
    r = sym.b_not(_tobool(a))
    return r.a if r.k == "const" else r


def _select(conds, vals, default=0):
    r = Sym.of(default) if is_num(default) else default
    for c, v in reversed(list(zip(conds, vals))):
        r = _where(c, v, r)
    return r


def _sum(a, axis=None, **k):
    if isinstance(a, (SymArr, SymList)):
        raise Unsupported("sum over symbolic array")
    r = Sym.of(0)
    for x in (a.flat if isinstance(a, _np.ndarray) else a):
        r = r + x
    return r


class _NP:
    nan = NAN
    NaN = NAN
    NAN = NAN
    inf = INF
    Inf = INF
    ndarray = ndarray_t
    newaxis = None

    def __init__(self):
        one = nn
        self.sqrt = ew(one(s_sqrt))
        self.square = ew(one(lambda x: x * x))
        self.cbrt = ew(one(lambda x: s_pow(x, Sym(nf.const(Fraction(1, 3))))))
        self.power = ew(_pow)
        self.float_power = self.power
        self.exp = ew(_exp)
        self.expm1 = ew(one(lambda x: s_exp(x) - 1))
        self.log = ew(one(s_log))
        self.log1p = ew(one(lambda x: s_log(x + 1)))
        self.log10 = ew(one(lambda x: s_log(x) / s_log(Sym.of(10))))
        self.log2 = ew(one(lambda x: s_log(x) / s_log(Sym.of(2))))
        self.sin = ew(one(lambda x: s_fn("sin", x)))
        self.cos = ew(one(lambda x: s_fn("cos", x)))
        self.tan = ew(one(s_tan))
        self.arctan = ew(one(lambda x: s_fn("arctan", x)))
        self.sinh = ew(one(s_sinh))
        self.cosh = ew(one(s_cosh))
        self.tanh = ew(one(s_tanh))
        self.deg2rad = ew(one(lambda x: x * PI() / 180))
        self.radians = self.deg2rad
        self.rad2deg = ew(one(lambda x: x * 180 / PI()))
        self.degrees = self.rad2deg
        self.abs = ew(lambda x: abs(x) if isinstance(x, float) else s_abs(x))
        self.absolute = self.fabs = self.abs
        self.floor = ew(one(s_floor))
        self.ceil = ew(one(lambda x: -s_floor(-x)))
        self.sign = ew(one(_sign))
        self.round = self.around = self.round_ = _round
        self.minimum = ew(_mm("min"))
        self.maximum = ew(_mm("max"))
        self.fmin = self.minimum
        self.fmax = self.maximum
        self.min = self.amin = _red("min")
        self.max = self.amax = _red("max")
        self.where = _where
        self.any = _any
        self.all = _all
        self.isnan = ew(_isnan)
        self.isfinite = ew(_isfinite)
        self.isinf = ew(lambda x: isinstance(x, float) and x == x)
        self.array = self.asarray = self.asanyarray = _array
        self.append = _append
        self.zeros_like = lambda a, dtype=None: _full_like(a, Sym.of(0.0))
        self.ones_like = lambda a, dtype=None: _full_like(a, Sym.of(1.0))
        self.full_like = _full_like
        self.empty_like = lambda a, dtype=None: _full_like(a, NAN)
        self.interp = _interp
        self.searchsorted = _searchsorted
        self.argmin = _argm("min")
        self.argmax = _argm("max")
        self.arange = _arange
        self.vectorize = _vectorize
        self.clip = _clip
        self.sum = _sum
        self.logical_and = _logical(sym.b_and)
        self.logical_or = _logical(sym.b_or)
        self.logical_not = _not
        self.select = _select
        self.multiply = ew(lambda a, b: a * b)
        self.divide = self.true_divide = ew(lambda a, b: a / b)
        self.add = ew(lambda a, b: a + b)
        self.subtract = ew(lambda a, b: a - b)
        self.negative = ew(lambda a: -a)
        self.reciprocal = ew(lambda a: 1 / a)
        self.less = _bool2(lambda a, b: a < b)
        self.less_equal = _bool2(lambda a, b: a <= b)
        self.greater = _bool2(lambda a, b: a > b)
        self.greater_equal = _bool2(lambda a, b: a >= b)
        self.equal = _bool2(lambda a, b: a == b)
        self.not_equal = _bool2(lambda a, b: a != b)
        self.isscalar = lambda x: isinstance(x, (Sym, int, float))
        self.broadcast_arrays = lambda *a: _broadcast_arrays(*a)
        self.ndim = lambda x: 1 if isinstance(x, SymArr) else (x.ndim if isinstance(x, _np.ndarray) else 0)
        self.size = lambda x: x.size if isinstance(x, (SymArr, _np.ndarray)) else 1
        self.shape = lambda x: x.shape if isinstance(x, (SymArr, _np.ndarray)) else ()
        self.float64 = self.float32 = FloatS
        self.int64 = self.int32 = IntS
        self.atleast_1d = lambda x: x if isinstance(x, (SymArr, _np.ndarray)) else _array(
            list(x) if isinstance(x, (list, tuple)) else [x])
        self.ravel = lambda x: self.atleast_1d(x) if not isinstance(x, _np.ndarray) else x.ravel()
        self.copy = lambda x: x.copy() if hasattr(x, "copy") else x
        self.floating = float
        self.integer = int
        self.number = (int, float)
        self.bool_ = bool
        self.errstate = _errstate

    @property
    def pi(self):
        return PI()

    @property
    def e(self):
        return s_exp(Sym.of(1))

    def __getattr__(self, n):
        raise Unsupported("numpy." + n)


class FloatS:
    """the builtin float as seen by the executed modules"""

    def __new__(cls, x=0.0):
        return _float(x)


class IntS:
    def __new__(cls, x=0):
        return _int(x)


class _errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def PI():
    return Sym(nf.var("pi"))


NP = _NP()


class _Math:
    def __getattr__(self, n):
        if n == "pi":
            return PI()
        if n in ("nan", "inf"):
            return getattr(NP, n)
        m = {"pow": "power", "fabs": "abs", "atan": "arctan", "ceil": "ceil"}.get(n, n)
        return getattr(NP, m)


MATH = _Math()


class _Npt:
    def __getattr__(self, n):
        return _Any()


class _Any:
    def __getitem__(self, k):
        return self

    def __getattr__(self, k):
        return self

    def __or__(self, o):
        return self

    __ror__ = __or__

    def __call__(self, *a, **k):
        return self


NPT = _Npt()


class _Warn:
    def warn(self, *a, **k):
        c = sym.CUR
        if c is not None:
            c.warns.append(a[0] if a else k.get("message"))

    def __getattr__(self, n):
        raise Unsupported("warnings." + n)


WARN = _Warn()


class VFile:
    """a text file of the recorded file system: writing only"""

    def __init__(self, path, mode):
        if mode.replace("t", "") not in ("w", "a", "x", "w+", "a+"):
            raise Unsupported("open(mode=%r)" % mode)
        self.path = str(path)
        fs = sym.CUR.files
        if mode[0] in "wx" or self.path not in fs:
            fs[self.path] = []

    def write(self, txt):
        if not isinstance(txt, str):
            raise Unsupported("text with symbolic parts written to a file")
        sym.CUR.files[self.path].append(txt)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def close(self):
        pass

    flush = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _open(path, mode="r", *a, **k):
    return VFile(path, mode)


class VPath(__import__("pathlib").PurePosixPath):
    def open(self, mode="r", *a, **k):
        return VFile(self, mode)

    def write_text(self, txt, *a, **k):
        VFile(self, "w").write(txt)

    def mkdir(self, *a, **k):
        pass


class _OS:
    import os as _os
    path = _os.path
    sep = _os.sep
    fspath = staticmethod(_os.fspath)

    def makedirs(self, *a, **k):
        pass

    def __getattr__(self, n):
        raise Unsupported("os." + n)


class _Pathlib:
    Path = PurePath = PosixPath = VPath

    def __getattr__(self, n):
        raise Unsupported("pathlib." + n)


OS, PATHLIB = _OS(), _Pathlib()


class SymFrame:
    """contract of pandas.DataFrame as a table written to a file: columns in the order given, scalars repeated for
    every row; scalars alone need an index, and an explicit index does not fit arrays of another length"""

    def __init__(self, data=None, index=None, columns=None, **kw):
        if kw:
            raise Unsupported("DataFrame keywords")
        self.data = {}
        if isinstance(data, dict):
            for k, v in data.items():
                self.data[k] = v
        elif data is not None:
            raise Unsupported("DataFrame from %s" % type(data).__name__)
        if columns is not None:
            cols = list(columns)
            if any(c not in self.data for c in cols):
                raise Unsupported("DataFrame columns")
            self.data = {c: self.data[c] for c in cols}
        arr = any(isinstance(v, SymArr) for v in self.data.values())
        if any(not isinstance(v, (SymArr, Sym, int, float)) for v in self.data.values()):
            raise Unsupported("DataFrame column")
        if self.data and index is None and not arr:
            raise ValueError("If using all scalar values, you must pass an index")
        if index is not None:
            if not isinstance(index, (list, tuple)) or len(index) != 1 or not _is_zero(index[0]):
                raise Unsupported("DataFrame index")
            if arr:
                raise ValueError("Length of values does not match length of index")

    def __setitem__(self, k, v):
        self.data[k] = v

    def __getitem__(self, k):
        if isinstance(k, list):
            f = SymFrame()
            f.data = {c: self.data[c] for c in k}
            return f
        return self.data[k]

    @property
    def columns(self):
        return list(self.data)

    def to_csv(self, path_or_buf, sep=",", index=True, header=True, mode="w", columns=None, float_format=None, decimal=".", index_label=None, **k):
        if any(k.get(n) is not None and not (n == "encoding" and k[n] in ("utf-8", "utf8")) for n in k):
            raise Unsupported("to_csv keywords %s" % sorted(k))
        if isinstance(path_or_buf, VFile):
            f = path_or_buf
        else:
            f = VFile(path_or_buf, mode)
        data = self.data if columns is None else {c: self.data[c] for c in columns}
        names = None
        if header is True:
            names = list(data)
        elif header:
            names = list(header)
        sym.CUR.files[f.path].append(dict(sep=sep, index=bool(index), index_label=index_label or "", header=names, columns=list(data.values()),
                                          exact=float_format is None and decimal == "."))

    def __getattr__(self, n):
        raise Unsupported("DataFrame." + n)


def _is_zero(x):
    return (isinstance(x, Sym) and nf.is_zero(x.p)) or (not isinstance(x, Sym) and x == 0)


class _PD:
    DataFrame = SymFrame

    def __getattr__(self, n):
        raise Unsupported("pandas." + n)


PD = _PD()


# ------------------------------------------------------------------ builtins
_MAPT = {FloatS: float, IntS: int}


def _isinstance(x, cls):
    if isinstance(cls, tuple):
        return _b.any(_isinstance(x, c) for c in cls)
    cls = _MAPT.get(cls, cls)
    if cls is ndarray_t:
        return isinstance(x, (SymArr, _np.ndarray))
    if isinstance(x, Sym):
        if cls is int:
            return x.ty == "int"
        if cls is float:
            return x.ty != "int"
        if cls in (complex, str, list, tuple, dict, bool, set):
            return False
        return isinstance(x, cls)
    if isinstance(x, SymBool) and cls is bool:
        return True
    if isinstance(x, SymList) and cls is list:
        return True
    if cls is list and isinstance(x, MList):
        return True
    return isinstance(x, cls)


def _len(x):
    if isinstance(x, SymArr):
        return sym.array_len(x)
    if isinstance(x, SymList) or (isinstance(x, MList) and x.gen is not None):
        return sym.array_len(x)
    if isinstance(x, Sym):
        raise TypeError("object of type 'float' has no len()")
    return _b.len(x)


def _babs(x):
    if isinstance(x, (SymArr, Sym)):
        return abs(x)
    return lift(lambda z: abs(z) if isinstance(z, float) else s_abs(z), [x])


def _bmm(kind):
    red = _mm(kind)

    def g(*args, **kw):
        if kw:
            raise Unsupported("min/max keywords")
        if _b.len(args) == 1:
            if isinstance(args[0], (SymArr, SymList)):
                return reduce_(kind, args[0])
            args = list(args[0])
        r = args[0]
        for x in args[1:]:
            if isinstance(r, SymArr) or isinstance(x, SymArr):
                raise ValueError("The truth value of an array with more than one element is ambiguous.")
            # python semantics: max keeps the first argument unless a later one is larger
            r = red(_flt(r), _flt(x))
        return r
    return g


def _bsum(it, start=0):
    r = start
    for x in _iter(it):
        r = r + (1 if x is True else 0 if x is False else x)
    return r


def _float(x=0.0):
    if isinstance(x, (Sym,)):
        return Sym(x.p, x.wd)
    if isinstance(x, _np.ndarray) and x.size == 1:
        return _float(x.flat[0])
    if isinstance(x, SymArr):
        raise TypeError("only length-1 arrays can be converted to Python scalars")
    return Sym.of(float(x)) if isinstance(x, (int, str)) else x


def _int(x=0):
    if isinstance(x, Sym):
        if x.is_const():
            return Sym(nf.const(int(x.cval())), ty="int")
        return s_fn("trunc", x)
    return int(x)


def _bround(x, n=0):
    if isinstance(x, Sym):
        return s_round(x, n if n is not None else 0)
    return _b.round(x, n)


def _range(*a):
    return _b.range(*[int(x) for x in a])


def _broadcast_arrays(*a):
    if not _b.any(isinstance(x, (SymArr, SymList)) for x in a):
        return _np.broadcast_arrays(*[x if isinstance(x, _np.ndarray) else _obj0(x) if not isinstance(x, (list, tuple)) else _array(x) for x in a])
    if _b.any(isinstance(x, (_np.ndarray, list, tuple)) for x in a):
        raise Unsupported("broadcasting symbolic and concrete arrays")
    return [SymArr(x.e) if isinstance(x, (SymArr, SymList)) else SymArr(x) for x in a]


class SymZip:
    def __init__(self, els):
        self.els = els


def _zip(*its, **k):
    if any(isinstance(i, (SymArr, SymList)) for i in its):
        if not all(isinstance(i, (SymArr, SymList)) for i in its):
            raise Unsupported("zip of symbolic and concrete")
        return SymZip([i.e for i in its])
    return _b.zip(*its)


def _enumerate(it, start=0):
    if isinstance(it, (SymArr, SymList)):
        i = sym.CUR.fresh_var("index")
        i.ty = "int"
        sym.CUR.assume(i >= 0)
        return SymZip([i, it.e])
    return _b.enumerate(it, start)


def any_b(it):
    if isinstance(it, (SymArr, SymList)):
        return q_any(it)
    for x in _iter(it):
        if x:
            return True
    return False


def all_b(it):
    if isinstance(it, (SymArr, SymList)):
        return q_all(it)
    for x in _iter(it):
        if not x:
            return False
    return True


def any(it):
    return _b.any(it)


def _iter(it):
    if isinstance(it, (SymArr, SymList, SymZip)):
        raise Unsupported("iteration over symbolic array")
    return it


def _print(*a, **k):
    return None


def make_builtins():
    d = dict(_b.__dict__)
    d.update(isinstance=_isinstance, len=_len, abs=_babs, max=_bmm("max"), min=_bmm("min"),
             sum=_bsum, float=FloatS, int=IntS, round=_bround, range=_range, zip=_zip,
             enumerate=_enumerate, any=any_b, all=all_b, print=_print)
    d["open"] = _open
    for n in ("exec", "eval", "compile", "input", "__import__"):
        d[n] = _blocked(n)
    return d


def _blocked(n):
    def g(*a, **k):
        raise Unsupported("builtin " + n)
    return g
