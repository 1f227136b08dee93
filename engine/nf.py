"""Normal forms for real-valued terms.

A term is a generalised polynomial: a finite sum of rational coefficients times
monomials; a monomial is a product of atoms raised to rational exponents.
Atoms are interned:

  var    a symbolic input (real number)
  fn     an application of a function symbol to normal forms (log, sin, ...)
  sum    a several-term polynomial used as the base of a power
  prime  a prime number (only with a fractional exponent in (0,1))
  expm   exp(m) for a monomial m (so exp(a+b) = expm(a)*expm(b), x^y = expm(y*log x))

Rewriting with power laws is only done where the sign of the base is known from
the context (declared domains, path condition); the context is the module-level
`CTX`, installed by the explorer.
"""
from fractions import Fraction
import functools

F0 = Fraction(0)
F1 = Fraction(1)


class Unsupported(Exception):
    """The construct is outside the engine's reach (never a verdict)."""


class Atom:
    __slots__ = ("id", "kind", "name", "args", "depth", "sgn")

    def __repr__(self):
        if self.kind == "var":
            return self.name
        if self.kind == "prime":
            return str(self.args[0])
        if self.kind == "sum":
            return "(" + show(self.args[0]) + ")"
        if self.kind == "expm":
            return "exp{" + show_mono(self.args[0]) + "}"
        return self.name + "(" + ", ".join(
            show(a) if isinstance(a, Poly) else str(a) for a in self.args) + ")"


_TABLE = {}
ATOMS = []


def intern(kind, name, args, sgn=None):
    key = (kind, name, args)
    a = _TABLE.get(key)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind, a.name, a.args = kind, name, args
        a.sgn = sgn
        d = 0
        for x in args:
            if isinstance(x, Poly):
                d = max(d, x.depth() + 1)
            elif isinstance(x, tuple):  # mono
                for (i, e) in x:
                    d = max(d, ATOMS[i].depth + 1)
        a.depth = d
        ATOMS.append(a)
        _TABLE[key] = a
    return a


class Poly:
    """Immutable generalised polynomial."""
    __slots__ = ("t", "_h", "_d", "_k")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._d = None
        self._k = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def depth(self):
        if self._d is None:
            d = 0
            for m in self.t:
                for (i, e) in m:
                    d = max(d, ATOMS[i].depth)
            self._d = d
        return self._d

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), F0)

    def is_zero(self):
        return not self.t

    def __repr__(self):
        return show(self)


def show_mono(m):
    if not m:
        return "1"
    return "*".join((repr(ATOMS[i]) + ("" if e == 1 else "^(%s)" % e)) for i, e in m)


def show(p, limit=40):
    if not p.t:
        return "0"
    out = []
    for k, (m, c) in enumerate(p.t.items()):
        if k >= limit:
            out.append("...")
            break
        if not m:
            out.append(str(c))
        elif c == 1:
            out.append(show_mono(m))
        else:
            out.append("%s*%s" % (c, show_mono(m)))
    return " + ".join(out)


ZERO = Poly({})
ONE = Poly({(): F1})


def const(c):
    c = Fraction(c)
    return Poly({(): c}) if c else ZERO


def from_atom(a, e=F1):
    return Poly({((a.id, e),): F1})


def var(name, sgn=None):
    return from_atom(intern("var", name, ()), F1)


def add(p, q):
    if not p.t:
        return q
    if not q.t:
        return p
    if len(p.t) < len(q.t):
        p, q = q, p
    t = dict(p.t)
    for m, c in q.t.items():
        n = t.get(m, F0) + c
        if n:
            t[m] = n
        else:
            t.pop(m, None)
    return Poly(t)


def neg(p):
    return Poly({m: -c for m, c in p.t.items()})


def sub(p, q):
    return add(p, neg(q))


def scale(p, c):
    if not c:
        return ZERO
    return Poly({m: c * k for m, k in p.t.items()})


MAXTERMS = 4000


def mul_mono(m, n):
    """product of two monomials -> (coef, mono, [expand list of (sumatom,int)])"""
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for i, e in n:
        x = d.get(i, F0) + e
        if x:
            d[i] = x
        else:
            d.pop(i, None)
    return tuple(sorted(d.items()))


def fix_mono(m, c):
    """Normalise primes (fractional exponent only) and positive integer powers of sums.
    Returns Poly."""
    extra = None
    out = None
    for k, (i, e) in enumerate(m):
        a = ATOMS[i]
        if a.kind == "prime":
            fl = e.numerator // e.denominator
            if fl:
                if out is None:
                    out = dict(m)
                c = c * (Fraction(a.args[0]) ** fl)
                r = e - fl
                if r:
                    out[i] = r
                else:
                    out.pop(i)
        elif a.kind == "sum" and e >= 1:
            fl = e.numerator // e.denominator
            if fl <= 6:
                if out is None:
                    out = dict(m)
                r = e - fl
                if r:
                    out[i] = r
                else:
                    out.pop(i)
                q = ipow(a.args[0], fl)
                if fl > 1 and len(a.args[0].t) <= 4:
                    _note_power(a.args[0], fl)
                extra = q if extra is None else mul(extra, q)
    if out is not None:
        m = tuple(sorted(out.items()))
    p = Poly({m: c})
    if extra is not None:
        p = mul(p, extra)
    return p


def _needs_fix(m):
    for i, e in m:
        k = ATOMS[i].kind
        if k == "prime" and not (0 < e < 1):
            return True
        if k == "sum" and 1 <= e < 7:
            return True
    return False


def mul(p, q):
    if not p.t or not q.t:
        return ZERO
    if len(p.t) * len(q.t) > MAXTERMS:
        raise Unsupported("term too large")
    t = {}
    extra = None
    for m, c in p.t.items():
        for n, d in q.t.items():
            r = mul_mono(m, n)
            if _needs_fix(r):
                x = fix_mono(r, c * d)
                extra = x if extra is None else add(extra, x)
                continue
            v = t.get(r, F0) + c * d
            if v:
                t[r] = v
            else:
                t.pop(r, None)
    p = Poly(t)
    return p if extra is None else add(p, extra)


def ipow(p, n):
    r = ONE
    while n:
        if n & 1:
            r = mul(r, p)
        n >>= 1
        if n:
            p = mul(p, p)
    return r


# ---------------------------------------------------------------- signs
class BaseCtx:
    """Sign oracle with no facts."""

    def __init__(self):
        self.asc = {}

    def atom_sign(self, a):
        return None

    def poly_sign(self, p):
        return None


CTX = BaseCtx()


def set_ctx(c):
    global CTX
    CTX = c


POS, NONNEG, NEG, NONPOS = "pos", "nonneg", "neg", "nonpos"


def atom_sign(a):
    """one of pos, nonneg, neg, nonpos, None"""
    if a.kind in ("prime", "expm"):
        return POS
    c = CTX.asc
    if a in c:
        return c[a]
    s = CTX.atom_sign(a)
    if not s and a.kind == "sum":
        s = terms_sign(a.args[0])
    c = CTX.asc
    c[a] = s = s or None
    return s


def mono_sign(m):
    """sign of a monomial"""
    s = POS
    for i, e in m:
        a = ATOMS[i]
        x = atom_sign(a)
        if e.denominator != 1:
            # fractional power: defined only for base >= 0
            if x == POS or e < 0:
                y = POS
            else:
                y = NONNEG
        else:
            odd = e.numerator % 2
            if e < 0:
                # defined only when base != 0
                if x in (POS, NONNEG):
                    y = POS
                elif x in (NEG, NONPOS):
                    y = NEG if odd else POS
                else:
                    y = None if odd else POS
            elif odd:
                y = x
            else:
                y = POS if x in (POS, NEG) else NONNEG
        if y is None:
            return None
        s = _sprod(s, y)
    return s


def _sprod(a, b):
    strict = a in (POS, NEG) and b in (POS, NEG)
    n = (a in (NEG, NONPOS)) != (b in (NEG, NONPOS))
    if strict:
        return NEG if n else POS
    return NONPOS if n else NONNEG


def terms_sign(p):
    """sign if all terms agree"""
    if not p.t:
        return NONNEG
    pos = neg_ = strict = False
    for m, c in p.t.items():
        s = mono_sign(m)
        if s is None:
            return None
        n = (s in (NEG, NONPOS)) != (c < 0)
        if n:
            neg_ = True
        else:
            pos = True
        if pos and neg_:
            return None
        if s in (POS, NEG):
            strict = True
    if pos:
        return POS if strict else NONNEG
    return NEG if strict else NONPOS


def poly_sign(p):
    s = terms_sign(p)
    if s:
        return s
    s = CTX.poly_sign(p)
    if s is None and PERFECT and len(p.t) > 2:
        c, m, q = content(p)
        f = 1
        b = PERFECT.get(q)
        if b is None:
            b, f = PERFECT.get(neg(q)), -1
        if b is not None:
            k = poly_sign(b[0])
            if b[1] % 2 == 0:
                k = POS if k in (POS, NEG) else NONNEG
            ms = mono_sign(m) if m else POS
            if k is not None and ms is not None:
                s = _sprod(k, ms)
                if s is not None and f < 0:
                    s = {POS: NEG, NEG: POS, NONNEG: NONPOS, NONPOS: NONNEG}.get(s, s)
    return s


def is_pos(p):
    return poly_sign(p) == POS


def is_nonneg(p):
    return poly_sign(p) in (POS, NONNEG)


# ---------------------------------------------------------------- powers
@functools.lru_cache(maxsize=None)
def factor_int(n):
    out = []
    d = 2
    while d * d <= n and d < 20000:
        k = 0
        while n % d == 0:
            n //= d
            k += 1
        if k:
            out.append((d, k))
        d += 1 if d == 2 else 2
    if n > 1:
        out.append((n, 1))
    return tuple(out)


def const_pow(c, r):
    """c>0 rational, r rational -> Poly"""
    if r.denominator == 1:
        return const(c ** r.numerator)
    m = {}
    coef = F1
    for n, sg in ((c.numerator, 1), (c.denominator, -1)):
        for p, k in factor_int(n):
            e = r * k * sg
            fl = e.numerator // e.denominator
            coef *= Fraction(p) ** fl
            e -= fl
            if e:
                a = intern("prime", str(p), (p,))
                m[a.id] = e
    return Poly({tuple(sorted(m.items())): coef})


def content(p, only_nonneg=False):
    """p = c*m*q ; returns (c>0, m, q), q primitive with |lead coef| 1."""
    items = list(p.t.items())
    if len(items) == 1:
        m, c = items[0]
        if only_nonneg:
            keep = []
            rest = []
            for i, e in m:
                if atom_sign(ATOMS[i]) in (POS, NONNEG) or e.denominator != 1:
                    keep.append((i, e))
                elif e.numerator % 2 == 0 and False:
                    keep.append((i, e))
                else:
                    rest.append((i, e))
            return abs(c), tuple(keep), Poly({tuple(rest): F1 if c > 0 else -F1})
        return abs(c), m, const(1 if c > 0 else -1)
    mins = None
    for m, c in items:
        d = dict(m)
        if mins is None:
            mins = d
        else:
            new = {}
            for i in set(mins) | set(d):
                v = min(mins.get(i, F0), d.get(i, F0))
                if v:
                    new[i] = v
            mins = new
    if only_nonneg:
        mins = {i: e for i, e in mins.items()
                if e.denominator != 1 or atom_sign(ATOMS[i]) in (POS, NONNEG)}
    # primes: never leave them in the content with fractional exponents twice
    g = tuple(sorted(mins.items()))
    ginv = tuple((i, -e) for i, e in g)
    q = {}
    for m, c in items:
        q[mul_mono(m, ginv)] = c
    lm = lead(q)
    c = abs(q[lm])
    if c != 1:
        q = {m: k / c for m, k in q.items()}
    r = ZERO
    simple = True
    for m in q:
        if _needs_fix(m):
            simple = False
            break
    if simple:
        return c, g, Poly(q)
    for m, k in q.items():
        r = add(r, fix_mono(m, k))
    return c, g, r


_MK = {}


def _mkey(m):
    # order: by total "depth-weighted" then lexicographic; constants last
    k = _MK.get(m)
    if k is None:
        if len(_MK) > 200000:
            _MK.clear()
        k = _MK[m] = (float(sum((e for _, e in m), F0)), m)
    return k


def lead(t):
    if len(t) == 1:
        return next(iter(t))
    return max(t, key=_mkey)


PERFECT = {}    # expanded primitive polynomial -> (base, exponent)


def _note_power(p, n):
    c, m, q = content(p)
    if len(q.t) < 2:
        return
    e = ipow(q, n)
    c, m, q2 = content(e)
    if c == 1 and not m and q2 == e:
        PERFECT[e] = (q, n)


class Fork(Exception):
    pass


def powr(p, r):
    """p^r for rational r; the caller has recorded definedness."""
    r = Fraction(r)
    if r == 0:
        return ONE
    if r == 1:
        return p
    if not p.t:
        if r > 0:
            return ZERO
        raise ZeroDivisionError
    if r.denominator == 1:
        n = r.numerator
        if len(p.t) == 1:
            (m, c), = p.t.items()
            return fix_mono(tuple((i, e * n) for i, e in m), c ** n)
        if n > 0:
            if n <= 6:
                res = ipow(p, n)
                if n > 1 and len(p.t) <= 4:
                    _note_power(p, n)
                return res
        p = simplify(p)
        if len(p.t) <= 1:
            return powr(p, r)
        c, m, q = content(p)
        base = fix_mono(tuple((i, e * n) for i, e in m), c ** n)
        if len(q.t) == 1:
            return mul(base, powr(q, r))
        sgn = 1
        lm = lead(q.t)
        if q.t[lm] < 0:
            q = neg(q)
            sgn = -1 if n % 2 else 1
        if q in PERFECT:
            q0, k = PERFECT[q]
            return mul(scale(base, Fraction(sgn)), powr(q0, k * n))
        a = intern("sum", "", (q,))
        return mul(scale(base, Fraction(sgn)), Poly({((a.id, Fraction(n)),): F1}))
    # fractional exponent: base must be >= 0
    p = simplify(p)
    if not p.t:
        return powr(p, r)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        keep = []
        rest = []
        for i, e in m:
            a = ATOMS[i]
            if e.denominator != 1 or atom_sign(a) in (POS, NONNEG):
                keep.append((i, e * r))
            elif e.numerator % 2 == 0:
                ab = CTX.abs_atom(a) if hasattr(CTX, "abs_atom") else None
                if ab is not None:
                    # ab = Poly equal to |a|
                    keep.append((ab, e * r))
                else:
                    rest.append((i, e))
            else:
                rest.append((i, e))
        res = ONE
        if c < 0:
            if rest:
                rp = Poly({tuple(rest): -F1})
                c = -c
            else:
                # negative base: undefined; keep as opaque atom
                a = intern("sum", "", (p,))
                return Poly({((a.id, r),): F1})
        else:
            rp = Poly({tuple(rest): F1}) if rest else None
        res = const_pow(c, r)
        mm = {}
        for i, e in keep:
            if isinstance(i, Poly):
                res = mul(res, powr_nn(i, e))
            else:
                mm[i] = mm.get(i, F0) + e
        mm = tuple(sorted((i, e) for i, e in mm.items() if e))
        res = mul(res, Poly({mm: F1}))
        if rp is not None:
            a = intern("sum", "", (rp,))
            res = mul(res, Poly({((a.id, r),): F1}))
        return res
    low = {}
    for m in p.t:
        for i, e in m:
            if e < 0 and e.denominator == 1 and ATOMS[i].kind == "sum":
                low[i] = min(low.get(i, F0), e)
    for i, e in low.items():
        if atom_sign(ATOMS[i]) == NEG:
            # a negative sum in a denominator: p = (p * S^-e * (-1)^e) * (-S)^e
            s = neg(ATOMS[i].args[0])
            return mul(powr(simplify(mul(p, powr(s, -e))), r), powr(s, e * r))
    c, m, q = content(p, only_nonneg=True)
    res = const_pow(c, r)
    if m:
        res = mul(res, Poly({tuple((i, e * r) for i, e in m): F1}))
    if len(q.t) == 1:
        return mul(res, powr(q, r))
    if q in PERFECT:
        q0, k = PERFECT[q]
        if k % 2 or is_nonneg(q0):
            return mul(res, powr(q0, k * r))
    a = intern("sum", "", (q,))
    return mul(res, Poly({((a.id, r),): F1}))


def powr_nn(p, e):
    """p^e for p known >= 0 (p a poly that is +-atom)"""
    if e.denominator == 1 and e > 0:
        return ipow(p, e.numerator)
    (m, c), = p.t.items()
    if c > 0:
        return Poly({((m[0][0], e),): F1})
    a = intern("sum", "", (p,))
    return Poly({((a.id, e),): F1})


# ---------------------------------------------------------------- exp / log
def exp(p):
    p = simplify(p)
    res = ONE
    m = {}
    for mono, c in p.t.items():
        if len(mono) == 1 and mono[0][1] == 1 and ATOMS[mono[0][0]].kind == "fn" \
                and ATOMS[mono[0][0]].name == "log":
            arg = ATOMS[mono[0][0]].args[0]
            res = mul(res, powr(arg, c) if not (arg.is_const()) else const_pow(arg.const(), c))
            continue
        a = intern("expm", "", (mono,))
        m[a.id] = m.get(a.id, F0) + c
    mm = tuple(sorted((i, e) for i, e in m.items() if e))
    return mul(res, Poly({mm: F1}))


def log(p):
    p = simplify(p)
    if p.is_const():
        c = p.const()
        if c <= 0:
            raise Unsupported("log of a non-positive constant")
        r = ZERO
        for n, sg in ((c.numerator, 1), (c.denominator, -1)):
            for q, k in factor_int(n):
                a = intern("fn", "log", (const(q),))
                r = add(r, from_atom_c(a, Fraction(k * sg)))
        return r
    c, m, q = content(p, only_nonneg=True)
    r = log(const(c)) if c != 1 else ZERO
    for i, e in m:
        a = ATOMS[i]
        if a.kind == "expm":
            r = add(r, Poly({a.args[0]: e}))
        elif a.kind == "prime":
            r = add(r, scale(log(const(a.args[0])), e))
        elif a.kind == "sum":
            r = add(r, from_atom_c(intern("fn", "log", (a.args[0],)), e))
        else:
            r = add(r, from_atom_c(intern("fn", "log", (from_atom(a),)), e))
    if not (q.is_const() and q.const() == 1):
        r = add(r, from_atom_c(intern("fn", "log", (q,)), F1))
    return r


def from_atom_c(a, c):
    return Poly({((a.id, F1),): c}) if c else ZERO


# ---------------------------------------------------------------- functions
def fn(name, *args):
    args = tuple(simplify(a) for a in args)
    if name == "sin" or name == "cos":
        (x,) = args
        if x.is_zero():
            return ZERO if name == "sin" else ONE
        if len(x.t) == 1:
            (m, c), = x.t.items()
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and ATOMS[m[0][0]].kind == "fn" \
                    and ATOMS[m[0][0]].name == "arctan":
                y = ATOMS[m[0][0]].args[0]
                d = powr(add(ONE, mul(y, y)), Fraction(-1, 2))
                return d if name == "cos" else scale(mul(y, d), c)
        if x.t[lead(x.t)] < 0:
            x = neg(x)
            r = from_atom(intern("fn", name, (x,)))
            return neg(r) if name == "sin" else r
        return from_atom(intern("fn", name, (x,)))
    if name == "tan":
        return mul(fn("sin", args[0]), powr(fn("cos", args[0]), -1))
    if name == "arctan":
        (x,) = args
        if x.is_zero():
            return ZERO
        if x.t[lead(x.t)] < 0:
            return neg(from_atom(intern("fn", name, (neg(x),))))
        return from_atom(intern("fn", name, (x,)))
    return from_atom(intern("fn", name, args))


# ---------------------------------------------------------------- simplification
@functools.lru_cache(maxsize=200000)
def _simplify_cached(p):
    return _simplify(p)


def simplify(p):
    """Cancel sums in denominators (lm*S^-1 -> 1 - rest*S^-1), sin^2 -> 1 - cos^2."""
    need = False
    for m in p.t:
        for i, e in m:
            a = ATOMS[i]
            if (a.kind == "sum" and e < 0) or (a.kind == "fn" and a.name == "sin" and e >= 2):
                need = True
                break
        if need:
            break
    if not need:
        return p
    return _simplify_cached(p)


def _simplify(p):
    for _ in range(200):
        changed = False
        out = ZERO
        todo = p
        acc = {}
        for m, c in todo.t.items():
            r = _rewrite_mono(m)
            if r is None:
                v = acc.get(m, F0) + c
                if v:
                    acc[m] = v
                else:
                    acc.pop(m, None)
            else:
                changed = True
                out = add(out, scale(r, c))
        p = add(out, Poly(acc))
        if not changed:
            break
        if len(p.t) > 600:
            break
    return p


def _rewrite_mono(m):
    d = dict(m)
    for i, e in m:
        a = ATOMS[i]
        if a.kind == "sum" and e < 0:
            s = a.args[0]
            lm = lead(s.t)
            if not lm:
                continue
            ok = True
            for j, f in lm:
                if f < 0 or d.get(j, F0) < f:
                    ok = False
                    break
            if not ok:
                continue
            # mono = lm * w * S^e ; lm = (S - rest)/lc
            w = mul_mono(m, tuple((j, -f) for j, f in lm))
            lc = s.t[lm]
            rest = Poly({k: v for k, v in s.t.items() if k != lm})
            w1 = mul_mono(w, ((i, F1),))
            p1 = fix_mono(w1, 1 / lc)
            p2 = scale(mul(Poly({w: F1}), rest), -1 / lc)
            return add(p1, p2)
        if a.kind == "fn" and a.name == "sin" and e >= 2:
            c = fn("cos", a.args[0])
            w = mul_mono(m, ((i, Fraction(-2)),))
            return mul(Poly({w: F1}), sub(ONE, mul(c, c)))
    return None


def clear_denoms(p):
    """multiply by powers of sum atoms (outermost first) so that no sum atom has a
    negative exponent; returns the resulting poly (zero iff p zero, where defined)."""
    for _ in range(60):
        # choose the deepest sum atom with negative exponent
        best = None
        for m in p.t:
            for i, e in m:
                a = ATOMS[i]
                if a.kind == "sum" and e < 0:
                    if best is None or (a.depth, i) > best[0]:
                        best = ((a.depth, i), i)
        if best is None:
            break
        i = best[1]
        k = min(dict(m).get(i, F0) for m in p.t)
        p = mul(p, Poly({((i, -k),): F1})) if True else p
        if len(p.t) > 3000:
            raise Unsupported("zero test too large")
    return p


def is_zero(p):
    """sound zero test (True means provably the zero function where defined)."""
    if not p.t:
        return True
    p = simplify(p)
    if not p.t:
        return True
    if len(p.t) == 1:
        return False
    try:
        p = clear_denoms(p)
    except Unsupported:
        return False
    p = simplify(p)
    p = _unify_neg_sums(p)
    if not p.t:
        return True
    p2 = _fold_sums(p)
    return not p2.t


def _unify_neg_sums(p):
    ids = {i for m in p.t for i, e in m if ATOMS[i].kind == "sum"}
    rw = {}
    for i in ids:
        q = neg(ATOMS[i].args[0])
        key = ("sum", "", (q,))
        b = _TABLE.get(key)
        if b is not None and b.id in ids and i not in rw.values() and b.id not in rw:
            # does i occur with integer exponents only?
            if all(e.denominator == 1 for m in p.t for j, e in m if j == i):
                rw[i] = b.id
    if not rw:
        return p
    out = ZERO
    for m, c in p.t.items():
        d = {}
        for i, e in m:
            if i in rw:
                if e.numerator % 2:
                    c = -c
                i = rw[i]
            d[i] = d.get(i, F0) + e
        out = add(out, fix_mono(tuple(sorted((i, e) for i, e in d.items() if e)), c))
    return clear_denoms(out)


def _fold_sums(p):
    """expand integer parts of large sum powers (>6)"""
    out = ZERO
    for m, c in p.t.items():
        big = [(i, e) for i, e in m if ATOMS[i].kind == "sum" and e >= 7]
        if not big:
            out = add(out, Poly({m: c}))
            continue
        return p
    return out


# ---------------------------------------------------------------- rebuild / substitute
def rebuild(p, sub_atoms=None, memo=None):
    """Re-normalise p bottom-up under the current context, substituting atoms
    (dict atom id -> Poly)."""
    if memo is None:
        memo = {}
    if sub_atoms is None:
        sub_atoms = {}
    return _rb(p, sub_atoms, memo)


def _rb(p, sa, memo):
    r = memo.get(p)
    if r is not None:
        return r
    out = ZERO
    for m, c in p.t.items():
        out = add(out, scale(_rbm(m, sa, memo), c))
    out = simplify(out)
    memo[p] = out
    return out


def _rbm(m, sa, memo):
    r = ONE
    for i, e in m:
        b = _rba(i, sa, memo)
        r = mul(r, powr(b, e))
    return r


def _rba(i, sa, memo):
    if i in sa:
        return sa[i]
    k = ("a", i)
    r = memo.get(k)
    if r is not None:
        return r
    a = ATOMS[i]
    if a.kind in ("var", "prime"):
        r = from_atom(a) if a.kind == "var" else const(a.args[0])
    elif a.kind == "sum":
        r = _rb(a.args[0], sa, memo)
    elif a.kind == "expm":
        r = exp(_rbm(a.args[0], sa, memo))
    elif a.name == "log":
        r = log(_rb(a.args[0], sa, memo))
    else:
        r = fn(a.name, *[(_rb(x, sa, memo) if isinstance(x, Poly) else x) for x in a.args])
    memo[k] = r
    return r


def atoms_of(p, acc=None):
    """all atom ids, transitively"""
    if acc is None:
        acc = set()
    for m in p.t:
        _am(m, acc)
    return acc


def _am(m, acc):
    for i, e in m:
        if i in acc:
            continue
        acc.add(i)
        for x in ATOMS[i].args:
            if isinstance(x, Poly):
                atoms_of(x, acc)
            elif isinstance(x, tuple):
                _am(x, acc)


def vars_of(p):
    return {ATOMS[i].name for i in atoms_of(p) if ATOMS[i].kind == "var"}
