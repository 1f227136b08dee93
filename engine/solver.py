"""SMT back ends: z3 (incremental, in-process) and cvc5 (through SMT-LIB text) over
nonlinear real arithmetic, with the atoms of a normal form as real unknowns plus the
sound axioms listed in `_axioms_for` (logarithms, exponentials, roots)."""
from fractions import Fraction
import math
import subprocess
import time
import z3
from . import nf
from .nf import ATOMS, F0, F1, POS, NONNEG

STATS = {"z3_calls": 0, "z3_time": 0.0, "cvc5_calls": 0, "cvc5_time": 0.0}

# rational enclosures
PI_LO, PI_HI = Fraction(314159265358979, 10**14), Fraction(314159265358980, 10**14)


def _log_bounds(n):
    v = math.log(n)
    return Fraction(v) - Fraction(1, 10**12), Fraction(v) + Fraction(1, 10**12)


def zq(fr):
    return z3.RatVal(fr.numerator, fr.denominator)


class Z3Ctx:
    def __init__(self, ctx):
        self.ctx = ctx
        self.s = z3.SolverFor("QF_NRA") if False else z3.Solver()
        self.av = {}      # atom id -> z3 var
        self.rv = {}      # (atom id, frac) -> z3 var
        self.iv = {}      # atom id -> inverse var
        self.lv = {}      # atom id (positive) -> log var
        self.n = 0

    # -- variables
    def atom(self, i):
        v = self.av.get(i)
        if v is not None:
            return v
        a = ATOMS[i]
        if a.kind == "fn" and a.name == "log":
            v = self._log_of(a.args[0])
            if v is not None:
                self.av[i] = v
                return v
        v = z3.Real("a%d" % i)
        self.av[i] = v
        self._axioms_for(a, i, v)
        return v

    def _log_of(self, p):
        if p.is_const():
            c = p.const()
            v = z3.Real("lnc_%s_%s" % (c.numerator, c.denominator))
            lo, hi = _log_bounds(c)
            self.s.add(v > zq(lo), v < zq(hi))
            return v
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return self.logvar(m[0][0])
        # log of a sum: find the sum atom
        a = nf.intern("sum", "", (p,))
        return self.logvar(a.id)

    def logvar(self, i):
        v = self.lv.get(i)
        if v is not None:
            return v
        v = z3.Real("L%d" % i)
        self.lv[i] = v
        a = ATOMS[i]
        x = self.atom(i)
        if a.kind == "expm":
            self.s.add(v == self.poly(nf.Poly({a.args[0]: F1})))
        elif a.kind == "prime":
            lo, hi = _log_bounds(a.args[0])
            self.s.add(v > zq(lo), v < zq(hi))
            return v
        # x > 0 wherever log x occurs
        self.s.add(x > 0)
        self.s.add(z3.Implies(x > 1, v > 0), z3.Implies(x < 1, v < 0), z3.Implies(x == 1, v == 0))
        self.s.add(v <= x - 1)
        self.s.add(x * v >= x - 1)
        return v

    def _axioms_for(self, a, i, v):
        if a.kind == "var":
            if a.name == "pi":
                self.s.add(v > zq(PI_LO), v < zq(PI_HI))
                return
            b = self.ctx.dom.b.get(a.name)
            if b:
                lo, ls, hi, hs = b
                if lo is not None:
                    self.s.add(v > zq(lo) if ls else v >= zq(lo))
                if hi is not None:
                    self.s.add(v < zq(hi) if hs else v <= zq(hi))
            s = self.ctx.extra_dom.get(a.name)
            if s == POS:
                self.s.add(v > 0)
            elif s == NONNEG:
                self.s.add(v >= 0)
        elif a.kind == "prime":
            self.s.add(v == a.args[0])
        elif a.kind == "expm":
            self.s.add(v > 0)
            m = a.args[0]
            L = self.poly(nf.Poly({m: F1}))
            # e^L >= 1 + L ; sign links
            self.s.add(v >= 1 + L)
            self.s.add(z3.Implies(L > 0, v > 1), z3.Implies(L < 0, v < 1), z3.Implies(L == 0, v == 1))
            if not m:
                self.s.add(v > zq(Fraction(2718281828, 10**9)), v < zq(Fraction(2718281829, 10**9)))
        elif a.kind == "sum":
            self.s.add(v == self.poly(a.args[0]))
        elif a.kind == "fn":
            if a.name in ("sin", "cos"):
                self.s.add(v >= -1, v <= 1)
            elif a.name == "floor":
                x = self.poly(a.args[0])
                k = z3.Int("fl%d" % i)
                self.s.add(v == z3.ToReal(k), v <= x, x < v + 1)
            elif a.name.startswith("round"):
                n = int(a.name[5:])
                x = self.poly(a.args[0])
                h = Fraction(1, 2 * 10**n)
                self.s.add(v - x <= zq(h), x - v <= zq(h))
            else:
                if self.ctx.atom_sign(a) == POS:
                    self.s.add(v > 0)

    def inv(self, i):
        v = self.iv.get(i)
        if v is None:
            x = self.atom(i)
            v = z3.Real("i%d" % i)
            self.iv[i] = v
            self.s.add(v * x == 1)
        return v

    def root(self, i, f):
        """a^f, 0<f<1"""
        v = self.rv.get((i, f))
        if v is None:
            x = self.atom(i)
            v = z3.Real("r%d_%d_%d" % (i, f.numerator, f.denominator))
            self.rv[(i, f)] = v
            self.s.add(v >= 0, x >= 0)
            if f.denominator <= 4:
                lhs = v
                for _ in range(f.denominator - 1):
                    lhs = lhs * v
                rhs = x
                for _ in range(f.numerator - 1):
                    rhs = rhs * x
                self.s.add(lhs == rhs)
            else:
                self.s.add(z3.Implies(x > 1, z3.And(v > 1, v < x)),
                           z3.Implies(z3.And(x > 0, x < 1), z3.And(v < 1, v > x)),
                           z3.Implies(x == 1, v == 1), (x > 0) == (v > 0))
                # v^d = x^n is too large; relate different roots of one atom by order
                for (j, g), w in self.rv.items():
                    if j == i and g != f:
                        lo, hi = (v, w) if f < g else (w, v)
                        self.s.add(z3.Implies(x > 1, lo < hi), z3.Implies(z3.And(x > 0, x < 1), lo > hi))
        return v

    def mono(self, m):
        r = None
        for i, e in m:
            fl = e.numerator // e.denominator
            f = e - fl
            parts = []
            if f:
                parts.append(self.root(i, f))
            if fl > 0:
                x = self.atom(i)
                parts += [x] * min(fl, 60)
                if fl > 60:
                    return z3.Real("big%d" % hash(m))
            elif fl < 0:
                x = self.inv(i)
                if -fl > 60:
                    return z3.Real("big%d" % hash(m))
                parts += [x] * (-fl)
            for x in parts:
                r = x if r is None else r * x
        return r

    def poly(self, p):
        terms = []
        for m, c in p.t.items():
            if not m:
                terms.append(zq(c))
            else:
                x = self.mono(m)
                terms.append(x if c == 1 else zq(c) * x)
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def lit(self, l):
        p, op = l
        x = self.poly(p)
        f = {">": x > 0, ">=": x >= 0, "==": x == 0, "!=": x != 0}[op]
        out = [f]
        if len(p.t) == 2 and op in (">", ">=", "=="):
            (m1, c1), (m2, c2) = p.t.items()
            if (c1 > 0) != (c2 > 0) and nf.mono_sign(m1) == POS and nf.mono_sign(m2) == POS:
                if c1 < 0:
                    m1, c1, m2, c2 = m2, c2, m1, c1
                L = nf.sub(nf.log(nf.Poly({m1: c1})), nf.log(nf.Poly({m2: -c2})))
                y = self.poly(L)
                out.append({">": y > 0, ">=": y >= 0, "==": y == 0}[op])
        return z3.And(*out) if len(out) > 1 else f

    def add(self, l):
        self.s.add(self.lit(l))

    def check_with(self, lits, rlimit, timeout_ms=2000):
        fs = [self.lit(l) for l in lits]
        self.s.push()
        t0 = time.time()
        try:
            self.s.set("rlimit", int(rlimit))
            self.s.set("timeout", int(timeout_ms))
            for f in fs:
                self.s.add(f)
            r = self.s.check()
            STATS["z3_calls"] += 1
            return str(r) if str(r) in ("sat", "unsat") else "unknown"
        finally:
            STATS["z3_time"] += time.time() - t0
            self.s.pop()

    def model_with(self, lits, rlimit=2000000, timeout_ms=4000):
        """a model as dict var name -> float (inputs only), or None"""
        fs = [self.lit(l) for l in lits]
        self.s.push()
        try:
            self.s.set("rlimit", int(rlimit))
            self.s.set("timeout", int(timeout_ms))
            for f in fs:
                self.s.add(f)
            if self.s.check() != z3.sat:
                return None
            m = self.s.model()
            out = {}
            for i, v in self.av.items():
                a = ATOMS[i]
                if a.kind == "var" and not a.name.startswith("_"):
                    x = m.eval(v, model_completion=True)
                    try:
                        if z3.is_rational_value(x):
                            out[a.name] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
                        else:
                            out[a.name] = float(x.approx(20).as_fraction())
                    except Exception:
                        pass
            return out
        finally:
            self.s.pop()

    def smt2_with(self, lits):
        fs = [self.lit(l) for l in lits]
        self.s.push()
        try:
            for f in fs:
                self.s.add(f)
            return self.s.to_smt2()
        finally:
            self.s.pop()


def cvc5_check(smt2, timeout_s=10):
    t0 = time.time()
    STATS["cvc5_calls"] += 1
    try:
        txt = "(set-logic QF_NRA)\n" + smt2
        r = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % int(timeout_s * 1000), "-"],
                           input=txt, capture_output=True, text=True, timeout=timeout_s + 5)
        out = r.stdout.strip().split("\n")[0] if r.stdout.strip() else "unknown"
        return out if out in ("sat", "unsat") else "unknown"
    except Exception:
        return "unknown"
    finally:
        STATS["cvc5_time"] += time.time() - t0
