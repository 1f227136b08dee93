"""Symbolic execution of lemmas: generation and discharge of obligations."""
from fractions import Fraction
import ast
import math
import os
import time
import traceback
from . import nf, sym, shim, loader, core, solver
from .nf import Unsupported, ATOMS, POS
from .sym import Sym, SymBool, SymArr, SymList, NAN, PathInfeasible, Budget
from .core import PKG, histories

CHECK = (PKG + "core_utility", "check_variable_validity_range")


def _kh(w, h, g):
    """wave number = X(w^2 h / g) / h: the positive root of x tanh x = w^2 h / g is a function of that number"""
    x = nf.mul(nf.mul(nf.mul(w, w), h), nf.powr(g, -1))
    return nf.mul(nf.fn("disper_x", x), nf.powr(h, -1))


def _disper(w=None, h=None, g=None, *a, **k):
    """assumed contract of deltares_wave_toolbox disper: one positive wave number per
    (w, h, g), the root X of the dimensionless dispersion relation at w^2 h/g divided by h, w^2/g for a depth of 1e10 m and more.  Scalars give a length-1 array."""
    g = Sym.of(Fraction(981, 100)) if g is None else g
    def one(w, h, g):
        if h.p.is_const() and h.p.const() >= 10 ** 10:    # deep water
            return w * w / g
        return Sym(_kh(w.p, h.p, g.p), w.wd | h.wd | g.wd)
    r = shim.lift(one, [w, h, g])
    if isinstance(r, Sym):
        return shim._array([r])
    return r


loader.External.contracts["deltares_wave_toolbox.cores.core_dispersion.disper"] = _disper


def _check_stub(b, f):
    c = sym.CUR
    vals = list(b.values())
    names = list(b)
    c.events.append(tuple(vals))
    return shim.MList()


_check_stub.always = True


def _opaque(fname, spec, elementwise=False):
    """contract `the result is a number (positive, if so declared) determined by the arguments`;
    elementwise: of arrays, an array of such numbers"""
    nout, positive = spec if isinstance(spec, tuple) else (spec, False)

    def stub(b, real):
        tag = fname.replace(":", ".")
        xs = []
        if fname in core.CANON:
            b = core.CANON[fname](dict(b), lambda t: Sym(nf.const(Fraction(t))))
            if not isinstance(b, dict):
                return b
        arr = False
        for k, v in b.items():
            if isinstance(v, SymArr) and isinstance(v.e, (Sym, float)) and elementwise:
                v, arr = v.e, True
            if isinstance(v, Sym):
                xs.append(v)
            elif isinstance(v, (SymArr, SymList)) and isinstance(v.e, Sym):
                raise Unsupported("array argument of " + fname)
            elif isinstance(v, float):
                tag += "|%s=%r" % (k, v)
            elif v is None or isinstance(v, (bool, str)):
                tag += "|%s=%r" % (k, v)
            elif isinstance(v, (int, Fraction)):
                xs.append(Sym.of(v))
            else:
                raise Unsupported("argument %s of %s" % (k, fname))
        out = []
        for i in range(nout):
            nm = "opq_%s#%d" % (tag, i)
            if positive:
                sym.POS_FNS.add(nm)
            r = sym.s_fn(nm, *xs)
            out.append(SymArr(r) if arr else r)
        return out[0] if nout == 1 else tuple(out)
    stub.always = True
    return stub


class Obl:
    __slots__ = ("label", "ok", "why", "by", "path", "model", "detail")

    def __init__(self, label, ok, why="", by="nf"):
        self.label, self.ok, self.why, self.by = label, ok, why, by
        self.path = None
        self.model = None
        self.detail = None


class MSym:
    symbolic = True

    def __init__(self, prover, ctx, lem):
        self.P = prover
        self.ctx = ctx
        self.lem = lem
        self.obls = []
        self.calls = set()

    # ---- vocabulary
    nan = NAN
    inf = float("inf")

    @property
    def pi(self):
        return shim.PI()

    def const(self, txt):
        if txt in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[txt]
        if txt in ("nan", "inf"):
            return float(txt)
        if txt[0] in "'\"":
            return ast.literal_eval(txt)
        return Sym(nf.const(Fraction(txt)), ty="float" if ("." in txt or "e" in txt) else "int")

    def q(self, a, b=1):
        return Sym(nf.const(Fraction(int(a), int(b))))

    def fn(self, name, *args):
        """uninterpreted function symbol (shared by code-side contract and spec)"""
        return sym.s_fn(name, *[Sym.of(a) for a in args])

    def round(self, x, n=0):
        return sym.s_round(Sym.of(x), n)

    def floor(self, x):
        return sym.s_floor(Sym.of(x))

    def disper_k(self, w, h, g):
        return Sym(_kh(Sym.of(w).p, Sym.of(h).p, Sym.of(g).p))

    def isnan(self, x):
        return isinstance(x, float) and x != x

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(shim.NP, n)

    def min(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = shim.lift(shim._mm("min"), [r, x])
        return r

    def max(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = shim.lift(shim._mm("max"), [r, x])
        return r

    def spec(self, fname):
        s = core.SPECS[fname]
        return lambda *a, **k: s(self, *a, **k)

    # ---- calling the real code
    def code(self, fname):
        mod, f = fname.split(":")
        self.calls.add(fname)
        try:
            m = self.P.ld.load(PKG + mod)
            g = getattr(m, f)
        except (AttributeError, ImportError):
            raise Unsupported("no function %s in the repository" % fname)

        def call(*a, **k):
            self.P.ld.depth = 0
            return g(*a, **k)
        return call

    code0 = code

    def attempt(self, f, **args):
        return f(**args)

    def aslist(self, x):
        x = self._norm(x)
        if isinstance(x, (list, tuple)):
            return [self._norm(y) for y in x]
        return [x]

    def nwarn(self):
        return len(self.ctx.warns)

    def take_events(self):
        ev = list(self.ctx.events)
        self.ctx.events = []
        return ev

    def representable(self, *xs):
        """concrete runs skip values that left the range of doubles; no meaning over the reals"""

    def assume_defined(self, x):
        x = self._norm(x)
        if isinstance(x, (tuple, list)):
            for y in x:
                self.assume_defined(y)
            return
        if isinstance(x, float):
            raise PathInfeasible()
        if isinstance(x, Sym):
            for l in x.wd:
                if l[0] == "FALSE":
                    raise PathInfeasible()
                c = sym.canon_lit(nf.rebuild(l[0]), l[1])
                if c is False:
                    raise PathInfeasible()
                if c is not True and self.ctx._lit_known(c) is not True:
                    self.ctx._learn(c)

    def ensure_defined(self, label, x):
        x = self._norm(x)
        if isinstance(x, float):
            self.obls.append(Obl(label, False, "value is %r" % x))
            return
        ok, why = self.P.prove_wd(self.ctx, Sym.of(x).wd, ())
        self.obls.append(Obl(label, bool(ok), why, "numeric" if ok is None else "nf"))

    def ensure_le(self, label, a, b):
        a, b = self._norm(a), self._norm(b)
        if isinstance(a, float) or isinstance(b, float):
            c = SymBool.of(a <= b)
        else:
            c = SymBool.of(Sym.of(a) <= Sym.of(b))
        self.ensure(label, c)

    def loops(self):
        return self.ctx.loops

    def clear_loops(self):
        del self.ctx.loops[:]

    def _counters(self, L):
        """loop variables that start at a known number and grow by one per iteration -> iterations done"""
        out = []
        for k, v0 in L.entry.items():
            vs = [h.get(k) for h in L.heads]
            if not (isinstance(v0, Sym) and v0.p.is_const()) or not all(isinstance(v, Sym) for v in vs):
                continue
            one = [nf.is_zero(nf.sub(nf.sub(b.p, a.p), nf.ONE)) for a, b in zip(vs, vs[1:])]
            if all(one):
                out.append((vs[0] - v0, vs[-1] - v0))
            elif L.left and len(vs) > 2 and all(one[:-1]) and nf.is_zero(nf.sub(vs[-1].p, vs[-2].p)):
                out.append((vs[0] - v0, vs[-2] - v0 + 1))       # left before the counter moved
        return out

    def converged(self, label, got, first, step, tol, max_iter, x0=None, post=None, size=lambda x: x):
        """got is an iterate of x -> step(x) started with first(), and the iteration stopped because two
        successive iterates (their size) differ by at most tol or because max_iter iterations were made;
        got = post(last iterate)"""
        got = self._norm(got)
        if isinstance(got, SymArr):
            got = got.e
        loops = [L for L in self.ctx.loops if L.mode]
        for L in loops:
            if L.mode == 2:
                cs = self._counters(L)
                self.obls.append(Obl(label + ": the iteration is counted", bool(cs), "no loop variable counts the iterations of %s" % L.key, "numeric"))
                if cs:
                    f = None
                    for a, b in cs:
                        c = b - 1 < max_iter       # counts are whole numbers: b <= max_iter
                        f = c if f is None else (f | c)
                    self.ensure(label + ": at most max_iter iterations", f)
                    if L.left and not self.obls[-1].ok:
                        self.obls[-1].by = "numeric"          # the last, partial pass may not be an iteration
        fails = []
        for L in reversed(loops):
            cs = self._counters(L)
            if L.mode == 1:
                cands = [(None, first())] if x0 is None else [(x0, first())]
            else:
                seen, cands = [], []
                for k, w in L.heads[-2].items():
                    if isinstance(w, SymArr):
                        w = w.e
                    if not isinstance(w, Sym) or w.p.is_const() or any(nf.is_zero(nf.sub(w.p, x)) for x in seen):
                        continue
                    if any(nf.is_zero(nf.sub(w.p, (a + 1).p)) or nf.is_zero(nf.sub(w.p, a.p)) for a, b in cs):
                        continue
                    seen.append(w.p)
                    cands.append((w, None))
            for w, x in cands:
                x = self._norm(step(w) if x is None else x)
                if isinstance(x, SymArr):
                    x = x.e
                y = self._norm(post(x)) if post else x
                if isinstance(y, SymArr):
                    y = y.e
                d = nf.sub(got.p, y.p)
                if not nf.is_zero(d) and not nf.is_zero(nf.rebuild(d)):
                    fails.append(_short(d))
                    continue
                self.obls.append(self.P.prove_eq(self.ctx, label + ": last iterate", got, y))
                f = None
                if w is not None:
                    f = abs((size(x) if post else got) - size(w)) <= tol
                for a, b in cs:
                    c = b >= max_iter
                    f = c if f is None else (f | c)
                if f is None:
                    f = SymBool("const", False)
                self.ensure(label + ": stopped by tolerance or max_iter", f)
                return
        if not loops:
            raise Unsupported("no loop was executed")
        self.obls.append(Obl(label + ": last iterate", False, "the result is not an iterate of the documented step: " + "; ".join(fails[:3]), "numeric"))

    def elementwise(self, fname, names, args):
        """an array call gives, at every index, the scalar call's value"""
        f = self.code(fname)
        a = dict(args)
        for n in names:
            a[n] = SymArr(args[n])
        got = f(**a)
        want = f(**args)
        self._eq("array result, element by element", got, want)

    def exported(self, fname, names, args, ext, want, sep, header, index, comments, default_name=False):
        """the file written by fname: <output_dir>/<file_name><ext>, optional comment lines, then one record per input
        combination holding the values `want` (argument names) in that order, unrounded; nothing else is written, an
        earlier file of that name is replaced, the inputs are left as they are"""
        f = self.code(fname)
        a = dict(args)
        for n in names:
            a[n] = SymArr(args[n])
        if default_name:
            del a["file_name"]
        fs = self.ctx.files
        path = "%s/%s%s" % (args["output_dir"], args["file_name"], ext)
        fs.clear()
        fs[path] = ["an earlier file"]
        r = f(**a)
        add = lambda l, ok, d="": self.obls.append(Obl(l, ok, d))     # noqa: E731
        add("one file, of the requested name", list(fs) == [path], "files written: %s" % list(fs))
        seg = fs.get(path, [])
        txt = "".join(x for x in seg if isinstance(x, str))
        if not seg or not isinstance(seg[-1], dict) or any(isinstance(x, dict) for x in seg[:-1]):
            raise Unsupported("records not written by DataFrame.to_csv")
        t = seg[-1]
        lines = txt.split("\n")
        add("only comment lines before the records", (not txt) if not comments else lines[-1] == "" and all(x[:1] in comments for x in lines[:-1]), repr(txt[-80:]))
        add("separator", t["sep"] == sep, repr(t["sep"]))
        add("header", t["header"] == header, repr(t["header"]))
        add("record numbers", t["index"] == index and t["index_label"] == "", repr(t["index"]))
        add("numbers are not rounded", t["exact"])
        add("number of columns", len(t["columns"]) == len(want), "%d columns" % len(t["columns"]))
        for i, (n, v) in enumerate(zip(want, t["columns"])):
            if isinstance(v, SymArr):
                add("one record per combination", n in names, "column %d" % (i + 1))
                v = v.e
            self.ensure_eq("column %d holds %s" % (i + 1, n), v, args[n])
        for n in names:
            e = a[n].e
            add("input %s is not modified" % n, isinstance(e, Sym) and e.p == args[n].p, "element is now %s" % _short(e))
        add("nothing is returned", r is None)

    def pure(self, fname, names, args, others=(), repeat=True):
        """inputs are not modified; no state is kept that a later call depends on; a second call gives the same"""
        f = self.code(fname)
        a = dict(args)
        for n in names:
            a[n] = SymArr(args[n])
        st = self.P.ld.state
        r1 = f(**a)
        for n in names:
            e = a[n].e
            self.obls.append(Obl("input %s is not modified" % n, isinstance(e, Sym) and e.p == args[n].p,
                                 "element is now %s" % _short(e)))
        if repeat:
            self._eq("repeated call gives the same result", f(**a), r1)
        left = st.changed()
        if not repeat:
            # a second run of a cut loop has arbitrary values of its own: nothing to compare, so nothing may be kept
            if left:
                raise Unsupported("the call keeps state: %s" % ", ".join(left))
            self.obls.append(Obl("nothing is kept for a later call", True, ""))
            return
        if names and not left:
            st.restore()
            if not self._scalar_state(f, args, st):
                return
            left = st.changed()
        if not left:
            return
        # the call leaves something behind: it may not matter to any later call
        st.restore()
        n0 = len(self.obls)
        self.clear_events()
        fresh = self.attempt(f, **args)
        ev0 = self.take_events()
        for h in histories(args, others):
            st.restore()
            self.attempt(f, **h)
            self.clear_events()
            again = self.attempt(f, **args)
            ev = self.take_events()
            self._eq("result does not depend on an earlier call (%s is kept)" % ", ".join(left), again, fresh)
            self.obls.append(Obl("range checks do not depend on an earlier call", len(ev) == len(ev0), "%d checks, %d without the earlier call" % (len(ev), len(ev0))))
        if all(o.ok for o in self.obls[n0:]):
            raise Unsupported("the call keeps state: %s" % ", ".join(left))

    def _scalar_state(self, f, args, st):
        """does a call with scalars leave state behind"""
        self.attempt(f, **args)
        return bool(st.changed())

    def array(self, x):
        return SymArr(x)

    def elem(self, a):
        """generic element of an array result"""
        if isinstance(a, SymArr):
            return a.e
        if isinstance(a, (SymList,)):
            return a.e
        if isinstance(a, shim.MList) and a.gen is not None:
            return a.gen[0]
        return a

    def events(self):
        return list(self.ctx.events)

    def clear_events(self):
        self.ctx.events = []
        self.ctx.warns = []

    def warned(self):
        return len(self.ctx.warns)

    def expect(self, exc, f, *a, **k):
        """True iff f raises exc"""
        try:
            f(*a, **k)
        except exc:
            return True
        return False

    # ---- obligations
    def assume(self, c):
        self.ctx.assume(SymBool.of(c) if not isinstance(c, SymBool) else c)

    def require_feasible(self):
        pass

    def ensure(self, label, c):
        if not isinstance(c, SymBool):
            self.obls.append(Obl(label, bool(c), "condition is false on this path"))
            return
        self.obls.append(self.P.prove_formula(self.ctx, label, c))

    def ensure_eq(self, label, a, b, tol=None, **kw):
        self._eq(label, a, b)

    def ensure_close(self, label, a, b, rel, **kw):
        """|a/b - 1| <= rel (b > 0)"""
        r = Sym.of(rel)
        a, b = self.elem(a), self.elem(b)
        if isinstance(a, float) or isinstance(b, float):
            self.obls.append(Obl(label, False, "nan"))
            return
        q = a / b
        if nf.is_zero(nf.sub(a.p, b.p)):
            self.obls.append(Obl(label, True))
            return
        p = nf.simplify(q.p)
        if all(ATOMS[i].kind == "prime" for mn in p.t for i, e in mn):
            v = evalf(p, {})
            self.obls.append(Obl(label, abs(v - 1) <= float(r.cval()), "ratio %r" % v, "numeric constant"))
            return
        self.obls.append(self.P.prove_formula(self.ctx, label, sym.b_and(
            SymBool.of(q <= 1 + r), SymBool.of(q >= 1 - r))))

    def match_events(self, label, ev, expected, subset=False):
        """the range checks performed are exactly (subset: include) the expected triples"""
        got = []
        for e in ev:
            # (name, formula, values, lo, hi) in declaration order
            v, lo, hi = e[2], e[3], e[4]
            got.append((self.elem(v), lo, hi))
        exp = [(self.elem(v), lo, hi) for v, lo, hi in expected]
        exp = [x for x in exp if not (isinstance(x[0], float) and x[0] != x[0])]
        got = [x for x in got if not (isinstance(x[0], float) and x[0] != x[0])]
        for x in exp:
            ok = any(self._same_event(x, y) for y in got)
            self.obls.append(Obl("%s: range of %s in [%s, %s] is monitored" % (label, _short(x[0]), _short(x[1]), _short(x[2])), ok,
                                 "no such range check is made; made: %s" % [(_short(g[0]), _short(g[1]), _short(g[2])) for g in got][:12]))
        if subset:
            return
        if not exp and not got:
            self.obls.append(Obl("%s: none is expected and none is made" % label, True, ""))
        for y in got:
            ok = any(self._same_event(x, y) for x in exp)
            self.obls.append(Obl("%s: no undocumented range check" % label, ok,
                                 "range check of %s in [%s,%s] not in the contract" % (_short(y[0]), _short(y[1]), _short(y[2]))))

    def _same_event(self, x, y):
        for a, b in zip(x, y):
            fa, fb = isinstance(a, float), isinstance(b, float)
            if fa or fb:
                if not (fa and fb and a == b):
                    return False
                continue
            if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
                return False
            if not self.P.equal(self.ctx, Sym.of(a), Sym.of(b)):
                return False
        return True

    def _eq(self, label, a, b):
        a = self._norm(a)
        b = self._norm(b)
        if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
            if not (isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b)):
                self.obls.append(Obl(label, False, "shapes differ: %s vs %s" % (_short(a), _short(b))))
                return
            for k, (x, y) in enumerate(zip(a, b)):
                self._eq("%s[%d]" % (label, k), x, y)
            return
        if isinstance(b, dict):
            if not isinstance(a, dict) or list(a) != list(b):
                self.obls.append(Obl(label, False, "keys differ: %s vs %s" % (a if not isinstance(a, dict) else list(a), list(b))))
                return
            for k in b:
                self._eq("%s[%s]" % (label, k), a[k], b[k])
            return
        if isinstance(b, float) and math.isfinite(b) and isinstance(a, Sym):
            b = Sym(nf.const(Fraction(repr(float(b)))))
        if isinstance(a, (bool, SymBool)) or isinstance(b, (bool, SymBool)):
            if isinstance(a, (Sym, float)) or isinstance(b, (Sym, float)) or a is None or b is None:
                self.obls.append(Obl(label, False, "types differ"))
                return
            va = bool(a)
            vb = bool(b)
            self.obls.append(Obl(label, va == vb, "code gives %s, contract %s" % (va, vb), "nf+path"))
            return
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            self.obls.append(Obl(label, a == b if not isinstance(a, Sym) else False, "%s vs %s" % (_short(a), _short(b))))
            return
        if isinstance(a, float) or isinstance(b, float):
            ok = isinstance(a, float) and isinstance(b, float) and ((a != a and b != b) or a == b)
            self.obls.append(Obl(label, ok, "%s vs %s" % (_short(a), _short(b))))
            return
        o = self.P.prove_eq(self.ctx, label, Sym.of(a), Sym.of(b))
        self.obls.append(o)

    def _norm(self, x):
        import numpy as np
        if isinstance(x, SymArr):
            return x.e
        if isinstance(x, SymList):
            return x.e
        if isinstance(x, shim.MList) and x.gen is not None:
            return x.gen[0]
        if isinstance(x, np.ndarray):
            if x.shape == ():
                return x[()]
            return list(x)
        return x


def _short(x):
    s = repr(x) if not isinstance(x, Sym) else repr(x.p)
    return s if len(s) < 300 else s[:300] + "..."


# ---------------------------------------------------------------- numeric evaluation
def evalf(p, env):
    tot = 0.0
    for mn, c in p.t.items():
        v = float(c)
        for i, e in mn:
            v *= _evatom(i, env) ** float(e)
        tot += v
    return tot


def evalf2(p, env):
    tot = mag = 0.0
    for mn, c in p.t.items():
        v = float(c)
        for i, e in mn:
            v *= _evatom(i, env) ** float(e)
        tot += v
        mag += abs(v)
    return tot, mag


def _evatom(i, env):
    a = ATOMS[i]
    if a.kind == "var":
        if a.name == "pi":
            return math.pi
        return env[a.name]
    if a.kind == "prime":
        return float(a.args[0])
    if a.kind == "sum":
        return evalf(a.args[0], env)
    if a.kind == "expm":
        return math.exp(evalf(nf.Poly({a.args[0]: nf.F1}), env))
    xs = [evalf(x, env) for x in a.args]
    f = {"log": math.log, "sin": math.sin, "cos": math.cos, "arctan": math.atan,
         "floor": math.floor, "trunc": math.trunc}.get(a.name)
    if f:
        return f(*xs)
    if a.name.startswith("round"):
        return round(xs[0], int(a.name[5:]))
    if a.kind == "fn" and (a.name in sym.POS_FNS or a.name.startswith("arr") or a.name.startswith("opq_")):
        import hashlib
        h = hashlib.sha256((a.name + "|" + ",".join("%.8g" % x for x in xs)).encode()).digest()
        return 0.2 + int.from_bytes(h[:4], "big") / 2 ** 32 * 3
    raise KeyError(a.name)


def lit_holds(l, env):
    try:
        v = evalf(l[0], env)
    except Exception:
        return None
    if isinstance(v, complex) or v != v:
        return None
    return {">": v > 0, ">=": v >= 0, "==": abs(v) < 1e-9, "!=": v != 0}[l[1]]


def ev_bool(f, env):
    if f.k == "const":
        return f.a
    if f.k == "lit":
        return lit_holds(f.a, env)
    if f.k == "not":
        v = ev_bool(f.a, env)
        return None if v is None else not v
    if f.k in ("and", "or"):
        a, b = ev_bool(f.a[0], env), ev_bool(f.a[1], env)
        if a is None or b is None:
            return None
        return (a and b) if f.k == "and" else (a or b)
    return None


class Prover:
    def __init__(self, stubs=None, rlimit=100000, deadline_s=120, max_paths=3000):
        st = {CHECK: _check_stub}
        st.update(stubs or {})
        self.ld = loader.Loader(st)
        self.lem = None
        self.rlimit = rlimit
        self.deadline_s = deadline_s
        self.max_paths = max_paths

    # ---- discharge
    def equal(self, ctx, a, b):
        d = nf.sub(a.p, b.p)
        if nf.is_zero(d):
            return True
        d = nf.rebuild(d)
        return nf.is_zero(d)

    def prove_wd(self, ctx, lits, given):
        """every literal of lits follows from the path, the domain and `given`"""
        rest = []
        for l in lits:
            if l in given:
                continue
            if l[0] == "FALSE":
                return False, "undefined operation (division by zero, or power/log of an invalid base)"
            c = sym.canon_lit(nf.rebuild(l[0]), l[1])
            if c is True:
                continue
            if c is False:
                return False, "undefined: %s %s 0 is false" % (_short(l[0]), l[1])
            if any(_weaker(c, sym.canon_lit(nf.rebuild(g[0]), g[1])) for g in given if g[0] != "FALSE"):
                continue
            k = nf.poly_sign(c[0])
            if k == nf.POS and c[1] in (">", ">=", "!=") or k == nf.NONNEG and c[1] == ">=" or k == nf.NEG and c[1] == "!=":
                continue
            rest.append(c)
        if not rest:
            return True, ""
        z = solver.Z3Ctx(ctx)
        for l in ctx.lits:
            z.add(l)
        for g in given:
            if g[0] != "FALSE":
                z.add(g)
        for l in rest:
            if ctx._lit_known(l) is True or ctx.by_fact(l):
                continue
            r = z.check_with([sym.neg_lit(l)], 2000000, 20000)
            if r != "unsat":
                k = self.holds(ctx, SymBool("lit", l), given)
                return (None if k and r == "unknown" else False), "cannot show definedness: %s %s 0" % (_short(l[0]), l[1])
        return True, ""

    def prove_eq(self, ctx, label, a, b):
        if ("FALSE", "") in b.wd:
            # contract itself undefined here: nothing claimed
            return Obl(label, True, "", "vacuous")
        ok, why = self.prove_wd(ctx, a.wd, b.wd)
        if not ok:
            return Obl(label, False, why, "numeric" if ok is None else "nf")
        d = nf.sub(a.p, b.p)
        if nf.is_zero(d):
            return Obl(label, True)
        # facts from definedness of the contract value
        for l in b.wd:
            try:
                c = sym.canon_lit(*l)
                if c not in (True, False):
                    ctx._learn(c)
            except PathInfeasible:
                return Obl(label, True, "", "vacuous")
        d2 = nf.rebuild(d)
        if nf.is_zero(d2):
            return Obl(label, True)
        # equalities of the path
        s = self._eq_subst(ctx)
        if s:
            d3 = nf.rebuild(d2, s)
            if nf.is_zero(d3):
                return Obl(label, True, "", "nf+eq")
        why = "code value minus contract value is not zero: " + _short(d2)
        verdict, pt = self.numeric(ctx, d2)
        if verdict == "nonzero":
            o = Obl(label, False, why)
            o.model = pt
            return o
        if self.feasible_now(ctx) is False:
            return Obl(label, True, "", "infeasible path")
        z = solver.Z3Ctx(ctx)
        try:
            for l in ctx.lits:
                z.add(l)
            l = sym.canon_lit(d2, "!=")
            if l is False:
                return Obl(label, True)
            if l is not True:
                r = z.check_with([l], 3000000, 15000)
                if r == "unsat":
                    return Obl(label, True, "", "z3")
        except Exception:
            pass
        if not self.lem.opts.get("strict_loops") and any(
                ATOMS[i].kind == "var" and ATOMS[i].name.startswith("_") for i in nf.atoms_of(d2)):
            return Obl(label, False, "depends on loop variables: " + _short(d2), "numeric")
        if verdict == "zero":
            return Obl(label, False, "not shown equal, numerically equal on the path: " + _short(d2), "numeric")
        o = Obl(label, False, why)
        o.model = pt
        return o

    def holds(self, ctx, f, given):
        """does f hold at sampled points of the path (>= 8 of them, none failing)?"""
        import random
        rnd = random.Random(3)
        hits = 0
        t0 = time.time()
        for k in range(4000):
            if time.time() - t0 > 5:
                break
            env = {n: sample(rnd, v) for n, v in self.lem.vars.items()}
            if not all(lit_holds(l, env) is True for l in list(ctx.lits) + [g for g in given if g[0] != "FALSE"]):
                continue
            v = ev_bool(f, env)
            if v is None:
                continue
            hits += 1
            if not v:
                return False
            if hits >= 40:
                break
        return hits >= 8

    def numeric(self, ctx, d):
        """sign of |d| at sampled points of the path: zero / nonzero / None"""
        import random
        rnd = random.Random(2)
        hits = 0
        t0 = time.time()
        for k in range(4000):
            if time.time() - t0 > 5:
                break
            env = {n: sample(rnd, v) for n, v in self.lem.vars.items()}
            if not all(lit_holds(l, env) is True for l in ctx.lits):
                continue
            try:
                tot, mag = evalf2(d, env)
            except Exception:
                return None, None
            if isinstance(tot, complex) or tot != tot or mag == float("inf"):
                continue
            hits += 1
            if abs(tot) > 1e-8 * mag:
                return "nonzero", env
            if hits >= 25:
                break
        return ("zero" if hits >= 8 else None), None

    def feasible_now(self, ctx):
        try:
            z = solver.Z3Ctx(ctx)
            for l in ctx.lits:
                z.add(l)
            r = z.check_with([], 3000000, 15000)
            return False if r == "unsat" else None
        except Exception:
            return None

    def _eq_subst(self, ctx):
        out = {}
        for k in ctx.eqs:
            p = nf.rebuild(k, out)
            # solve for a variable occurring alone in one term
            best = None
            for mn, c in p.t.items():
                if len(mn) >= 1:
                    for i, e in mn:
                        if ATOMS[i].kind != "var" or ATOMS[i].name == "pi":
                            continue
                        others = sum(1 for m2 in p.t if any(j == i for j, _ in m2))
                        deep = i in {j for m2 in p.t for j0, _ in m2 for j in _subatoms(j0)}
                        if others == 1 and not deep and e > 0 and nf.atom_sign(ATOMS[i]) == POS:
                            rest_m = tuple((j, f) for j, f in mn if j != i)
                            best = (mn, c, i, e, rest_m)
                            break
                if best:
                    break
            if not best:
                continue
            mn, c, i, e, rest_m = best
            rest = nf.Poly({m2: v for m2, v in p.t.items() if m2 != mn})
            rhs = nf.mul(nf.scale(nf.neg(rest), 1 / c), nf.powr(nf.Poly({rest_m: nf.F1}), -1))
            try:
                val = nf.powr(rhs, 1 / e)
            except Exception:
                continue
            out = {k2: nf.rebuild(v, {i: val}) for k2, v in out.items()}
            out[i] = val
        return out

    def prove_formula(self, ctx, label, f, rlimit=6000000):
        k = ctx.known(f)
        if k is True:
            return Obl(label, True, "", "nf+path")
        if isinstance(f, SymBool) and f.k == "lit":
            l = sym.canon_lit(*f.a)
            if l is True or l is not False and ctx.by_fact(l):
                return Obl(label, True, "", "nf+path")
        # refute: path and not f
        alts = _dnf(sym.b_not(f))
        if alts is None:
            v = ctx.decide(f)
            return Obl(label, v, "condition can be false", "path")
        z = solver.Z3Ctx(ctx)
        for l in ctx.lits:
            z.add(l)
        for l in _wds(f):
            if l[0] != "FALSE":
                z.add(l)
        model = None
        by = "z3"
        for alt in alts:
            lits = []
            dead = False
            for l in alt:
                c = sym.canon_lit(nf.rebuild(l[0]), l[1])
                if c is False:
                    dead = True
                    break
                if c is True:
                    continue
                if ctx._lit_known(c) is False:
                    dead = True
                    break
                lits.append(c)
            if dead:
                continue
            r = z.check_with(lits, rlimit, 25000)
            if r == "unknown":
                r = solver.cvc5_check(z.smt2_with(lits), 8)
                by = "cvc5"
            if r != "unsat":
                o = Obl(label, False, "not valid on this path (%s): %s" % (
                    r, " and ".join("%s %s 0" % (_short(l[0]), l[1]) for l in lits)))
                if r == "sat":
                    o.model = z.model_with(lits)
                elif self.holds(ctx, f, ()):
                    o.by = "numeric"
                return o
        return Obl(label, True, "", by)

    # ---- running a lemma
    def run(self, lem, cfg, inline=False):
        """-> dict with obligations, paths, failures, undecided reason"""
        t0 = time.time()
        level = {}
        for _ in range(40):
            try:
                return self._run(lem, cfg, inline, level, t0)
            except loader.Restart:
                sym.set_cur(None)
        raise RuntimeError("loop invariants not found")

    def _run(self, lem, cfg, inline, level, t0):
        self.lem = lem
        if lem.opts.get("real_check"):
            self.ld.stubs.pop(CHECK, None)
        for fn, nout in (lem.opts.get("opaque") or {}).items():
            if inline and fn in core.INLINE:
                continue
            mod, f = fn.split(":")
            self.ld.stubs[(PKG + mod, f)] = _opaque(fn, nout, lem.opts.get("opaque_arrays"))
        bounds = {}
        for n, v in lem.vars.items():
            lo, ls, hi, hs = v.bounds
            bounds[n] = (None if lo is None else Fraction(lo), ls, None if hi is None else Fraction(hi), hs)
        bounds["n_array"] = (Fraction(2), False, None, False)
        dom = sym.Domain(bounds)
        ex = sym.Explorer(dom, max_paths=lem.opts.get("max_paths", self.max_paths), rlimit=self.rlimit,
                          deadline=t0 + lem.opts.get("deadline", self.deadline_s))
        ex.inv_level = level
        res = dict(lemma=lem.name, cfg=cfg, obligations=0, discharged=0, by={}, failures=[], undecided=None,
                   paths=0, infeasible=0, functions=set(), assumptions=set(), vacuous=0)

        def harness(ctx):
            self.ld.state.restore()
            m = MSym(self, ctx, lem)
            kw = {}
            for n, v in lem.vars.items():
                kw[n] = Sym(nf.var(n), ty="int" if v.kind == "int" else "float")
            ctx.M = m
            try:
                lem.fn(m, **kw, **cfg)
            except (PathInfeasible, Unsupported, Budget):
                raise
            except RecursionError:
                raise Unsupported("recursion")
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = ""
                for fr in reversed(tb):
                    if fr.filename.startswith(loader.REPO):
                        where = "%s:%d" % (os.path.relpath(fr.filename, loader.REPO), fr.lineno)
                        break
                o = Obl("no unexpected exception", False, "%s: %s at %s" % (type(e).__name__, e, where), "exec")
                m.obls.append(o)
                if not where:
                    raise Unsupported("engine: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))
            return m
        try:
            for ctx, m in ex.run(harness):
                res["functions"] |= m.calls
                for o in m.obls:
                    res["obligations"] += 1
                    if o.ok:
                        res["discharged"] += 1
                        res["by"][o.by] = res["by"].get(o.by, 0) + 1
                        if o.by in ("vacuous", "infeasible path"):
                            res["vacuous"] += 1
                    else:
                        if o.by != "exec" and not o.model and self.feasible_now(ctx) is False:
                            res["discharged"] += 1
                            res["by"]["infeasible path"] = res["by"].get("infeasible path", 0) + 1
                            continue
                        res["failures"].append(dict(label=o.label, why=o.why, kind=o.by,
                                                    path=["%s %s 0" % (_short(l[0]), l[1]) for l in ctx.lits][:40],
                                                    points=self._points(ctx, o, lem)))
                        if len(res["failures"]) >= 3:
                            raise Budget("many failures")
        except Unsupported as e:
            res["undecided"] = "outside the engine's reach: %s" % e
        except Budget as e:
            if not res["failures"]:
                res["undecided"] = str(e)
        except Exception as e:
            res["undecided"] = "engine error: %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-2000:])
        finally:
            sym.set_cur(None)
        res["paths"] = ex.n_paths
        res["infeasible"] = ex.n_infeasible
        res["functions"] = sorted(res["functions"])
        res["assumptions"] = sorted(res["assumptions"])
        res["wall_s"] = round(time.time() - t0, 3)
        return res

    def _points(self, ctx, o, lem):
        """candidate inputs on this path: a solver model and path-guided samples"""
        pts = []
        if o.model:
            pts.append(o.model)
        try:
            z = solver.Z3Ctx(ctx)
            for l in ctx.lits:
                z.add(l)
            md = z.model_with([])
            if md:
                pts.append(md)
        except Exception:
            pass
        import random
        rnd = random.Random(1)
        names = [n for n in lem.vars]
        best = []
        t0 = time.time()
        for k in range(1500):
            if time.time() - t0 > 4:
                break
            env = {}
            for n in names:
                v = lem.vars[n]
                env[n] = sample(rnd, v)
            sc = sum(1 for l in ctx.lits if lit_holds(l, env) is not True)
            best.append((sc, k, env))
        best.sort(key=lambda t: (t[0], t[1]))
        # local repair
        for sc, k, env in best[:6]:
            cur = dict(env)
            curs = sc
            for _ in range(200):
                if curs == 0 or time.time() - t0 > 8:
                    break
                n = rnd.choice(names) if names else None
                if n is None:
                    break
                c2 = dict(cur)
                c2[n] = sample(rnd, lem.vars[n])
                s2 = sum(1 for l in ctx.lits if lit_holds(l, c2) is not True)
                if s2 <= curs:
                    cur, curs = c2, s2
            pts.append(cur)
        pts += [e for sc, k, e in best[:10]]
        return [{k: float(v) for k, v in p.items() if k in lem.vars} for p in pts]


def sample(rnd, v):
    if v.values:
        return float(rnd.choice(v.values))
    if v.kind == "int":
        return float(rnd.randint(int(v.lo), int(v.hi)))
    return rnd.uniform(float(v.lo), float(v.hi))


def _subatoms(i):
    acc = set()
    for x in ATOMS[i].args:
        if isinstance(x, nf.Poly):
            nf.atoms_of(x, acc)
        elif isinstance(x, tuple):
            nf._am(x, acc)
    return acc


def _weaker(c, g):
    if g in (True, False):
        return False
    if c == g:
        return True
    p, op = c
    q, oq = g
    if p == q and (oq == ">" and op in (">=", "!=") or oq == op):
        return True
    if op == "!=" and oq in (">",) and (p == q or p == nf.neg(q)):
        return True
    return False


def _dnf(f):
    """list of lists of literals, or None when it contains quantifiers"""
    if f.k == "const":
        return [[]] if f.a else []
    if f.k == "lit":
        return [[f.a]]
    if f.k == "not":
        g = f.a
        if g.k == "and":
            return _dnf(sym.b_or(sym.b_not(g.a[0]), sym.b_not(g.a[1])))
        if g.k == "or":
            return _dnf(sym.b_and(sym.b_not(g.a[0]), sym.b_not(g.a[1])))
        if g.k == "not":
            return _dnf(g.a)
        return None
    if f.k == "or":
        a, b = _dnf(f.a[0]), _dnf(f.a[1])
        return None if a is None or b is None else a + b
    if f.k == "and":
        a, b = _dnf(f.a[0]), _dnf(f.a[1])
        return None if a is None or b is None else [x + y for x in a for y in b]
    return None


def _wds(f):
    if f.k == "lit":
        return f.wd
    if f.k == "not":
        return _wds(f.a)
    if f.k in ("and", "or"):
        return _wds(f.a[0]) | _wds(f.a[1])
    return frozenset()
