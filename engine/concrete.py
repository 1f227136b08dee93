"""Concrete execution of lemmas against the installed package (run with /opt/venv python).
Reads a JSON job on stdin: {"lemma":..., "cfg":..., "points":[...], "n":..., "seed":...,
"literals":[...]} and prints a JSON result with the first robust failing input, if any."""
import importlib
import json
import math
import os
import random
import signal
import re
import sys
import time
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
for cand in ("", "src"):
    p = os.path.join(REPO, cand)
    if os.path.isdir(os.path.join(p, "deltares_coastal_structures_toolbox")):
        sys.path.insert(0, p)
        break
sys.dont_write_bytecode = True
import numpy as np  # noqa: E402
from engine import core, speclang  # noqa: E402
from engine.core import PKG, Skip  # noqa: E402
from engine.state import State  # noqa: E402

STATE = State()

RANGE_RE = re.compile(r"\(([-+\w.]+)\) is outside of the validity range \(([-+\w.]+) - ([-+\w.]+)\)")


class Fail(Exception):
    pass


class Raised:
    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "raised %s: %s" % (type(self.e).__name__, self.e)


class MNum:
    symbolic = False
    nan = float("nan")
    inf = float("inf")
    pi = math.pi

    def __init__(self, lem=None, env=None):
        self.lem = lem
        self.env = env or {}
        self.fails = []
        self.diffs = {}
        self.warns = []
        self.rtol = 1e-7
        self.trace = []

    def const(self, txt):
        if txt in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[txt]
        if txt[0] in "'\"":
            return txt[1:-1]
        if txt in ("nan", "inf") or "." in txt or "e" in txt:
            return float(txt)
        return int(txt)

    def q(self, a, b=1):
        return a / b

    def fn(self, name, *a):
        raise Skip()

    def round(self, x, n=0):
        return np.round(x, n)

    def floor(self, x):
        return np.floor(x)

    def disper_k(self, w, h, g):
        from deltares_wave_toolbox.cores.core_dispersion import disper
        return np.asarray(disper(w=w, h=h, g=g)).ravel()[0]

    def isnan(self, x):
        return x is not None and not isinstance(x, str) and np.any(np.isnan(x))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(np, n)

    def min(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = np.minimum(r, x)
        return r

    def max(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = np.maximum(r, x)
        return r

    def spec(self, fname):
        s = core.SPECS[fname]
        return lambda *a, **k: s(self, *a, **k)

    def code0(self, fname):
        return self.code(fname, False)

    def code(self, fname, conv=True):
        mod, f = fname.split(":")
        try:
            m = importlib.import_module(PKG + mod)
            STATE.sync({k: v for k, v in list(sys.modules.items()) if k.startswith(PKG)})
            g = getattr(m, f)
        except (ImportError, AttributeError):
            raise Skip()

        def call(*a, **k):
            if conv:
                a = [_tofloat(x) for x in a]
                k = {n: _tofloat(v) for n, v in k.items()}
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                try:
                    r = g(*a, **k)
                finally:
                    for x in w:
                        if not issubclass(x.category, (RuntimeWarning, DeprecationWarning)):
                            self.warns.append(str(x.message))
            self.trace.append((fname, _js(a), _js(k), _js(r)))
            return r
        return call

    def attempt(self, f, **args):
        """the result, or the exception as a value (a failure only where the contract has a value)"""
        try:
            return f(**args)
        except Skip:
            raise
        except Exception as e:
            return Raised(e)

    def aslist(self, x):
        if isinstance(x, np.ndarray):
            return list(np.ravel(x))
        return list(x) if isinstance(x, (list, tuple)) else [x]

    def nwarn(self):
        return len(self.warns)

    def take_events(self):
        ev = list(self.warns)
        self.warns = []
        return ev

    def loops(self):
        return []

    def clear_loops(self):
        pass

    def converged(self, label, got, first, step, tol, max_iter, x0=None, post=lambda x: x, size=lambda x: x):
        got = float(np.asarray(got))
        x, n = float(np.asarray(first())), 1
        prev = x0
        while n < max_iter and not (prev is not None and abs(size(x) - size(prev)) <= tol):
            prev, x, n = x, float(np.asarray(step(x))), n + 1
            if not np.isfinite(x) or abs(x) > 1e12:
                raise Skip()
        def same(a, b):
            b = float(np.asarray(post(b)))
            return abs(a - b) <= 1e-8 * (abs(a) + abs(b)) + 1e-11
        if n >= max_iter:
            if not same(got, x):
                self.fails.append((label, "%r after max_iter iterations, expected %r" % (got, x)))
            return
        ok, y = same(got, x), x
        for i in range(60):
            if ok or n + i >= max_iter:
                break
            y = float(np.asarray(step(y)))
            ok = same(got, y)
        if not ok:
            self.fails.append((label, "result %r, the converged iteration gives %r (tolerance %r)" % (got, x, float(tol))))

    def ensure_defined(self, label, x):
        if not _finite(x):
            self.fails.append((label, "value is %r" % (_js(x),)))

    def _arrays(self, names, args):
        rnd = random.Random(repr(sorted((k, v) for k, v in self.env.items())))
        if len(names) > 1 and rnd.random() < 0.35:
            names = rnd.sample(list(names), rnd.randint(1, len(names) - 1))
        n = rnd.choice((1, 2, 3, 3, 4))
        pos = rnd.randrange(n)
        cols = {}
        for v in names:
            var = self.lem.vars.get(v)
            xs = []
            for i in range(n):
                if i == pos or var is None:
                    xs.append(args[v])
                    continue
                x = args[v] * rnd.uniform(0.7, 1.4) if rnd.random() < 0.5 else rnd.uniform(float(var.lo), float(var.hi))
                if not ok_env1(var, x):
                    x = args[v]
                xs.append(x)
            cols[v] = xs
        return n, cols

    def elementwise(self, fname, names, args):
        f = self.code(fname)
        n, cols = self._arrays(names, args)
        want = []
        for i in range(n):
            try:
                want.append(f(**dict(args, **{v: xs[i] for v, xs in cols.items()})))
            except Exception:
                raise Skip()
        got = f(**dict(args, **{v: np.array(xs, dtype=float) for v, xs in cols.items()}))
        self._elcmp(got, want, n)

    def exported(self, fname, names, args, ext, want, sep, header, index, comments, default_name=False):
        import shutil
        import tempfile
        f = self.code(fname)
        a = dict(args)
        n, cols = (3, {}) if names else (1, {})
        if names:
            n, cols = self._arrays(names, args)
            for v in names:
                cols.setdefault(v, [args[v]] * n)
            a.update({v: np.array(xs, dtype=float) for v, xs in cols.items()})
        d = tempfile.mkdtemp(prefix="vx")
        bad = lambda l, w: self.fails.append((l, w))      # noqa: E731
        try:
            a["output_dir"] = d
            if default_name:
                del a["file_name"]
            path = os.path.join(d, args["file_name"] + ext)
            with open(path, "w") as h:
                h.write("an earlier file")
            r = f(**a)
            if os.listdir(d) != [os.path.basename(path)]:
                bad("one file, of the requested name", repr(os.listdir(d)))
                return
            with open(path) as h:
                txt = h.read()
            if r is not None:
                bad("nothing is returned", repr(r))
            lines = txt.split("\n")
            if lines[-1] != "":
                bad("last line ends", repr(lines[-1]))
            lines = lines[:-1]
            k = 0
            while comments and k < len(lines) and lines[k][:1] in comments:
                k += 1
            lines = lines[k:]
            if header is not None:
                if not lines or lines[0] != sep.join(([""] if index else []) + header):
                    bad("header", repr(lines[:1]))
                lines = lines[1:]
            if len(lines) != n:
                bad("one record per combination", "%d records for %d combinations" % (len(lines), n))
                return
            for i, line in enumerate(lines):
                x = line.split(sep)
                if index:
                    if x[0] != str(i):
                        bad("record numbers", repr(line))
                    x = x[1:]
                w = [cols[v][i] if v in cols else args[v] for v in want]
                try:
                    ok = len(x) == len(w) and all(float(p) == float(q) for p, q in zip(x, w))
                except ValueError:
                    ok = False
                if not ok:
                    bad("record %d" % (i + 1), "%s for inputs %s" % (line, w))
            for v in names:
                if not np.array_equal(a[v], np.array(cols[v], dtype=float)):
                    bad("input %s is not modified" % v, repr(_js(a[v])))
        finally:
            shutil.rmtree(d)

    def _elcmp(self, got, want, n):
        if isinstance(want[0], tuple):
            if not isinstance(got, tuple) or len(got) != len(want[0]):
                self.fails.append(("array result, element by element", "shape of the result: %r" % (_js(got),)))
                return
            for k in range(len(got)):
                self._elcmp(got[k], [w[k] for w in want], n)
            return
        try:
            g = np.asarray(got)
            if g.ndim == 1 and g.shape[0] != n and g.size != 1:
                raise ValueError("result of length %d" % g.shape[0])
            g = np.broadcast_to(g.ravel() if g.size == 1 else g, (n,))
        except ValueError as e:
            self.fails.append(("array result, element by element", str(e)))
            return
        for i in range(n):
            w = want[i]
            if isinstance(w, (list, np.ndarray)) and np.size(w) == 1:
                w = np.ravel(w)[0]
            if not _finite(w):
                continue
            r = _cmp(g[i], w, 1e-6, 1e-12)
            if r:
                self.fails.append(("array result, element by element", "index %d: %s" % (i, r)))

    def pure(self, fname, names, args, others=(), repeat=True):
        f = self.code(fname)
        STATE.restore()
        n, cols = self._arrays(names, args) if names else (0, {})
        a = dict(args, **{v: np.array(xs, dtype=float) for v, xs in cols.items()})
        keep = {v: np.array(xs, dtype=float) for v, xs in cols.items()}
        try:
            r1 = f(**a)
        except Exception:
            if not names:
                raise
            raise Skip()
        for v in keep:
            if not np.array_equal(a[v], keep[v], equal_nan=True):
                self.fails.append(("input %s is not modified" % v, "%r became %r" % (_js(keep[v]), _js(a[v]))))
        r2 = f(**a)
        try:
            r = _cmp(r2, r1, 1e-13, 0.0)
        except Exception:
            r = None
        if r:
            self.fails.append(("repeated call gives the same result", r))
        left = STATE.changed()
        if not left:
            self.attempt(f, **args)
            left = STATE.changed()
        if not left:
            return

        def call(x):
            self.warns = []
            return self.attempt(f, **x), len(self.warns)

        def compare(got, want):
            try:
                r = _cmp(got[0], want[0], 1e-13, 0.0)
            except Exception:
                r = None if repr(got[0]) == repr(want[0]) else "%r, expected %r" % (got[0], want[0])
            if r:
                self.fails.append(("result does not depend on an earlier call (%s is kept)" % ", ".join(left), r))
            if got[1] != want[1]:
                self.fails.append(("warnings do not depend on an earlier call", "%d warnings, %d without the earlier call" % (got[1], want[1])))

        STATE.restore()
        fresh = call(args)
        hs = list(core.histories(args, others))
        for h in hs:
            STATE.restore()
            call(h)
            compare(call(args), fresh)
        STATE.restore()
        for h in hs:
            call(h)
        compare(call(args), fresh)
        for _ in range(60):
            last = call(args)
        compare(last, fresh)
        STATE.restore()

    def array(self, x):
        return np.array([x])

    def elem(self, a):
        if isinstance(a, (list, np.ndarray)) and np.size(a) == 1:
            return np.ravel(a)[0]
        return a

    def events(self):
        return self.warns

    def clear_events(self):
        self.warns = []

    def warned(self):
        return len([w for w in self.warns if not RANGE_RE.search(w)])

    def expect(self, exc, f, *a, **k):
        try:
            f(*a, **k)
        except exc:
            return True
        return False

    def assume(self, c):
        if not bool(np.all(c)):
            raise Skip()

    def representable(self, *xs):
        for x in xs:
            v = np.abs(np.asarray(x, dtype=float))
            if not np.all((v > 1e-270) & (v < 1e270)):
                raise Skip()

    def assume_defined(self, x):
        if not _finite(x):
            raise Skip()

    def ensure(self, label, c):
        if not bool(np.all(c)):
            self.fails.append((label, "condition is false"))

    def ensure_le(self, label, a, b):
        a, b = float(a), float(b)
        if not (a <= b + 1e-9 * max(abs(a), abs(b)) + 1e-300):
            self.fails.append((label, "%r <= %r is false" % (a, b)))

    def ensure_eq(self, label, a, b, tol=None, atol=0.0):
        if isinstance(b, Raised):
            raise Skip()
        r = _cmp(a, b, tol or self.rtol, atol)
        self._diff(label, a, b)
        if r:
            self.fails.append((label, r))

    def _diff(self, label, a, b):
        try:
            a, b = float(a), float(b)
            self.diffs[label] = (a - b) / max(abs(b), 1e-300)
        except Exception:
            pass

    def ensure_close(self, label, a, b, rel, **kw):
        r = _cmp(a, b, rel * 1.0000001 + 1e-9, 0.0)
        self._diff(label, a, b)
        if r:
            self.fails.append((label, r))

    def match_events(self, label, ev, expected, subset=False):
        exp = []
        for v, lo, hi in expected:
            for x in np.ravel(v):
                x = float(x)
                if x != x:
                    continue
                if near(x, lo) or near(x, hi):
                    raise Skip()
                if x < lo or x > hi:
                    exp.append((x, float(lo), float(hi)))
        got = []
        parsed = True
        for w in ev:
            mm = RANGE_RE.search(w)
            if not mm:
                if "validity range" in w or "outside" in w:
                    parsed = False
                continue
            try:
                got.append(tuple(float(re.sub(r"^np\.float64", "", x)) for x in mm.groups()))
            except ValueError:
                parsed = False
        if not parsed:
            n = len([w for w in ev if "validity range" in w or "outside" in w])
            if bool(exp) != bool(n) and not (subset and n):
                self.fails.append((label, "expected warnings %s, warnings given: %s" % (exp, ev)))
            return
        for e in exp:
            if not any(_same(e, g) for g in got):
                self.fails.append((label, "no warning for value %r outside [%r, %r]; warnings: %s" % (e + (ev,))))
        if subset:
            return
        for g in got:
            if not any(_same(e, g) for e in exp):
                self.fails.append((label, "warning for %r outside [%r, %r] is not in the contract" % g))


def near(x, b):
    b = float(b)
    return math.isfinite(b) and abs(x - b) <= 1e-9 * max(1.0, abs(b))


def _same(e, g):
    return all((a == b) or abs(a - b) <= 1e-6 * max(abs(a), abs(b)) for a, b in zip(e, g))


def _tofloat(x):
    if isinstance(x, (bool, str, np.ndarray)) or x is None:
        return x
    if isinstance(x, np.generic):
        return x.item()
    return x


def _finite(x):
    if isinstance(x, (tuple, list)):
        return all(_finite(y) for y in x)
    if isinstance(x, complex):
        return False
    try:
        return bool(np.all(np.isfinite(x)))
    except TypeError:
        return True


def _cmp(a, b, rtol, atol):
    if isinstance(a, Raised):
        return "%r, expected %r" % (a, _js(b)) if b is not None and _finite(b) else None
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        if not (isinstance(a, (tuple, list)) and isinstance(b, (tuple, list))) or len(a) != len(b):
            if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
                return _cmp(np.asarray(a), np.asarray(b), rtol, atol)
            return "shapes differ: %r vs %r" % (_js(a), _js(b))
        for k, (x, y) in enumerate(zip(a, b)):
            r = _cmp(x, y, rtol, atol)
            if r:
                return "[%d] %s" % (k, r)
        return None
    if isinstance(b, dict):
        if not isinstance(a, dict) or list(a) != list(b):
            return "keys differ: %r vs %r" % (_js(a), list(b))
        for k in b:
            r = _cmp(a[k], b[k], rtol, atol)
            if r:
                return "[%s] %s" % (k, r)
        return None
    if b is None or isinstance(b, str) or a is None or isinstance(a, str):
        return None if a == b else "%r vs %r" % (_js(a), _js(b))
    if isinstance(b, (bool, np.bool_)):
        try:
            return None if bool(np.all(np.asarray(a) == b)) else "%r, expected %r" % (_js(a), _js(b))
        except Exception:
            return "%r, expected %r" % (_js(a), _js(b))
    try:
        if np.iscomplexobj(b) or not np.all(np.isfinite(b)):
            return None
        if np.iscomplexobj(a):
            return "complex result %r, expected %r" % (_js(a), _js(b))
        x = np.asarray(a, dtype=float)
        y = np.asarray(b, dtype=float)
        if x.shape != y.shape and not (x.size == 1 and y.size == 1):
            return "shape %s, expected %s (%r vs %r)" % (x.shape, y.shape, _js(a), _js(b))
        if x.size == 1:
            x, y = x.ravel()[0], y.ravel()[0]
        ok = np.abs(x - y) <= rtol * np.maximum(np.abs(x), np.abs(y)) + atol + 1e-100
        if not np.all(ok):
            return "%r, expected %r" % (_js(a), _js(b))
    except (TypeError, ValueError) as e:
        return "%r, expected %r (%s)" % (_js(a), _js(b), e)
    return None


def _js(x):
    if isinstance(x, (np.ndarray,)):
        return [_js(y) for y in x.tolist()] if x.ndim else x.item()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (list, tuple)):
        return [_js(y) for y in x]
    if isinstance(x, dict):
        return {str(k): _js(v) for k, v in x.items()}
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)


class Hang(BaseException):
    pass


def _hang(*a):
    raise Hang()


def run_once(lem, cfg, env):
    """-> list of failures ([] ok), or None when the precondition is not met"""
    m = MNum(lem, env)
    kw = {}
    for n, v in lem.vars.items():
        x = env[n]
        kw[n] = int(round(x)) if v.kind == "int" else float(x)
    try:
        signal.signal(signal.SIGALRM, _hang)
        signal.alarm(8)
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                lem.fn(m, **kw, **cfg)
            finally:
                signal.alarm(0)
    except Hang:
        m.fails.append(("terminates", "no result within 8 s"))
        return m.fails, m
    except Skip:
        if not m.fails:
            return None, m
    except (OverflowError, ZeroDivisionError, FloatingPointError):
        return None, m
    except AssertionError:
        raise
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [fr for fr in tb if fr.filename.startswith(REPO)]
        missing = isinstance(e, (AttributeError, ImportError, ModuleNotFoundError)) and not inrepo
        if not inrepo and not missing and not isinstance(e, TypeError):
            return None, m
        w = ("%s:%d" % (inrepo[-1].filename, inrepo[-1].lineno)) if inrepo else "call"
        m.fails.append(("no unexpected exception", "%s: %s at %s" % (type(e).__name__, e, w)))
    return m.fails, m


def ok_env1(v, x):
    lo, ls, hi, hs = v.bounds
    if x is None or x != x:
        return False
    if lo is not None and (x < float(lo) or (ls and x <= float(lo))):
        return False
    if hi is not None and (x > float(hi) or (hs and x >= float(hi))):
        return False
    return True


def ok_env(lem, env):
    return all(ok_env1(v, env.get(n)) for n, v in lem.vars.items())


def draw(rnd, lem, lits, mode):
    env = {}
    for n, v in lem.vars.items():
        if v.values:
            env[n] = float(rnd.choice(v.values))
        elif v.kind == "int":
            env[n] = float(rnd.randint(int(v.lo), int(v.hi)))
        else:
            env[n] = rnd.uniform(float(v.lo), float(v.hi))
    if mode == 1 and lits:
        for n in rnd.sample(list(lem.vars), min(len(lem.vars), rnd.choice([1, 1, 2]))):
            c = rnd.choice(lits)
            env[n] = c * rnd.choice([1.0, 1.0, 1.0, 1 + 1e-6, 1 - 1e-6, 1.01, 0.99])
    elif mode == 2:
        for n in lem.vars:
            if rnd.random() < 0.4 and lem.vars[n].kind != "int" and not lem.vars[n].values:
                env[n] *= 10 ** rnd.uniform(-1.2, 1.0)
    elif mode == 3:
        for n in lem.vars:
            if rnd.random() < 0.3 and lem.vars[n].kind != "int" and not lem.vars[n].values:
                env[n] = rnd.choice([float(lem.vars[n].lo), float(lem.vars[n].hi)])
    return env


def robust(lem, cfg, env, lits, rnd, m0):
    """does the failure persist around the point (or sit exactly on an input threshold)?  A discrepancy
    that jumps about when the inputs change by 1e-9 is rounding (cancellation), not behaviour."""
    hits = tot = 0
    lab = m0.fails[0][0]
    ds = [m0.diffs[lab]] if lab in m0.diffs else []
    for _ in range(6):
        e2 = {n: (x if lem.vars[n].kind == "int" or lem.vars[n].values else x * (1 + rnd.uniform(-1, 1) * 1e-9)) for n, x in env.items()}
        if not ok_env(lem, e2):
            continue
        f, _m = run_once(lem, cfg, e2)
        if f is None:
            continue
        tot += 1
        hits += bool(f)
        if lab in _m.diffs:
            ds.append(_m.diffs[lab])
    ds = sorted(d for d in ds if d == d and abs(d) < 1e300)
    if len(ds) >= 4 and hits == tot and ds[-1] - ds[0] > 0.3 * abs(ds[len(ds) // 2]):
        return False
    if tot == 0 or hits >= max(1, tot - 1):
        return True
    # exactly on a threshold of one input?
    sens = []
    for n in lem.vars:
        if lem.vars[n].kind == "int":
            continue
        flip = False
        for s in (1e-9, -1e-9):
            e2 = dict(env)
            e2[n] = env[n] * (1 + s) if env[n] else s
            if not ok_env(lem, e2):
                continue
            f, _m = run_once(lem, cfg, e2)
            if f is not None and not f:
                flip = True
        if flip:
            sens.append(n)
    return len(sens) == 1 and (env[sens[0]] in lits or env[sens[0]] == 0.0)


def search(job):
    lem = core.LEMMAS[job["lemma"]]
    cfg = job.get("cfg") or {}
    lits = sorted(set(float(x) for x in job.get("literals") or []))
    rnd = random.Random(job.get("seed", 1))
    n = job.get("n", 3000)
    t_end = time.time() + job.get("seconds", 60)
    tried = met = 0
    pts = [p for p in job.get("points") or []]
    if not lem.vars:
        n = min(n, 1)

    def attempt(env):
        nonlocal tried, met
        if not ok_env(lem, env):
            return None
        tried += 1
        f, m = run_once(lem, cfg, env)
        if f is None:
            return None
        met += 1
        if f and robust(lem, cfg, env, lits, rnd, m):
            return dict(found=True, env=env, fails=[list(x) for x in f], trace=m.trace[-6:], tried=tried, met=met)
        return None
    for p in pts:
        env = {}
        for k, v in lem.vars.items():
            env[k] = p.get(k, None)
            if env[k] is None:
                env[k] = float(v.lo) + 0.37 * (float(v.hi) - float(v.lo))
        r = attempt(env)
        if r:
            return r
        for _ in range(20):
            e2 = {k: x * (1 + rnd.uniform(-0.05, 0.05)) for k, x in env.items()}
            r = attempt(e2)
            if r:
                return r
    for k in range(n):
        if time.time() > t_end:
            break
        r = attempt(draw(rnd, lem, lits, [0, 1, 0, 1, 2, 3][k % 6]))
        if r:
            return r
    return dict(found=False, tried=tried, met=met)


def main():
    speclang.load_specs(False)
    jobs = json.load(sys.stdin)
    out = []
    for job in jobs:
        try:
            out.append(search(job))
        except Exception as e:
            import traceback
            out.append(dict(found=False, error="%s: %s" % (type(e).__name__, e), tb=traceback.format_exc()[-1500:],
                            tried=0, met=0))
    json.dump(out, sys.stdout)


if __name__ == "__main__":
    main()
