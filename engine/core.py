"""Registry of lemmas (contracts) and the vocabulary `m` they are written in.

A lemma is a python function  h(m, **inputs)  which calls the real code through
m.code("module:function") and states what must hold with m.ensure*/m.assume.
The same text is executed
  * symbolically (class MSym, engine/prove.py): every path becomes a set of obligations;
  * concretely  (class MNum, engine/concrete.py) against the installed package, to replay
    counterexamples.
"""
import re

PKG = "deltares_coastal_structures_toolbox.functions."

LEMMAS = {}      # name -> Lemma
ALIAS = {}


class Skip(Exception):
    """precondition not met (concrete runs)"""


class Var:
    """a symbolic input: bounds (lo, lo_strict, hi, hi_strict) and a sampling range"""

    def __init__(self, lo, hi, bounds=None, kind="real", sample=None):
        self.lo, self.hi = lo, hi
        self.bounds = bounds if bounds is not None else ("0", True, None, False)
        self.kind = kind
        self.values = sample


def pos(lo, hi):
    return Var(lo, hi, ("0", True, None, False))


def nonneg(lo, hi):
    return Var(lo, hi, ("0", False, None, False))


def real(lo, hi):
    return Var(lo, hi, (None, False, None, False))


def rng(lo, hi, a=None, b=None, ls=False, hs=False):
    return Var(lo if a is None else a, hi if b is None else b, (str(lo), ls, str(hi), hs))


class Lemma:
    def __init__(self, name, props, fn, vars_, configs, opts):
        self.name = name
        self.props = props
        self.fn = fn
        self.vars = vars_
        self.configs = configs
        self.opts = opts


def lemma(name, props, vars=None, configs=None, **opts):
    """configs: list of dicts of constant keyword arguments (each is one proof task)"""
    if isinstance(props, str):
        props = props.split()

    def deco(f):
        if name in LEMMAS:
            raise KeyError("duplicate lemma " + name)
        LEMMAS[name] = Lemma(name, props, f, dict(vars or {}), configs or [{}], opts)
        return f
    return deco


# ---------------------------------------------------------------- default domains by name
DEFAULTS = {}


def domain(names, v):
    for n in names.split():
        DEFAULTS[n] = v


def parse_mode(mode):
    """'Hm0 Tmm10 use_best_fit=True sigma=1.0' -> (vars list, consts dict)"""
    vs, cs = [], {}
    for tok in mode.split():
        if "=" in tok:
            k, v = tok.split("=", 1)
            cs[k] = v
        else:
            vs.append(tok)
    return vs, cs


CANON = {}    # opaque function -> argument canonicaliser


def opaque_canon(fname):
    def deco(f):
        CANON[fname] = f
        return f
    return deco


INLINE = set()    # opaque functions that are inlined when a lemma is not discharged over their contract
CONFORM = []    # every conformance contract: (function, modes, vars, pre, scalar, opts)
SPECS = {}    # "module:function" -> spec function (symbol table for m.spec)


def _vmap(vs, vars, fname):
    out = {}
    for v in vs:
        d = (vars or {}).get(v) or DEFAULTS.get(v)
        if d is None:
            raise KeyError("no domain for %s in %s" % (v, fname))
        out[v] = d
    return out


def rn(args):
    """an input of the code that is called `m` is written m__ in the contracts"""
    if isinstance(args, dict):
        return {("m" if k == "m__" else k): v for k, v in args.items()}
    return tuple("m" if k == "m__" else k for k in args)


def _consts(m, cs):
    return {c: m.const(txt) for c, txt in cs.items()}


def histories(args, others):
    """earlier calls that share inputs with a call: one input differs, or another choice of inputs"""
    for k, v in args.items():
        if not isinstance(v, (bool, str)):
            try:
                yield dict(args, **{k: v * 7 / 8})
            except TypeError:
                pass
    yield from others


ARRAY_PROP = "C18"
PURE_PROP = "C19"


def conform(fname, props, modes, vars=None, name=None, tol=None, pre=None, arr=True, arr_modes=None,
            scalar=(), **opts):
    """contract of fname: for every mode (set of supplied inputs) the result equals the spec
    function.  The same modes are used for the elementwise (C18) and frame (C19) contracts."""
    def deco(spec):
        key = name or fname
        SPECS[fname] = spec
        if opts.get("only_spec"):
            return spec
        CONFORM.append((fname, list(modes), vars, pre, scalar, opts))
        for mode in modes:
            vs, cs = parse_mode(mode)
            vmap = _vmap(vs, vars, fname)

            def h(m, __spec=spec, __cs=cs, __pre=pre, **kw):
                args = dict(kw, **_consts(m, __cs))
                if __pre is not None:
                    __pre(m, **args)
                got = m.attempt(m.code(fname), **rn(args))
                want = m.attempt(__spec, m=m, **args)
                m.ensure_eq("result = formula", got, want, tol=tol)
            nm = "%s[%s]" % (key, mode)
            if nm in LEMMAS:
                raise KeyError("duplicate lemma " + nm)
            LEMMAS[nm] = Lemma(nm, props.split() if isinstance(props, str) else props, h, vmap, [{}],
                               dict(opts, target=fname))
        if arr:
            for mode in (arr_modes or modes):
                vs, cs = parse_mode(mode)
                vmap = _vmap(vs, vars, fname)
                av = [v for v in vs if v not in scalar]
                if not av:
                    continue

                def ha(m, __cs=cs, __pre=pre, __av=tuple(av), **kw):
                    args = dict(kw, **_consts(m, __cs))
                    if __pre is not None:
                        __pre(m, **args)
                    m.elementwise(fname, rn(__av), rn(args))
                LEMMAS["arrays: %s[%s]" % (key, mode)] = Lemma(
                    "arrays: %s[%s]" % (key, mode), [ARRAY_PROP], ha, vmap, [{}],
                    dict({k: v for k, v in opts.items() if k != "opaque"}, target=fname))

        every = [parse_mode(x) for x in modes]
        union = _vmap(sorted(set(v for vs, cs in every for v in vs)), vars, fname)
        for mode in (arr_modes or modes):
            vs, cs = parse_mode(mode)
            vmap = dict(union, **_vmap(vs, vars, fname))
            av = tuple(v for v in vs if v not in scalar) if arr else ()

            def hp(m, __vs=tuple(vs), __cs=cs, __pre=pre, __av=av, __every=every, **kw):
                args = dict({v: kw[v] for v in __vs}, **_consts(m, __cs))
                if __pre is not None:
                    __pre(m, **args)
                others = [rn(dict({v: kw[v] for v in vs2}, **_consts(m, cs2))) for vs2, cs2 in __every if (vs2, cs2) != (list(__vs), __cs)]
                m.pure(fname, rn(__av), rn(args), others[:12])
            LEMMAS["frame: %s[%s]" % (key, mode)] = Lemma(
                "frame: %s[%s]" % (key, mode), [PURE_PROP], hp, vmap, [{}], dict(opts, target=fname))
        return spec
    return deco


def frames(fname, modes, vars=None, pre=None, scalar=(), scalars=True, **opts):
    """frame contract only: for functions whose result a second call cannot be compared with (iterations)"""
    for mode in modes:
        vs, cs = parse_mode(mode)

        for what, av in (("arrays", tuple(v for v in vs if v not in scalar)), ("scalars", ())):
            if (what == "arrays" and not av) or (what == "scalars" and av and not scalars):
                continue

            def hp(m, __cs=cs, __av=av, **kw):
                args = dict(kw, **_consts(m, __cs))
                if pre is not None:
                    pre(m, **args)
                m.pure(fname, rn(__av), rn(args), repeat=False)
            nm = "frame: %s[%s] of %s" % (fname, mode, what)
            LEMMAS[nm] = Lemma(nm, [PURE_PROP], hp, _vmap(vs, vars, fname), [{}], dict(opts, target=fname, opaque_arrays=True))


def checks(fname, props, modes, vars=None, pre=None, subset=False, subset_if="", **opts):
    """the range checks made by fname are exactly (subset: include) the listed (value, lo, hi)"""
    def deco(spec):
        for mode in modes:
            vs, cs = parse_mode(mode)
            vmap = _vmap(vs, vars, fname)

            sub = subset or any(x in vs for x in subset_if.split())

            def h(m, __spec=spec, __cs=cs, __sub=sub, **kw):
                args = dict(kw, **_consts(m, __cs))
                if pre is not None:
                    pre(m, **args)
                m.clear_events()
                got = m.attempt(m.code(fname), **rn(args))
                ev = m.take_events()
                if type(got).__name__ == "Raised":
                    raise Skip()
                want = __spec(m, got, **args)
                m.match_events("validity ranges", ev, want, __sub)
            nm = "ranges: %s[%s]" % (fname, mode)
            if nm in LEMMAS:
                raise KeyError("duplicate lemma " + nm)
            LEMMAS[nm] = Lemma(nm, props.split() if isinstance(props, str) else props, h, vmap, [{}],
                               dict(opts, target=fname))
        return spec
    return deco
