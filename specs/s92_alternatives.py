"""Alternative inputs and refusals (C15), generated for every function with a conformance contract that takes a mass
instead of a diameter, or an angle of wave incidence instead of its influence factor."""
from engine.core import CONFORM, lemma, parse_mode, _vmap, _consts, rn
from specs_s20_runup import gamma_oblique

_done = set()


def _case(_f, _mode, _vars, _pre, _opts, _kind, _body, extra=()):
    _v, _c = parse_mode(_mode)
    _v = [x for x in dict.fromkeys(list(_v) + list(extra))]

    def h(m, **kw):
        args = dict(kw, **_consts(m, _c))
        _body(m, args)
    lemma("alternatives: %s %s" % (_f, _kind), "C15", vars=_vmap(_v, _vars, _f), target=_f,
          **{k: v for k, v in _opts.items() if k not in ("only_spec",)})(h)


def _split(args, *names):
    return {k: v for k, v in args.items() if k not in names}


for _f, _modes, _vars, _pre, _scalar, _opts in list(CONFORM):
    if _f.startswith("core_physics") or ":calculate" not in _f:
        continue
    for _mode in _modes:
        _tok = _mode.split()
        for _D, _M in (("Dn50", "M50"), ("Dn50_core", "M50_core")):
            if _M not in _tok or _D in _tok or "hudson" in _f or (_f, _M) in _done:
                continue
            _rho = "rho_core" if _M == "M50_core" else ("rho_armour" if "rho_armour" in _tok else "rho_rock")
            if _rho not in _tok:
                continue
            _done.add((_f, _M))

            def body(m, args, _f=_f, _D=_D, _M=_M, _rho=_rho, _pre=_pre):
                f = m.code(_f)
                D, M = args[_D], args[_M]
                base = _split(args, _D, _M)
                if _pre is not None:
                    _pre(m, **dict(base, **{_D: D}))
                a = f(**rn(dict(base, **{_D: D})))
                m.ensure_eq("mass instead of diameter", f(**rn(dict(base, **{_M: args[_rho] * D ** 3}))), a, tol=1e-6)
                m.ensure_eq("the diameter takes precedence", f(**rn(dict(base, **{_D: D, _M: M}))), a)
                m.ensure("neither is refused", m.expect(ValueError, f, **rn(base)))
            _case(_f, _mode, _vars, _pre, _opts, "%s or %s" % (_D, _M), body, extra=(_D,))
        if "beta" in _tok and "gamma_beta" not in _tok and _f.startswith("hydraulic") and "gamma_beta" not in _f \
                and "c=1.3" not in _tok and (_f, "beta") not in _done and any(x in _f for x in ("taw2002", "eurotop", "vangent2025")):
            _done.add((_f, "beta"))
            _mod = _f.split(":")[0]

            def body(m, args, _f=_f, _pre=_pre, _mod=_mod):
                f = m.code(_f)
                if _pre is not None:
                    _pre(m, **args)
                base = _split(args, "beta")
                if "eurotop2007" in _mod:
                    g = gamma_oblique(m, args["beta"], 0.0022)
                else:
                    gb = m.code(_mod + ":calculate_influence_oblique_waves_gamma_beta")
                    g = gb(beta=args["beta"], gamma_f=args["gamma_f"]) if "eurotop2018" in _mod else gb(beta=args["beta"])
                a = f(**args)
                m.ensure_eq("influence factor instead of angle", f(gamma_beta=g, **base), a, tol=1e-6)
                if "vangent" not in _f:
                    m.ensure("neither is refused", m.expect(ValueError, f, **base))
                    if "eurotop2007" not in _f:      # there the slope is optional: no adjustment of the roughness without it
                        m.ensure("no slope is refused", m.expect(ValueError, f, **_split(args, "cot_alpha", "cot_alpha_down", "cot_alpha_up")))
            _case(_f, _mode, _vars, _pre, _opts, "beta or gamma_beta", body)
