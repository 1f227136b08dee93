"""Wave run-up: TAW (2002), EurOtop (2018), Van Gent (2001)  -- C06, and the pieces the
overtopping contracts share with it."""
from engine.core import INLINE, Skip, lemma, conform, checks, parse_mode, _vmap, _consts, opaque_canon, pos, real, nonneg, rng, Var
from specs_common import steepness, iribarren, given, absval

T = "hydraulic.wave_runup.taw2002:"
E = "hydraulic.wave_runup.eurotop2018:"
V = "hydraulic.wave_runup.vangent2001:"
ITER = T + "iteration_procedure_z2p"
ITER_GB = T + "iteration_procedure_gamma_b"
AVG = T + "determine_average_slope"
OPQ = {ITER: 1, ITER_GB: (1, True), AVG: 1}
GFADJ = T + "calculate_adjusted_influence_roughness_gamma_f"
INLINE.update([AVG, GFADJ, T + "calculate_influence_oblique_waves_gamma_beta"])
RUNUP = T + "calculate_wave_runup_height_z2p"
BEST = dict(c1="1.65", c2="4.0", c3="1.5", c4="1.0")


@opaque_canon(AVG)
def _canon_avg(b, const):
    b.pop("B_berm", None)          # shown by the contract of the average slope: not used
    return b


@opaque_canon(ITER)
@opaque_canon(ITER_GB)
@opaque_canon(RUNUP)
def _canon(b, const):
    """best-fit coefficients may be passed by value or by flag: the same call"""
    B = b.get("B_berm")
    if "L_berm" in b and (isinstance(B, float) or hasattr(B, "is_const") and B.is_const()) and float(B) == 0:
        return const("1")          # no berm: shown by the contract of the berm-factor iteration
    if b.get("use_best_fit") is True:
        b = dict(b, **{k: const(v) for k, v in BEST.items()})
    b.pop("use_best_fit", None)
    return b


# ------------------------------------------------------------------ pieces
def gamma_oblique(m, beta, c, max_angle=80):
    b = absval(m, beta)
    return 1 - c * (max_angle if b > max_angle else b)


def rough_adj(m, gamma_f, gamma_b, ksi):
    x = gamma_b * ksi
    if x >= 1.8:
        return gamma_f + (m.min(x, 10) - 1.8) * (1 - gamma_f) / 8.2
    return gamma_f


def berm_factor(m, Hm0, z2p, db, B_berm, L_berm):
    if db > 2 * Hm0 or db < -z2p:
        rdh = 1
    elif db < 0:
        rdh = 0.5 - 0.5 * m.cos(m.pi * db / z2p)
    else:
        rdh = 0.5 - 0.5 * m.cos(m.pi * db / (2 * Hm0))
    return m.max(m.min(1 - B_berm / L_berm * (1 - rdh), 1), 0.6)


def berm_len(m, Hm0, B_berm, down, up):
    return Hm0 * down + B_berm + Hm0 * up


def average_cot(m, Hm0, z2p, down, up, db):
    return ((1.5 * Hm0 - db) * down + (z2p + db) * up) / (1.5 * Hm0 + z2p)


def runup_ratio(m, ksi, gamma_b, gamma_f, gamma_beta, c1, c2, c3, c4):
    gf = rough_adj(m, gamma_f, gamma_b, ksi)
    a = c1 * gamma_b * gf * gamma_beta * ksi
    b = c4 * gf * gamma_beta * (c2 - c3 / m.sqrt(ksi))
    return m.min(a, b), a >= b


def berm_iter(m, Hm0, Tmm10, cot, B_berm, L_berm, db, gamma_beta, c1, c2, c3, c4, gamma_f):
    """two-step estimate of the berm factor"""
    if B_berm == 0:
        return 1
    ru = m.code(RUNUP)
    kw = dict(Hm0=Hm0, Tmm10=Tmm10, cot_alpha=cot, gamma_f=gamma_f, gamma_beta=gamma_beta, c1=c1, c2=c2, c3=c3, c4=c4)
    z1 = ru(gamma_b=1.0, **kw)[0]
    g1 = berm_factor(m, Hm0, z1, db, B_berm, L_berm)
    z2 = ru(gamma_b=g1, **kw)[0]
    return berm_factor(m, Hm0, z2, db, B_berm, L_berm)


def positive_slope(m, Hm0, Tmm10, cot_alpha_down, cot_alpha_up, B_berm, db, gamma_f, gamma_beta, coef):
    """precondition of composite slopes: the representative slope is positive"""
    z = m.code(ITER)(Hm0=Hm0, Tmm10=Tmm10, cot_alpha_down=cot_alpha_down, cot_alpha_up=cot_alpha_up,
                     B_berm=B_berm, db=db, gamma_f=gamma_f, gamma_beta=gamma_beta,
                     c1=coef[0], c2=coef[1], c3=coef[2], c4=coef[3])
    m.assume(m.code(AVG)(Hm0=Hm0, z2p=z, cot_alpha_down=cot_alpha_down, cot_alpha_up=cot_alpha_up, B_berm=B_berm, db=db) > 0)


def slope_and_berm(m, Hm0, Tmm10, cot_alpha, cot_alpha_down, cot_alpha_up, B_berm, db, gamma_b, gamma_f,
                   gamma_beta, coef, bcoef=None):
    """representative slope and berm factor; coef: run-up coefficients of the slope iteration"""
    comp = given(m, cot_alpha_down, cot_alpha_up)
    if comp:
        z = m.code(ITER)(Hm0=Hm0, Tmm10=Tmm10, cot_alpha_down=cot_alpha_down, cot_alpha_up=cot_alpha_up,
                         B_berm=B_berm, db=db, gamma_f=gamma_f, gamma_beta=gamma_beta,
                         c1=coef[0], c2=coef[1], c3=coef[2], c4=coef[3])
        cot_alpha = m.code(AVG)(Hm0=Hm0, z2p=z, cot_alpha_down=cot_alpha_down, cot_alpha_up=cot_alpha_up, B_berm=B_berm, db=db)
    if m.isnan(gamma_b):
        bcoef = bcoef or coef
        if comp:
            L = berm_len(m, Hm0, B_berm, cot_alpha_down, cot_alpha_up)
        else:
            L = berm_len(m, Hm0, B_berm, cot_alpha, cot_alpha)
        if B_berm == 0:
            gamma_b = 1
        else:
            gamma_b = m.code(ITER_GB)(Hm0=Hm0, Tmm10=Tmm10, cot_alpha_average=cot_alpha, B_berm=B_berm, L_berm=L, db=db,
                                      gamma_f=gamma_f, gamma_beta=gamma_beta, c1=bcoef[0], c2=bcoef[1], c3=bcoef[2], c4=bcoef[3])
    return cot_alpha, gamma_b


TAWC = (1.75, 4.3, 1.6, 1.0)
E18C = (1.75, 4.3, 1.5, 1.07)
BESTC = (1.65, 4.0, 1.5, 1.0)


def exact(m, cs):
    return tuple(m.const(repr(c)) if isinstance(c, (int, float)) else c for c in cs)


def given_coef(m, co, base):
    """the coefficients of a formula: those given, else the published ones"""
    base = exact(m, base)
    return [co.get("c%d" % (k + 1), base[k]) for k in range(len(base))]


# ------------------------------------------------------------------ helpers' own contracts
@conform(T + "calculate_influence_oblique_waves_gamma_beta", "C06 C04", ["beta", "beta c_gamma_beta max_angle"],
         vars=dict(c_gamma_beta=pos(0.001, 0.01), max_angle=pos(40, 90)))
def t_gbeta(m, beta, c_gamma_beta=0.0022, max_angle=80):
    return gamma_oblique(m, beta, c_gamma_beta, max_angle)


@conform(E + "calculate_influence_oblique_waves_gamma_beta", "C06 C04", ["beta gamma_f", "beta gamma_f gamma_f_crit c_gamma_beta_smooth c_gamma_beta_rough max_angle"], scalar=("gamma_f", "gamma_f_crit"),
         vars=dict(c_gamma_beta_smooth=pos(0.001, 0.003), c_gamma_beta_rough=pos(0.005, 0.01), gamma_f_crit=rng(0, 1, 0.4, 0.9), max_angle=pos(40, 90)))
def e_gbeta(m, beta, gamma_f, gamma_f_crit=0.6, c_gamma_beta_smooth=0.0022, c_gamma_beta_rough=0.0063, max_angle=80):
    return gamma_oblique(m, beta, c_gamma_beta_smooth if gamma_f > gamma_f_crit else c_gamma_beta_rough, max_angle)


@conform(T + "calculate_adjusted_influence_roughness_gamma_f", "C06 C04", ["gamma_f gamma_b ksi_mm10"])
def t_gf(m, gamma_f, gamma_b, ksi_mm10):
    return rough_adj(m, gamma_f, gamma_b, ksi_mm10)


@conform(T + "calculate_influence_berm_gamma_b", "C06 C04", ["Hm0 z2p db B_berm L_berm"], arr=False)
def t_gb(m, Hm0, z2p, db, B_berm, L_berm):
    return berm_factor(m, Hm0, z2p, db, B_berm, L_berm)


def avg_pre(m, Hm0, z2p, cot_alpha_down, cot_alpha_up, db, **kw):
    """the characteristic slope has a horizontal length"""
    m.assume((1.5 * Hm0 - db) * cot_alpha_down + (z2p + db) * cot_alpha_up > 0)


@conform(T + "determine_average_slope", "C06 C04", ["Hm0 z2p cot_alpha_down cot_alpha_up B_berm db"], pre=avg_pre)
def t_avg(m, Hm0, z2p, cot_alpha_down, cot_alpha_up, B_berm, db):
    return average_cot(m, Hm0, z2p, cot_alpha_down, cot_alpha_up, db)


@conform(T + "calculate_berm_length", "C06 C04", ["Hm0 B_berm cot_alpha", "Hm0 B_berm cot_alpha_down cot_alpha_up"])
def t_L(m, Hm0, B_berm, cot_alpha=None, cot_alpha_down=None, cot_alpha_up=None):
    if cot_alpha_down is None:
        return berm_len(m, Hm0, B_berm, cot_alpha, cot_alpha)
    return berm_len(m, Hm0, B_berm, cot_alpha_down, cot_alpha_up)


@conform(ITER_GB, "C06 C04", ["Hm0 Tmm10 cot_alpha_average B_berm L_berm db gamma_beta gamma_f",
                          "Hm0 Tmm10 cot_alpha_average B_berm L_berm db=0.0 gamma_beta gamma_f",
                          "Hm0 Tmm10 cot_alpha_average B_berm=0.0 L_berm db gamma_beta gamma_f",
                          "Hm0 Tmm10 cot_alpha_average B_berm L_berm db=1.0 gamma_beta use_best_fit=True",
                          "Hm0 Tmm10 cot_alpha_average B_berm L_berm db=0.5 gamma_beta gamma_f c1 c2 c3 c4"], arr=False, weight=5, opaque={RUNUP: 2})
def t_gb_iter(m, Hm0, Tmm10, cot_alpha_average, B_berm, L_berm, db, gamma_beta, gamma_f=1, use_best_fit=False, **co):
    c = given_coef(m, co, BESTC if use_best_fit else TAWC)
    return berm_iter(m, Hm0, Tmm10, cot_alpha_average, B_berm, L_berm, db, gamma_beta, c[0], c[1], c[2], c[3], gamma_f)


@conform(E + "iteration_procedure_gamma_b", "C06 C04", ["Hm0 Tmm10 cot_alpha_average B_berm L_berm db gamma_beta gamma_f",
                                                    "Hm0 Tmm10 cot_alpha_average B_berm L_berm db gamma_beta use_best_fit=True",
                                                    "Hm0 Tmm10 cot_alpha_average B_berm L_berm db gamma_beta gamma_f c1 c2 c3 c4"],
         arr=False, opaque={ITER_GB: 1})
def e_gb_iter(m, Hm0, Tmm10, cot_alpha_average, B_berm, L_berm, db, gamma_beta, gamma_f=1, use_best_fit=False, **co):
    c = given_coef(m, co, BESTC if use_best_fit else E18C)
    return m.code(ITER_GB)(Hm0=Hm0, Tmm10=Tmm10, cot_alpha_average=cot_alpha_average, B_berm=B_berm, L_berm=L_berm,
                           db=db, gamma_beta=gamma_beta, gamma_f=gamma_f, c1=c[0], c2=c[1], c3=c[2], c4=c[3])


# what callers may rely on when these are taken by contract
@lemma("influence factors: roughness adjustment lies between the given factor and 1", "C16 C12 C04 C06",
       vars=dict(gamma_f=rng(0, 1, 0.3, 1, ls=True), gamma_b=rng(0, 1, 0.4, 1, ls=True), ksi=pos(0.3, 14)))
def gf_bounds(m, gamma_f, gamma_b, ksi):
    r = m.code(GFADJ)(gamma_f=gamma_f, gamma_b=gamma_b, ksi_mm10=ksi)
    m.ensure("at least gamma_f", r >= gamma_f)
    m.ensure("at most 1", r <= 1)


@lemma("influence factors: oblique waves, between 0 and 1", "C16 C12 C04 C06", vars=dict(beta=real(-90, 90), gamma_f=rng(0, 1, 0.3, 1, ls=True)))
def gbeta_bounds(m, beta, gamma_f):
    for r in (m.code(T + "calculate_influence_oblique_waves_gamma_beta")(beta=beta),
              m.code("hydraulic.wave_overtopping.taw2002:calculate_influence_oblique_waves_gamma_beta")(beta=beta),
              m.code(E + "calculate_influence_oblique_waves_gamma_beta")(beta=beta, gamma_f=gamma_f),
              m.code("hydraulic.wave_overtopping.eurotop2018:calculate_influence_oblique_waves_gamma_beta")(beta=beta, gamma_f=gamma_f)):
        m.ensure("positive", r > 0)
        m.ensure("at most 1", r <= 1)


@lemma("influence factors: berm factor, between 0.6 and 1", "C16 C12 C04 C06",
       vars=dict(Hm0=pos(0.5, 5), z2p=pos(0.5, 10), db=real(-3, 4), B_berm=pos(1, 12), L_berm=pos(5, 60)))
def gb_bounds(m, Hm0, z2p, db, B_berm, L_berm):
    r = m.code(T + "calculate_influence_berm_gamma_b")(Hm0=Hm0, z2p=z2p, db=db, B_berm=B_berm, L_berm=L_berm)
    m.ensure("at least 0.6", r >= 0.6)
    m.ensure("at most 1", r <= 1)


# ------------------------------------------------------------------ run-up heights
RU = ["Hm0 Tmm10 gamma_beta cot_alpha", "Hm0 Tmm10 beta gamma_f cot_alpha",
      "Hm0 Tmm10 gamma_beta gamma_f gamma_b cot_alpha",
      "Hm0 Tmm10 gamma_beta gamma_f gamma_b cot_alpha use_best_fit=True",
      "Hm0 Tmm10 gamma_beta gamma_f cot_alpha B_berm db",
      "Hm0 Tmm10 gamma_beta gamma_f cot_alpha B_berm db use_best_fit=True",
      "Hm0 Tmm10 beta gamma_f cot_alpha_down cot_alpha_up B_berm db",
      "Hm0 Tmm10 gamma_beta gamma_f cot_alpha_down cot_alpha_up B_berm db use_best_fit=True",
      "Hm0 Tmm10 gamma_beta gamma_f gamma_b cot_alpha_down cot_alpha_up",
      "Hm0 Tmm10 beta gamma_beta gamma_f gamma_b cot_alpha",
      "Hm0 Tmm10 gamma_beta gamma_f gamma_b cot_alpha c1 c2 c3 c4",
      "Hm0 Tmm10 gamma_beta gamma_f cot_alpha B_berm db c1 c2 c3 c4",
      "Hm0 Tmm10 gamma_beta gamma_f cot_alpha_down cot_alpha_up B_berm db c1 c2 c3 c4"]
RU_ARR = ["Hm0 Tmm10 gamma_beta gamma_f gamma_b cot_alpha", "Hm0 Tmm10 beta gamma_f cot_alpha",
          "Hm0 Tmm10 gamma_beta gamma_f gamma_b cot_alpha use_best_fit=True"]


def _runup(m, Hm0, Tmm10, gb_oblique, base, beta, gamma_beta, gamma_b, gamma_f, B_berm, db, cot_alpha, cot_alpha_down,
           cot_alpha_up, c1, c2, c3, c4, use_best_fit):
    coef = list(exact(m, BESTC if use_best_fit else base))
    if not use_best_fit:
        for k, c in enumerate((c1, c2, c3, c4)):
            if c is not None:
                coef[k] = c
    if m.isnan(gamma_beta):
        gamma_beta = gamma_oblique(m, beta, gb_oblique)
    cot, gb = slope_and_berm(m, Hm0, Tmm10, cot_alpha, cot_alpha_down, cot_alpha_up, B_berm, db, gamma_b, gamma_f,
                             gamma_beta, coef)
    return runup_ratio(m, iribarren(m, Hm0, Tmm10, cot), gb, gamma_f, gamma_beta, *coef)


NAN_ = float("nan")


@conform(T + "calculate_dimensionless_wave_runup_height_z2p", "C06", RU, opaque=OPQ, arr_modes=RU_ARR, scalar=("gamma_b",))
def t_ru(m, Hm0, Tmm10, beta=NAN_, gamma_beta=NAN_, gamma_b=NAN_, gamma_f=1, B_berm=0, db=0, cot_alpha=NAN_,
         cot_alpha_down=NAN_, cot_alpha_up=NAN_, c1=None, c2=None, c3=None, c4=None, use_best_fit=False):
    return _runup(m, Hm0, Tmm10, 0.0022, TAWC, beta, gamma_beta, gamma_b, gamma_f, B_berm, db, cot_alpha, cot_alpha_down,
                  cot_alpha_up, c1, c2, c3, c4, use_best_fit)


@conform(T + "calculate_wave_runup_height_z2p", "C06", RU, opaque=OPQ, arr_modes=RU_ARR, scalar=("gamma_b",))
def t_ruh(m, Hm0, Tmm10, **kw):
    r, mx = t_ru(m, Hm0, Tmm10, **kw)
    return r * Hm0, mx


@conform(E + "calculate_dimensionless_wave_runup_height_z2p", "C06", RU, opaque=OPQ, arr_modes=RU_ARR, scalar=("gamma_b", "gamma_f"))
def e_ru(m, Hm0, Tmm10, beta=NAN_, gamma_beta=NAN_, gamma_b=NAN_, gamma_f=1, B_berm=0, db=0, cot_alpha=NAN_,
         cot_alpha_down=NAN_, cot_alpha_up=NAN_, c1=None, c2=None, c3=None, c4=None, use_best_fit=False):
    return _runup(m, Hm0, Tmm10, 0.0022 if gamma_f > 0.6 else 0.0063, E18C, beta, gamma_beta, gamma_b, gamma_f, B_berm, db, cot_alpha,
                  cot_alpha_down, cot_alpha_up, c1, c2, c3, c4, use_best_fit)


@conform(E + "calculate_wave_runup_height_z2p", "C06", RU, opaque=OPQ, arr_modes=RU_ARR, scalar=("gamma_b", "gamma_f"))
def e_ruh(m, Hm0, Tmm10, **kw):
    r, mx = e_ru(m, Hm0, Tmm10, **kw)
    return r * Hm0, mx


@conform(E + "iteration_procedure_z2p", "C06 C04", ["Hm0 Tmm10 cot_alpha_down cot_alpha_up B_berm db gamma_f gamma_beta",
                                                "Hm0 Tmm10 cot_alpha_down cot_alpha_up B_berm db gamma_f gamma_beta use_best_fit=True",
                                                "Hm0 Tmm10 cot_alpha_down cot_alpha_up B_berm db gamma_f gamma_beta tolerance max_iter=50",
                                                "Hm0 Tmm10 cot_alpha_down cot_alpha_up B_berm db gamma_f gamma_beta c1 c2 c3 c4"],
         opaque=OPQ, arr=False)
def e_iter(m, Hm0, Tmm10, cot_alpha_down, cot_alpha_up, B_berm, db, gamma_f, gamma_beta, use_best_fit=False, **kw):
    c = given_coef(m, {k: kw.pop(k) for k in list(kw) if k in ("c1", "c2", "c3", "c4")}, BESTC if use_best_fit else E18C)
    return m.code(ITER)(Hm0=Hm0, Tmm10=Tmm10, cot_alpha_down=cot_alpha_down, cot_alpha_up=cot_alpha_up, B_berm=B_berm,
                        db=db, gamma_f=gamma_f, gamma_beta=gamma_beta, c1=c[0], c2=c[1], c3=c[2], c4=c[3], **kw)


IT_OPQ = {RUNUP: 2, AVG: 1, T + "calculate_influence_berm_gamma_b": 1, T + "calculate_berm_length": 1}
for _mode in ("", "use_best_fit=True", "c1 c2 c3 c4 tolerance max_iter=5"):
    _v, _c = parse_mode("Hm0 Tmm10 cot_alpha_down cot_alpha_up B_berm db gamma_f gamma_beta " + _mode)

    @lemma("iteration: TAW run-up on a composite slope [%s]" % _mode, "C14 C06 C04", vars=_vmap(_v, dict(tolerance=pos(1e-5, 1e-3)), T), opaque=IT_OPQ)
    def t_iter(m, Hm0, Tmm10, cot_alpha_down, cot_alpha_up, B_berm, db, gamma_f, gamma_beta, _c=_c, c1=1.75, c2=4.3, c3=1.6, c4=1.0, tolerance=1e-4):
        c = _consts(m, _c)
        n, bf = c.get("max_iter", 1000), c.get("use_best_fit", False)
        co = dict(c1=c1, c2=c2, c3=c3, c4=c4, use_best_fit=bf)
        a = dict(tolerance=tolerance, max_iter=n) if "max_iter" in c else {}
        m.assume(db <= 1.5 * Hm0)          # the berm is part of the slope the waves run up: the average slope is positive
        m.assume((1.5 * Hm0 - db) * cot_alpha_down + db * cot_alpha_up >= 0)
        m.clear_loops()
        z = m.attempt(m.code(ITER), Hm0=Hm0, Tmm10=Tmm10, cot_alpha_down=cot_alpha_down, cot_alpha_up=cot_alpha_up, B_berm=B_berm, db=db, gamma_f=gamma_f, gamma_beta=gamma_beta, **co, **a)
        if type(z).__name__ == "Raised":
            raise Skip()                   # an iterate is negative: breaker parameter below 0.14

        def step(x):
            L = m.code(T + "calculate_berm_length")(Hm0=Hm0, cot_alpha_down=cot_alpha_down, cot_alpha_up=cot_alpha_up, B_berm=B_berm)
            gb = m.code(T + "calculate_influence_berm_gamma_b")(Hm0=Hm0, z2p=x, db=db, B_berm=B_berm, L_berm=L)
            cot = m.code(AVG)(Hm0=Hm0, z2p=x, cot_alpha_down=cot_alpha_down, cot_alpha_up=cot_alpha_up, B_berm=B_berm, db=db)
            return m.code(RUNUP)(Hm0=Hm0, Tmm10=Tmm10, cot_alpha=cot, gamma_b=gb, gamma_f=gamma_f, gamma_beta=gamma_beta, **co)[0]
        m.converged("run-up", z, lambda: step(1.5 * Hm0), step, tolerance, n, x0=1.5 * Hm0)


# ------------------------------------------------------------------ Van Gent (2001)
def vg_runup(m, H, Tmm10, gamma, cot_alpha, c0, c1):
    ksi = iribarren(m, H, Tmm10, cot_alpha)
    if ksi < 0.5 * c1 / c0:
        return c0 * ksi * gamma * H
    return (c1 - 0.25 * c1 ** 2 / c0 / ksi) * gamma * H


@conform(V + "calculate_wave_runup_height_z1p", "C06", ["Hs Tmm10 gamma cot_alpha", "Hs Tmm10 gamma cot_alpha c0 c1"])
def v1(m, Hs, Tmm10, gamma, cot_alpha, c0=1.45, c1=5.1):
    return vg_runup(m, Hs, Tmm10, gamma, cot_alpha, c0, c1)


@conform(V + "calculate_wave_runup_height_z2p", "C06", ["Hs Tmm10 gamma cot_alpha", "Hm0 Tmm10 gamma cot_alpha", "Hs Tmm10 gamma cot_alpha c0 c1"],
         scalar=("Hs", "Hm0"))
def v2(m, Tmm10, gamma, cot_alpha, Hs=None, Hm0=None, c0=1.35, c1=4.7):
    if Hs is None:
        return vg_runup(m, Hm0, Tmm10, gamma, cot_alpha, 1.45, 3.8)
    return vg_runup(m, Hs, Tmm10, gamma, cot_alpha, c0, c1)


@conform(V + "calculate_wave_runup_height_z10p", "C06", ["Hs Tmm10 gamma cot_alpha", "Hs Tmm10 gamma cot_alpha c0 c1"])
def v10(m, Hs, Tmm10, gamma, cot_alpha, c0=1.1, c1=4.0):
    return vg_runup(m, Hs, Tmm10, gamma, cot_alpha, c0, c1)


@conform(V + "calculate_wave_runup_height_zXp", "C06", ["H Tmm10 gamma cot_alpha c0 c1"])
def vX(m, H, Tmm10, gamma, cot_alpha, c0, c1):
    return vg_runup(m, H, Tmm10, gamma, cot_alpha, c0, c1)


@conform(V + "_invert_for_Hs", "C06", ["Hs_i0 z1p Tmm10 gamma cot_alpha", "Hs_i0 z1p Tmm10 gamma cot_alpha c0 c1"])
def vinv(m, Hs_i0, z1p, Tmm10, gamma, cot_alpha, c0=1.45, c1=5.1):
    ksi = iribarren(m, Hs_i0, Tmm10, cot_alpha)
    if ksi < 0.5 * c1 / c0:
        return z1p / (c0 * ksi * gamma)
    return z1p / ((c1 - 0.25 * c1 ** 2 / c0 / ksi) * gamma)


@lemma("Van Gent (2001) 2% run-up: exactly one of the two wave heights is accepted", "C15",
       vars=dict(Hs=pos(0.5, 5), Hm0=pos(0.5, 5), Tmm10=pos(3, 15), gamma=rng(0, 1, 0.3, 1, ls=True), cot_alpha=pos(1.2, 7)))
def v2_refuse(m, Hs, Hm0, Tmm10, gamma, cot_alpha):
    f = m.code(V + "calculate_wave_runup_height_z2p")
    m.ensure("none is refused", m.expect(ValueError, f, Tmm10=Tmm10, gamma=gamma, cot_alpha=cot_alpha))
    m.ensure("both is refused", m.expect(ValueError, f, Tmm10=Tmm10, gamma=gamma, cot_alpha=cot_alpha, Hs=Hs, Hm0=Hm0))
    m.ensure_eq("one is accepted", f(Tmm10=Tmm10, gamma=gamma, cot_alpha=cot_alpha, Hs=Hs),
                vg_runup(m, Hs, Tmm10, gamma, cot_alpha, 1.35, 4.7))


@lemma("the inversion used for the wave height is exact at the solution", "C13", vars=dict(Hs=pos(0.5, 5), Tmm10=pos(3, 15), gamma=rng(0, 1, 0.3, 1, ls=True), cot_alpha=pos(1.2, 7)))
def vinv_ok(m, Hs, Tmm10, gamma, cot_alpha):
    z = m.code(V + "calculate_wave_runup_height_z1p")(Hs, Tmm10, gamma, cot_alpha)
    m.assume(z > 0)
    m.ensure_eq("Hs", m.code(V + "_invert_for_Hs")(Hs, z, Tmm10, gamma, cot_alpha), Hs)


# ------------------------------------------------------------------ range checks made by the run-up functions
def taw_ranges(m, Hm0, Tmm10, gamma_f, gamma_b, gamma_beta, cot):
    out = [(gamma_b, 0.6, 1.0), (gamma_beta, 0.7, 1.0), (gamma_f, 0.5, 1.0), (steepness(m, Hm0, Tmm10), 0.001, 0.07),
           (iribarren(m, Hm0, Tmm10, cot), 0.4, 20.0)]
    return out


def _ru_ranges(m, oblique, coef, Hm0, Tmm10, beta=NAN_, gamma_beta=NAN_, gamma_b=NAN_, gamma_f=1, B_berm=0, db=0, cot_alpha=NAN_,
               cot_alpha_down=NAN_, cot_alpha_up=NAN_, use_best_fit=False):
    if m.isnan(gamma_beta):
        gamma_beta = gamma_oblique(m, beta, oblique)
    coef = exact(m, BESTC if use_best_fit else coef)
    cot, gb = slope_and_berm(m, Hm0, Tmm10, cot_alpha, cot_alpha_down, cot_alpha_up, B_berm, db, gamma_b, gamma_f,
                             gamma_beta, coef)
    return taw_ranges(m, Hm0, Tmm10, gamma_f, gb, gamma_beta, cot)


RUC = [x for x in RU if "c1" not in x]
for _f in ("calculate_dimensionless_wave_runup_height_z2p", "calculate_wave_runup_height_z2p"):
    @checks(T + _f, "C02", RUC, opaque=OPQ, subset_if="cot_alpha_down B_berm")
    def t_ru_ranges(m, got, **kw):
        return _ru_ranges(m, 0.0022, TAWC, **kw)

    @checks(E + _f, "C02", RUC, opaque=OPQ, subset_if="cot_alpha_down B_berm")
    def e_ru_ranges(m, got, gamma_f=1, **kw):
        return _ru_ranges(m, 0.0022 if gamma_f > 0.6 else 0.0063, E18C, gamma_f=gamma_f, **kw)


def nan_ok(m, *xs):
    return not any(m.isnan(x) for x in xs)


@checks(T + "check_validity_range", "C02", ["Hm0", "Hm0 Tmm10", "gamma_f", "gamma_b", "gamma_beta", "cot_alpha Hm0 Tmm10", "gamma_f gamma_b gamma_beta cot_alpha",
                                            "Hm0 Tmm10 gamma_f gamma_b gamma_beta cot_alpha"])
def t_cvr(m, got, Hm0=NAN_, Tmm10=NAN_, gamma_f=NAN_, gamma_b=NAN_, gamma_beta=NAN_, cot_alpha=NAN_):
    out = [(gamma_b, 0.6, 1.0), (gamma_beta, 0.7, 1.0), (gamma_f, 0.5, 1.0)]
    if nan_ok(m, Hm0, Tmm10):
        out.append((steepness(m, Hm0, Tmm10), 0.001, 0.07))
        if nan_ok(m, cot_alpha):
            out.append((iribarren(m, Hm0, Tmm10, cot_alpha), 0.4, 20.0))
    return out
