"""Mean overtopping discharge and crest freeboard of dikes and rubble mound structures:
TAW (2002), EurOtop (2007), EurOtop (2018)  -- C04 formulas, C02 ranges, C12 round trips."""
from engine.core import lemma, conform, checks, pos, real, nonneg, rng, Var
from specs_common import steepness, iribarren, given
from specs_s20_runup import (gamma_oblique, rough_adj, slope_and_berm, positive_slope, exact, TAWC, E18C, BESTC, OPQ, NAN_, GFADJ, INLINE, T as RU_T)

T = "hydraulic.wave_overtopping.taw2002:"
E7 = "hydraulic.wave_overtopping.eurotop2007:"
E8 = "hydraulic.wave_overtopping.eurotop2018:"


def scale(m, g, Hm0):
    return m.sqrt(g * Hm0 ** 3)


# ------------------------------------------------------------------ TAW (2002)
def taw_coef(use_best_fit, sigma):
    if use_best_fit:
        return 4.75 + 0.5 * sigma, 2.6 + 0.35 * sigma
    return 4.3, 2.3


def taw_state(m, Hm0, Tmm10, beta, gamma_beta, gamma_b, gamma_f, B_berm, db, cot_alpha, cot_alpha_down, cot_alpha_up):
    if m.isnan(gamma_beta):
        gamma_beta = gamma_oblique(m, beta, 0.0033)
    cot, gb = slope_and_berm(m, Hm0, Tmm10, cot_alpha, cot_alpha_down, cot_alpha_up, B_berm, db, gamma_b, gamma_f,
                             gamma_beta, exact(m, TAWC))
    ksi = iribarren(m, Hm0, Tmm10, cot)
    return cot, gb, ksi, rough_adj(m, gamma_f, gb, ksi), gamma_beta


def taw_pre(m, Hm0, Tmm10, beta=NAN_, gamma_beta=NAN_, gamma_b=NAN_, gamma_f=1, B_berm=0, db=0, cot_alpha=NAN_, cot_alpha_down=NAN_,
            cot_alpha_up=NAN_, **kw):
    """the representative slope of a composite slope is positive"""
    if given(m, cot_alpha_down, cot_alpha_up):
        if m.isnan(gamma_beta):
            gamma_beta = gamma_oblique(m, beta, 0.0033)
        positive_slope(m, Hm0, Tmm10, cot_alpha_down, cot_alpha_up, B_berm, db, gamma_f, gamma_beta, exact(m, TAWC))


MODES = ["Hm0 Tmm10 {} cot_alpha gamma_beta",
         "Hm0 Tmm10 {} cot_alpha beta gamma_f gamma_v",
         "Hm0 Tmm10 {} cot_alpha gamma_beta gamma_f gamma_b gamma_v",
         "Hm0 Tmm10 {} cot_alpha beta gamma_beta gamma_f gamma_b",
         "Hm0 Tmm10 {} cot_alpha gamma_beta gamma_f gamma_b gamma_v use_best_fit=True",
         "Hm0 Tmm10 {} cot_alpha gamma_beta gamma_f B_berm db",
         "Hm0 Tmm10 {} cot_alpha_down cot_alpha_up beta gamma_f B_berm db gamma_v",
         "Hm0 Tmm10 {} cot_alpha_down cot_alpha_up gamma_beta gamma_f B_berm db use_best_fit=True",
         "Hm0 Tmm10 {} cot_alpha_down cot_alpha_up gamma_beta gamma_f gamma_b"]
TAW_MODES = MODES + ["Hm0 Tmm10 {} cot_alpha gamma_beta gamma_f gamma_b gamma_v sigma use_best_fit=True",
                     "Hm0 Tmm10 {} cot_alpha gamma_beta gamma_f gamma_b gamma_v sigma"]
ARR = ["Hm0 Tmm10 {} cot_alpha gamma_beta gamma_f gamma_b gamma_v", "Hm0 Tmm10 {} cot_alpha beta gamma_f gamma_v",
       "Hm0 Tmm10 {} cot_alpha gamma_beta gamma_f gamma_b gamma_v use_best_fit=True"]


def fm(modes, s, extra=""):
    return [x.format(s) + extra for x in modes]


@conform(T + "q_diml_max_equation", "C04", ["Hm0 Rc gamma_beta gamma_f c3", "Hm0 Rc gamma_beta gamma_f c3 cor3 c2"],
         vars=dict(cor3=nonneg(0, 1)))
def t_qmax(m, Hm0, Rc, gamma_beta, gamma_f, c3, cor3=0, c2=0.2):
    return c2 * m.exp(-(c3 + cor3) * Rc / Hm0 / (gamma_f * gamma_beta))


@conform(T + "Rc_diml_max_equation", "C04", ["Hm0 q gamma_beta gamma_f c3", "Hm0 q gamma_beta gamma_f c3 cor3 c2 g"],
         vars=dict(cor3=nonneg(0, 1)))
def t_Rmax(m, Hm0, q, gamma_beta, gamma_f, c3, cor3=0, c2=0.2, g=9.81):
    return -m.log(q / scale(m, g, Hm0) / c2) * gamma_f * gamma_beta / (c3 + cor3)


@conform(T + "calculate_influence_oblique_waves_gamma_beta", "C04", ["beta", "beta c_gamma_beta max_angle"],
         vars=dict(c_gamma_beta=pos(0.001, 0.01), max_angle=pos(40, 90)))
def t_gbeta(m, beta, c_gamma_beta=0.0033, max_angle=80):
    return gamma_oblique(m, beta, c_gamma_beta, max_angle)


@conform(T + "calculate_influence_crest_wall_gamma_v", "C04", ["alpha_wall_deg"])
def t_gv(m, alpha_wall_deg):
    return 1 if alpha_wall_deg <= 45 else 1.35 - 0.0078 * alpha_wall_deg


@conform(T + "calculate_dimensionless_overtopping_discharge_q", "C04", fm(TAW_MODES, "Rc"), opaque=OPQ, pre=taw_pre,
         arr_modes=fm(ARR, "Rc"), scalar=("gamma_b",))
def t_q(m, Hm0, Tmm10, Rc, cot_alpha=NAN_, cot_alpha_down=NAN_, cot_alpha_up=NAN_, beta=NAN_, B_berm=0, db=0,
        gamma_beta=NAN_, gamma_b=NAN_, gamma_f=1, gamma_v=1, sigma=0, use_best_fit=False):
    c1, c3 = taw_coef(use_best_fit, sigma)
    cot, gb, ksi, gf, gbt = taw_state(m, Hm0, Tmm10, beta, gamma_beta, gamma_b, gamma_f, B_berm, db, cot_alpha,
                                      cot_alpha_down, cot_alpha_up)
    a = 0.067 * m.sqrt(cot) * gb * ksi * m.exp(-c1 * Rc / Hm0 / (ksi * gb * gf * gbt * gamma_v))
    b = 0.2 * m.exp(-c3 * Rc / Hm0 / (gf * gbt))
    return m.min(a, b), a >= b


@conform(T + "calculate_overtopping_discharge_q", "C04", fm(TAW_MODES[1:], "Rc") + fm(ARR[:1], "Rc", " g"), opaque=OPQ, pre=taw_pre,
         arr_modes=fm(ARR, "Rc"), scalar=("gamma_b",))
def t_Q(m, Hm0, Tmm10, Rc, g=9.81, **kw):
    r, mx = t_q(m, Hm0, Tmm10, Rc, **kw)
    return r * scale(m, g, Hm0), mx


@conform(T + "calculate_dimensionless_crest_freeboard", "C04", fm(TAW_MODES, "q") + fm(ARR[:1], "q", " g"), opaque=OPQ, pre=taw_pre,
         arr_modes=fm(ARR, "q"), scalar=("gamma_b",))
def t_r(m, Hm0, Tmm10, q, cot_alpha=NAN_, cot_alpha_down=NAN_, cot_alpha_up=NAN_, beta=NAN_, B_berm=0, db=0,
        gamma_beta=NAN_, gamma_b=NAN_, gamma_f=1, gamma_v=1, sigma=0, g=9.81, use_best_fit=False):
    c1, c3 = taw_coef(use_best_fit, sigma)
    cot, gb, ksi, gf, gbt = taw_state(m, Hm0, Tmm10, beta, gamma_beta, gamma_b, gamma_f, B_berm, db, cot_alpha,
                                      cot_alpha_down, cot_alpha_up)
    qs = q / scale(m, g, Hm0)
    a = -m.log(qs / (0.067 * m.sqrt(cot) * gb * ksi)) * ksi * gb * gf * gbt * gamma_v / c1
    b = -m.log(qs / 0.2) * gf * gbt / c3
    return m.min(a, b), a >= b


@conform(T + "calculate_crest_freeboard_Rc", "C04", fm(TAW_MODES[1:], "q") + fm(ARR[:1], "q", " g"), opaque=OPQ, pre=taw_pre,
         arr_modes=fm(ARR, "q"), scalar=("gamma_b",))
def t_R(m, Hm0, Tmm10, q, **kw):
    r, mx = t_r(m, Hm0, Tmm10, q, **kw)
    return r * Hm0, mx


# ------------------------------------------------------------------ EurOtop (2007)
def e7_coef(c2, c3, use_best_fit):
    return (0.2, 2.6) if use_best_fit else (c2, c3)


def e7_state(m, Hm0, Tmm10, beta, gamma_beta, gamma_f, cot_alpha):
    if m.isnan(gamma_beta):
        gamma_beta = gamma_oblique(m, beta, 0.0022)
    return rough_adj(m, gamma_f, 1, iribarren(m, Hm0, Tmm10, cot_alpha)), gamma_beta


E7M = ["Hm0 Tmm10 {} cot_alpha gamma_beta", "Hm0 Tmm10 {} cot_alpha beta gamma_f", "Hm0 Tmm10 {} cot_alpha beta gamma_beta gamma_f",
       "Hm0 Tmm10 {} cot_alpha gamma_beta gamma_f c2 c3", "Hm0 Tmm10 {} cot_alpha beta gamma_f use_best_fit=True"]


@conform(E7 + "calculate_dimensionless_overtopping_discharge_q_rubble_mound", "C04", fm(E7M, "Rc"))
def e7_q(m, Hm0, Tmm10, Rc, beta=NAN_, gamma_beta=NAN_, gamma_f=1, cot_alpha=NAN_, c2=0.2, c3=2.3, use_best_fit=False):
    c2, c3 = e7_coef(c2, c3, use_best_fit)
    gf, gbt = e7_state(m, Hm0, Tmm10, beta, gamma_beta, gamma_f, cot_alpha)
    return c2 * m.exp(-c3 * Rc / Hm0 / (gf * gbt))


@conform(E7 + "calculate_overtopping_discharge_q_rubble_mound", "C04", fm(E7M, "Rc") + fm(E7M[1:2], "Rc", " g"))
def e7_Q(m, Hm0, Tmm10, Rc, g=9.81, **kw):
    return e7_q(m, Hm0, Tmm10, Rc, **kw) * scale(m, g, Hm0)


@conform(E7 + "calculate_dimensionless_crest_freeboard_rubble_mound", "C04", fm(E7M, "q") + fm(E7M[1:2], "q", " g"))
def e7_r(m, Hm0, Tmm10, q, beta=NAN_, gamma_beta=NAN_, gamma_f=1, cot_alpha=NAN_, c2=0.2, c3=2.3, use_best_fit=False, g=9.81):
    c2, c3 = e7_coef(c2, c3, use_best_fit)
    gf, gbt = e7_state(m, Hm0, Tmm10, beta, gamma_beta, gamma_f, cot_alpha)
    return -m.log(q / scale(m, g, Hm0) / c2) * gf * gbt / c3


@conform(E7 + "calculate_crest_freeboard_Rc_rubble_mound", "C04", fm(E7M, "q") + fm(E7M[1:2], "q", " g"))
def e7_R(m, Hm0, Tmm10, q, **kw):
    return e7_r(m, Hm0, Tmm10, q, **kw) * Hm0


# ------------------------------------------------------------------ EurOtop (2018)
def e8_coef(c1, c2, c3, c4, use_best_fit):
    return (2.7, 0.09, 1.5, 0.023) if use_best_fit else (c1, c2, c3, c4)


def e8_state(m, Hm0, Tmm10, beta, gamma_beta, gamma_b, gamma_f, B_berm, db, cot_alpha, cot_alpha_down, cot_alpha_up, use_best_fit):
    if m.isnan(gamma_beta):
        gamma_beta = gamma_oblique(m, beta, 0.0033 if gamma_f > 0.6 else 0.0063)
    cot, gb = slope_and_berm(m, Hm0, Tmm10, cot_alpha, cot_alpha_down, cot_alpha_up, B_berm, db, gamma_b, gamma_f,
                             gamma_beta, exact(m, BESTC if use_best_fit else E18C), exact(m, E18C))
    ksi = iribarren(m, Hm0, Tmm10, cot)
    return cot, gb, ksi, rough_adj(m, gamma_f, gb, ksi), gamma_beta


E8M = MODES + ["Hm0 Tmm10 {} cot_alpha gamma_beta gamma_f gamma_b gamma_v gamma_star",
               "Hm0 Tmm10 {} cot_alpha gamma_beta gamma_f gamma_b c1 c2 c3 c4"]


def e8_pre(m, Hm0, Tmm10, q=None, beta=NAN_, gamma_beta=NAN_, gamma_b=NAN_, gamma_f=1, B_berm=0, db=0,
           cot_alpha=NAN_, cot_alpha_down=NAN_, cot_alpha_up=NAN_, c1=2.5, c2=0.1035, c3=1.35, c4=0.026, use_best_fit=False, g=9.81, **kw):
    """positive representative slope, and a discharge for which the freeboard is positive"""
    c1, c2, c3, c4 = e8_coef(c1, c2, c3, c4, use_best_fit)
    if given(m, cot_alpha_down, cot_alpha_up):
        if m.isnan(gamma_beta):
            gamma_beta = gamma_oblique(m, beta, 0.0033 if gamma_f > 0.6 else 0.0063)
        positive_slope(m, Hm0, Tmm10, cot_alpha_down, cot_alpha_up, B_berm, db, gamma_f, gamma_beta,
                       exact(m, BESTC if use_best_fit else E18C))
    if q is not None:
        cot, gb, ksi, gf, gbt = e8_state(m, Hm0, Tmm10, beta, gamma_beta, gamma_b, gamma_f, B_berm, db, cot_alpha,
                                         cot_alpha_down, cot_alpha_up, use_best_fit)
        m.assume(q / scale(m, g, Hm0) < c4 * m.sqrt(cot) * gb * ksi)
        m.assume(q / scale(m, g, Hm0) < c2)


def e8_rmpre(m, q=None, gamma_b=NAN_, use_best_fit=False, Hm0=NAN_, c2=0.1035, g=9.81, **kw):
    _, c2, _, _ = e8_coef(0, c2, 0, 0, use_best_fit)
    e8_pre(m, Hm0=Hm0, gamma_b=m.const("1"), use_best_fit=use_best_fit, **kw)
    if q is not None:
        m.assume(q / scale(m, g, Hm0) < c2)


def e8_maxpre(m, Hm0, q, c2=0.1035, g=9.81, **kw):
    m.assume(q / scale(m, g, Hm0) < c2)


@conform(E8 + "q_diml_max_equation", "C04", ["Hm0 Rc gamma_beta", "Hm0 Rc gamma_beta gamma_f gamma_star c2 c3"])
def e8_qmax(m, Hm0, Rc, gamma_beta, gamma_f=1, gamma_star=1, c2=0.1035, c3=1.35):
    return c2 * m.exp(-(c3 * Rc / Hm0 / (gamma_f * gamma_beta * gamma_star)) ** 1.3)


@conform(E8 + "Rc_diml_max_equation", "C04", ["Hm0 q gamma_beta", "Hm0 q gamma_beta gamma_f gamma_star c2 c3 g"], pre=e8_maxpre)
def e8_Rmax(m, Hm0, q, gamma_beta, gamma_f=1, gamma_star=1, c2=0.1035, c3=1.35, g=9.81):
    x = -m.log(q / scale(m, g, Hm0) / c2)
    return x ** (1 / 1.3) / c3 * gamma_f * gamma_beta * gamma_star


@conform(E8 + "calculate_influence_oblique_waves_gamma_beta", "C04", ["beta gamma_f", "beta gamma_f gamma_f_crit c_gamma_beta_smooth c_gamma_beta_rough max_angle"],
         scalar=("gamma_f", "gamma_f_crit", "c_gamma_beta_smooth", "c_gamma_beta_rough", "max_angle"), vars=dict(gamma_f_crit=rng(0, 1, 0.4, 0.8), c_gamma_beta_smooth=pos(0.001, 0.01), c_gamma_beta_rough=pos(0.001, 0.01), max_angle=pos(40, 90)))
def e8_gbeta(m, beta, gamma_f, gamma_f_crit=0.6, c_gamma_beta_smooth=0.0033, c_gamma_beta_rough=0.0063, max_angle=80):
    return gamma_oblique(m, beta, c_gamma_beta_smooth if gamma_f > gamma_f_crit else c_gamma_beta_rough, max_angle)


@conform(E8 + "calculate_dimensionless_overtopping_discharge_q", "C04", fm(E8M, "Rc"), opaque=OPQ, pre=e8_pre,
         arr_modes=fm(ARR, "Rc"), scalar=("gamma_b", "gamma_f"))
def e8_q(m, Hm0, Tmm10, Rc, beta=NAN_, gamma_beta=NAN_, gamma_b=NAN_, gamma_f=1, gamma_v=1, gamma_star=1, B_berm=0, db=0,
         cot_alpha=NAN_, cot_alpha_down=NAN_, cot_alpha_up=NAN_, c1=2.5, c2=0.1035, c3=1.35, c4=0.026, use_best_fit=False):
    c1, c2, c3, c4 = e8_coef(c1, c2, c3, c4, use_best_fit)
    cot, gb, ksi, gf, gbt = e8_state(m, Hm0, Tmm10, beta, gamma_beta, gamma_b, gamma_f, B_berm, db, cot_alpha,
                                     cot_alpha_down, cot_alpha_up, use_best_fit)
    a = c4 * m.sqrt(cot) * gb * ksi * m.exp(-(c1 * Rc / Hm0 / (ksi * gb * gf * gbt * gamma_v)) ** 1.3)
    b = e8_qmax(m, Hm0, Rc, gbt, gf, gamma_star, c2, c3)
    return m.min(a, b), a >= b


@conform(E8 + "calculate_overtopping_discharge_q", "C04", fm(E8M[1:], "Rc") + fm(ARR[:1], "Rc", " g"), opaque=OPQ, pre=e8_pre,
         arr_modes=fm(ARR, "Rc"), scalar=("gamma_b", "gamma_f"))
def e8_Q(m, Hm0, Tmm10, Rc, g=9.81, **kw):
    r, mx = e8_q(m, Hm0, Tmm10, Rc, **kw)
    return r * scale(m, g, Hm0), mx


@conform(E8 + "calculate_dimensionless_crest_freeboard", "C04", fm(E8M, "q") + fm(ARR[:1], "q", " g"), opaque=OPQ, pre=e8_pre,
         arr_modes=fm(ARR, "q"), scalar=("gamma_b", "gamma_f"))
def e8_r(m, Hm0, Tmm10, q, beta=NAN_, gamma_beta=NAN_, gamma_b=NAN_, gamma_f=1, gamma_v=1, gamma_star=1, B_berm=0, db=0,
         cot_alpha=NAN_, cot_alpha_down=NAN_, cot_alpha_up=NAN_, c1=2.5, c2=0.1035, c3=1.35, c4=0.026, use_best_fit=False, g=9.81):
    c1, c2, c3, c4 = e8_coef(c1, c2, c3, c4, use_best_fit)
    cot, gb, ksi, gf, gbt = e8_state(m, Hm0, Tmm10, beta, gamma_beta, gamma_b, gamma_f, B_berm, db, cot_alpha,
                                     cot_alpha_down, cot_alpha_up, use_best_fit)
    x = -m.log(q / scale(m, g, Hm0) / (c4 * m.sqrt(cot) * gb * ksi))
    a = x ** (1 / 1.3) / c1 * ksi * gb * gf * gbt * gamma_v
    b = e8_Rmax(m, Hm0, q, gbt, gf, gamma_star, c2, c3, g)
    return m.min(a, b), a >= b


@conform(E8 + "calculate_crest_freeboard_Rc", "C04", fm(E8M[1:], "q") + fm(ARR[:1], "q", " g"), opaque=OPQ, pre=e8_pre,
         arr_modes=fm(ARR, "q"), scalar=("gamma_b", "gamma_f"))
def e8_R(m, Hm0, Tmm10, q, **kw):
    r, mx = e8_r(m, Hm0, Tmm10, q, **kw)
    return r * Hm0, mx


E8RM = ["Hm0 Tmm10 {} cot_alpha gamma_beta", "Hm0 Tmm10 {} cot_alpha beta gamma_f", "Hm0 Tmm10 {} cot_alpha beta gamma_beta gamma_f",
        "Hm0 Tmm10 {} cot_alpha gamma_beta gamma_f c2 c3",
        "Hm0 Tmm10 {} cot_alpha beta gamma_f use_best_fit=True",
        "Hm0 Tmm10 {} cot_alpha_down cot_alpha_up gamma_beta gamma_f B_berm db",
        "Hm0 Tmm10 {} cot_alpha_down cot_alpha_up beta gamma_f B_berm db use_best_fit=True"]


def e8_rm_state(m, Hm0, Tmm10, beta, gamma_beta, gamma_f, B_berm, db, cot_alpha, cot_alpha_down, cot_alpha_up, use_best_fit):
    cot, gb, ksi, gf, gbt = e8_state(m, Hm0, Tmm10, beta, gamma_beta, m.const("1"), gamma_f, B_berm, db, cot_alpha,
                                     cot_alpha_down, cot_alpha_up, use_best_fit)
    return cot, gf, gbt


@conform(E8 + "calculate_dimensionless_overtopping_discharge_q_rubble_mound", "C04", fm(E8RM, "Rc"), opaque=OPQ, pre=e8_rmpre,
         arr_modes=fm(E8RM[:4], "Rc"), scalar=("gamma_f",))
def e8_rq(m, Hm0, Tmm10, Rc, beta=NAN_, gamma_beta=NAN_, gamma_f=1, B_berm=0, db=0, cot_alpha=NAN_, cot_alpha_down=NAN_,
          cot_alpha_up=NAN_, c2=0.1035, c3=1.35, use_best_fit=False):
    _, c2, c3, _ = e8_coef(0, c2, c3, 0, use_best_fit)
    cot, gf, gbt = e8_rm_state(m, Hm0, Tmm10, beta, gamma_beta, gamma_f, B_berm, db, cot_alpha, cot_alpha_down, cot_alpha_up, use_best_fit)
    return e8_qmax(m, Hm0, Rc, gbt, gf, 1, c2, c3)


@conform(E8 + "calculate_overtopping_discharge_q_rubble_mound", "C04", fm(E8RM, "Rc") + fm(E8RM[1:2], "Rc", " g"), opaque=OPQ, pre=e8_rmpre,
         arr_modes=fm(E8RM[:4], "Rc"), scalar=("gamma_f",))
def e8_rQ(m, Hm0, Tmm10, Rc, g=9.81, **kw):
    return e8_rq(m, Hm0, Tmm10, Rc, **kw) * scale(m, g, Hm0)


@conform(E8 + "calculate_dimensionless_crest_freeboard_rubble_mound", "C04", fm(E8RM, "q") + fm(E8RM[1:2], "q", " g"), opaque=OPQ, pre=e8_rmpre,
         arr_modes=fm(E8RM[:4], "q"), scalar=("gamma_f",))
def e8_rr(m, Hm0, Tmm10, q, beta=NAN_, gamma_beta=NAN_, gamma_f=1, B_berm=0, db=0, cot_alpha=NAN_, cot_alpha_down=NAN_,
          cot_alpha_up=NAN_, c2=0.1035, c3=1.35, use_best_fit=False, g=9.81):
    _, c2, c3, _ = e8_coef(0, c2, c3, 0, use_best_fit)
    cot, gf, gbt = e8_rm_state(m, Hm0, Tmm10, beta, gamma_beta, gamma_f, B_berm, db, cot_alpha, cot_alpha_down, cot_alpha_up, use_best_fit)
    return e8_Rmax(m, Hm0, q, gbt, gf, 1, c2, c3, g)


@conform(E8 + "calculate_crest_freeboard_Rc_rubble_mound", "C04", fm(E8RM, "q") + fm(E8RM[1:2], "q", " g"), opaque=OPQ, pre=e8_rmpre,
         arr_modes=fm(E8RM[:4], "q"), scalar=("gamma_f",))
def e8_rR(m, Hm0, Tmm10, q, **kw):
    return e8_rr(m, Hm0, Tmm10, q, **kw) * Hm0


# ------------------------------------------------------------------ ranges (C02)
def taw_q_ranges(m, Hm0, Tmm10, cot, gb, gamma_f, gbt, gamma_v, beta, down, up):
    ksi = iribarren(m, Hm0, Tmm10, cot)
    return [(steepness(m, Hm0, Tmm10), 0, 0.07), (ksi, 0, 7), (gb * ksi, 0.5, 10), (down, 1, 7), (up, 1, 7), (beta, 0, 90),
            (gb, 0.4, 1), (gamma_f, 0.4, 1), (gbt, 0.4, 1), (gamma_v, 0.4, 1)]


for _f, _x in (("calculate_overtopping_discharge_q", "Rc"), ("calculate_dimensionless_overtopping_discharge_q", "Rc"),
               ("calculate_crest_freeboard_Rc", "q"), ("calculate_dimensionless_crest_freeboard", "q")):
    @checks(T + _f, "C02", fm(MODES, _x), opaque=OPQ, pre=taw_pre, subset_if="cot_alpha_down B_berm")
    def t_ranges(m, got, Hm0, Tmm10, Rc=NAN_, q=NAN_, cot_alpha=NAN_, cot_alpha_down=NAN_, cot_alpha_up=NAN_, beta=NAN_,
                 B_berm=0, db=0, gamma_beta=NAN_, gamma_b=NAN_, gamma_f=1, gamma_v=1, use_best_fit=False):
        cot, gb, ksi, gf, gbt = taw_state(m, Hm0, Tmm10, beta, gamma_beta, gamma_b, gamma_f, B_berm, db, cot_alpha,
                                          cot_alpha_down, cot_alpha_up)
        return taw_q_ranges(m, Hm0, Tmm10, cot, gb, gamma_f, gbt, gamma_v, beta, cot_alpha_down, cot_alpha_up)


for _f, _x in (("calculate_overtopping_discharge_q_rubble_mound", "Rc"), ("calculate_dimensionless_overtopping_discharge_q_rubble_mound", "Rc"),
               ("calculate_crest_freeboard_Rc_rubble_mound", "q"), ("calculate_dimensionless_crest_freeboard_rubble_mound", "q")):
    @checks(E8 + _f, "C02", fm([E8RM[1], E8RM[2], E8RM[4], E8RM[5]], _x), opaque=OPQ, pre=e8_rmpre, subset_if="cot_alpha_down")
    def e8_ranges(m, got, Hm0, Tmm10, Rc=NAN_, q=NAN_, beta=NAN_, gamma_beta=NAN_, gamma_f=1, B_berm=0, db=0, cot_alpha=NAN_,
                  cot_alpha_down=NAN_, cot_alpha_up=NAN_, use_best_fit=False):
        cot, gf, gbt = e8_rm_state(m, Hm0, Tmm10, beta, gamma_beta, gamma_f, B_berm, db, cot_alpha, cot_alpha_down, cot_alpha_up, use_best_fit)
        return [(cot, m.const("4") / 3, 2)]


@checks(T + "check_validity_range", "C02", ["Hm0 Tmm10", "beta", "cot_alpha", "cot_alpha_down", "cot_alpha_up", "gamma_f", "gamma_b", "gamma_beta",
                                            "gamma_v", "Hm0 Tmm10 cot_alpha", "Hm0 Tmm10 cot_alpha gamma_b",
                                            "Hm0 Tmm10 beta cot_alpha cot_alpha_down cot_alpha_up gamma_f gamma_b gamma_beta gamma_v"])
def t_cvr(m, got, Hm0=NAN_, Tmm10=NAN_, beta=NAN_, cot_alpha=NAN_, cot_alpha_down=NAN_, cot_alpha_up=NAN_, gamma_f=NAN_,
          gamma_b=NAN_, gamma_beta=NAN_, gamma_v=NAN_):
    out = [(cot_alpha_down, 1, 7), (cot_alpha_up, 1, 7), (beta, 0, 90), (gamma_b, 0.4, 1), (gamma_f, 0.4, 1), (gamma_beta, 0.4, 1),
           (gamma_v, 0.4, 1)]
    if given(m, Hm0, Tmm10):
        out.append((steepness(m, Hm0, Tmm10), 0, 0.07))
        if given(m, cot_alpha):
            ksi = iribarren(m, Hm0, Tmm10, cot_alpha)
            out.append((ksi, 0, 7))
            if given(m, gamma_b):
                out.append((gamma_b * ksi, 0.5, 10))
    return out


# ------------------------------------------------------------------ discharge <-> freeboard (C12)
def roundtrip(qf, rf, modes, flag=True, vars=None, extra=None, **opts):
    from engine.core import parse_mode, _vmap, _consts
    for mode in modes:
        vs, cs = parse_mode(mode)

        def h(m, Rc, __cs=cs, **kw):
            args = dict(kw, **_consts(m, __cs))
            if extra:
                extra(m, Rc=Rc, **args)
            a = m.code(qf)(Rc=Rc, **args)
            q, fq = a if flag else (a, None)
            m.representable(q)
            b = m.code(rf)(q=q, **args)
            R, fR = b if flag else (b, None)
            m.ensure_eq("freeboard recovered", R, Rc, tol=1e-7)
        lemma("round trip: %s -> %s [%s]" % (qf, rf.split(":")[1], mode), "C12", vars=_vmap(["Rc"] + vs, vars, qf), **opts)(h)


# callees taken by contract (a positive number determined by the arguments)
RT_OPQ = dict(OPQ, **{GFADJ: (1, True), RU_T + "calculate_influence_oblique_waves_gamma_beta": (1, True),
                      T + "calculate_influence_oblique_waves_gamma_beta": (1, True),
                      E8 + "calculate_influence_oblique_waves_gamma_beta": (1, True)})
INLINE.update(RT_OPQ.keys() - OPQ.keys())


def rt_pre(fn, coef, best=None):
    def pre(m, Hm0, Tmm10, beta=NAN_, gamma_beta=NAN_, gamma_f=1, B_berm=0, db=0, cot_alpha_down=NAN_, cot_alpha_up=NAN_,
            use_best_fit=False, **kw):
        if given(m, cot_alpha_down, cot_alpha_up):
            if m.isnan(gamma_beta):
                f = m.code(fn + "calculate_influence_oblique_waves_gamma_beta")
                gamma_beta = f(beta=beta, gamma_f=gamma_f) if fn == E8 else f(beta=beta)
            positive_slope(m, Hm0, Tmm10, cot_alpha_down, cot_alpha_up, B_berm, db, gamma_f, gamma_beta,
                           exact(m, best if best and use_best_fit else coef))
    return pre


RT = [x.replace("{} ", "") for x in MODES]
roundtrip(T + "calculate_overtopping_discharge_q", T + "calculate_crest_freeboard_Rc",
          [x.replace("{} ", "") for x in TAW_MODES[1:]] + [RT[2] + " g"], opaque=RT_OPQ, extra=rt_pre(T, TAWC))
roundtrip(E8 + "calculate_overtopping_discharge_q", E8 + "calculate_crest_freeboard_Rc",
          [x.replace("{} ", "") for x in E8M[1:]] + [RT[2] + " g"], opaque=RT_OPQ, extra=rt_pre(E8, E18C, BESTC))
roundtrip(E7 + "calculate_overtopping_discharge_q_rubble_mound", E7 + "calculate_crest_freeboard_Rc_rubble_mound",
          [x.replace("{} ", "") for x in E7M] + [E7M[1].replace("{} ", "") + " g"], flag=False, opaque=RT_OPQ)
roundtrip(E8 + "calculate_overtopping_discharge_q_rubble_mound", E8 + "calculate_crest_freeboard_Rc_rubble_mound",
          [x.replace("{} ", "") for x in E8RM] + [E8RM[1].replace("{} ", "") + " g"], flag=False, opaque=RT_OPQ, extra=rt_pre(E8, E18C, BESTC))
