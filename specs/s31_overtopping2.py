"""Overtopping: De Ridder et al. (2024, 2026), Van Gent (2021) caissons, Van Gent et al. (2025),
overtopping flow velocity Van Gent (2002) -- C05 formulas, C02 ranges, C12 round trips, C15 refusals."""
from engine.core import INLINE, parse_mode, _vmap, _consts, lemma, conform, checks, pos, real, nonneg, rng, Var
from specs_common import steepness, iribarren, given
from specs_s20_runup import NAN_
from specs_s30_overtopping import scale, roundtrip

D4 = "hydraulic.wave_overtopping.deridder2024:"
D6 = "hydraulic.wave_overtopping.deridder2026:"
V1 = "hydraulic.wave_overtopping.vangent2021_caisson:"
V2 = "hydraulic.wave_overtopping.vangent2002_velocity:"
V5 = "hydraulic.wave_overtopping.vangent2025:"
LF = dict(Hm0_LF=pos(0.05, 3.0))

# ------------------------------------------------------------------ De Ridder et al. (2024)


def d4_24(m, Hm0, smm10_HF, gamma_f, Rc):
    return 0.74 * m.exp(-8.51 * Rc / (Hm0 * gamma_f) * smm10_HF ** 0.32)


def d4_26(m, Hm0, smm10_HF, Hm0_LF, gamma_f, Rc):
    return 0.5 * m.exp(-7.91 * (Rc - 0.21 * Hm0_LF) / (Hm0 * gamma_f) * smm10_HF ** 0.3)


conform(D4 + "calculate_dimensionless_overtopping_discharge_eq24", "C05", ["Hm0 smm10_HF gamma_f Rc"])(d4_24)
conform(D4 + "calculate_dimensionless_overtopping_discharge_eq26", "C05", ["Hm0 smm10_HF Hm0_LF gamma_f Rc"], vars=LF)(d4_26)


@conform(D4 + "calculate_overtopping_discharge_q_eq24", "C05", ["Hm0 smm10_HF gamma_f Rc", "Hm0 smm10_HF gamma_f Rc g"])
def d4_q24(m, Hm0, smm10_HF, gamma_f, Rc, g=9.81):
    return d4_24(m, Hm0, smm10_HF, gamma_f, Rc) * scale(m, g, Hm0)


@conform(D4 + "calculate_overtopping_discharge_q_eq26", "C05", ["Hm0 smm10_HF Hm0_LF gamma_f Rc", "Hm0 smm10_HF Hm0_LF gamma_f Rc g"], vars=LF)
def d4_q26(m, Hm0, smm10_HF, Hm0_LF, gamma_f, Rc, g=9.81):
    return d4_26(m, Hm0, smm10_HF, Hm0_LF, gamma_f, Rc) * scale(m, g, Hm0)


@conform(D4 + "calculate_dimensionless_crest_freeboard_discharge_q_eq24", "C05", ["Hm0 smm10_HF gamma_f q", "Hm0 smm10_HF gamma_f q g"])
def d4_r24(m, Hm0, smm10_HF, gamma_f, q, g=9.81):
    return -m.log(q / scale(m, g, Hm0) / 0.74) * gamma_f / (8.51 * smm10_HF ** 0.32)


@conform(D4 + "calculate_crest_freeboard_discharge_q_eq24", "C05", ["Hm0 smm10_HF gamma_f q", "Hm0 smm10_HF gamma_f q g"])
def d4_R24(m, Hm0, **kw):
    return d4_r24(m, Hm0, **kw) * Hm0


@conform(D4 + "calculate_crest_freeboard_discharge_q_eq26", "C05", ["Hm0 smm10_HF Hm0_LF gamma_f q", "Hm0 smm10_HF Hm0_LF gamma_f q g"], vars=LF)
def d4_R26(m, Hm0, smm10_HF, Hm0_LF, gamma_f, q, g=9.81):
    return -m.log(q / scale(m, g, Hm0) / 0.5) * gamma_f * Hm0 / (7.91 * smm10_HF ** 0.3) + 0.21 * Hm0_LF


for _f, _R in (("calculate_dimensionless_overtopping_discharge_eq24", None), ("calculate_overtopping_discharge_q_eq24", None),
               ("calculate_dimensionless_crest_freeboard_discharge_q_eq24", "ratio"), ("calculate_crest_freeboard_discharge_q_eq24", "abs")):
    @checks(D4 + _f, "C02", ["Hm0 smm10_HF gamma_f " + ("q" if _R else "Rc")])
    def d4_ranges24(m, got, Hm0, smm10_HF, gamma_f, Rc=None, q=None, _R=_R):
        r = Rc / Hm0 if _R is None else (got if _R == "ratio" else got / Hm0)
        return [(smm10_HF, 0.004, 0.047), (r, 0.8, 3.72)]

for _f, _R in (("calculate_dimensionless_overtopping_discharge_eq26", None), ("calculate_overtopping_discharge_q_eq26", None),
               ("calculate_crest_freeboard_discharge_q_eq26", "abs")):
    @checks(D4 + _f, "C02", ["Hm0 smm10_HF Hm0_LF gamma_f " + ("q" if _R else "Rc")], vars=LF)
    def d4_ranges26(m, got, Hm0, smm10_HF, Hm0_LF, gamma_f, Rc=None, q=None, _R=_R):
        return [(smm10_HF, 0.004, 0.047), ((Rc if _R is None else got) / Hm0, 0.8, 3.72), (Hm0_LF / Hm0, 0.1, 0.81)]


@checks(D4 + "check_validity_range", "C02", ["Hm0 Tmm10", "Hm0_HF Tmm10_HF", "Hm0 Tmm10 cot_alpha", "m_foreshore_slope", "Rc Hm0", "Dn50 Hm0",
                                             "Hm0 Hm0_LF", "h Hm0", "h Hm0 Hm0_HF Hm0_LF Tmm10 Tmm10_HF Rc cot_alpha m_foreshore_slope Dn50"])
def d4_cvr(m, got, h=NAN_, Hm0=NAN_, Hm0_HF=NAN_, Hm0_LF=NAN_, Tmm10=NAN_, Tmm10_HF=NAN_, Rc=NAN_, cot_alpha=NAN_, m_foreshore_slope=NAN_, Dn50=NAN_):
    out = [(m_foreshore_slope, 0.01, 0.05)]
    if given(m, Hm0, Tmm10):
        out.append((steepness(m, Hm0, Tmm10), 0.001, 0.04))
        if given(m, cot_alpha):
            out.append((iribarren(m, Hm0, Tmm10, cot_alpha), 0.05, 1.11))
    if given(m, Hm0_HF, Tmm10_HF):
        out.append((steepness(m, Hm0_HF, Tmm10_HF), 0.004, 0.047))
    for x, lo, hi in ((Rc, 0.8, 3.72), (Dn50, 0.12, 0.89), (Hm0_LF, 0.1, 0.81), (h, 0.57, 4.95)):
        if given(m, Hm0, x):
            out.append((x / Hm0, lo, hi))
    return out


roundtrip(D4 + "calculate_overtopping_discharge_q_eq24", D4 + "calculate_crest_freeboard_discharge_q_eq24",
          ["Hm0 smm10_HF gamma_f", "Hm0 smm10_HF gamma_f g"], flag=False)
roundtrip(D4 + "calculate_overtopping_discharge_q_eq26", D4 + "calculate_crest_freeboard_discharge_q_eq26",
          ["Hm0 smm10_HF Hm0_LF gamma_f", "Hm0 smm10_HF Hm0_LF gamma_f g"], flag=False, vars=LF)


# ------------------------------------------------------------------ De Ridder et al. (2026)
TH = dict(LF, theta=rng(-90, 90, -89, 89, ls=True, hs=True))


def d6_gb(m, theta):
    return 0.65 * m.cos(m.pi / 180 * theta) ** 2 + 0.35


conform(D6 + "calculate_gamma_beta", "C05", ["theta"], vars=TH)(d6_gb)


def d6_28(m, Hm0, smm10_HF, gamma_f, Rc, theta=0):
    return 0.16 * m.exp(-6.93 * Rc / (Hm0 * gamma_f * d6_gb(m, theta)) * smm10_HF ** 0.36)


def d6_32(m, Hm0_HF, smm10_HF, Hm0_LF, gamma_f, Rc, theta=0):
    return 0.05 * m.exp(-10.4 * (Rc - 0.97 * Hm0_LF) / Hm0_HF / (gamma_f * d6_gb(m, theta)) * m.sqrt(smm10_HF))


M28 = ["Hm0 smm10_HF gamma_f {}", "Hm0 smm10_HF gamma_f {} theta"]
M32 = ["Hm0_HF smm10_HF Hm0_LF gamma_f {}", "Hm0_HF smm10_HF Hm0_LF gamma_f {} theta"]


def f_(ms, x, *extra):
    return [a.format(x) for a in ms] + [a.format(x) + e for a in ms[-1:] for e in extra]


conform(D6 + "calculate_dimensionless_overtopping_discharge_eq28", "C05", f_(M28, "Rc"), vars=TH)(d6_28)
conform(D6 + "calculate_dimensionless_overtopping_discharge_eq32", "C05", f_(M32, "Rc"), vars=TH)(d6_32)


@conform(D6 + "calculate_overtopping_discharge_q_eq28", "C05", f_(M28, "Rc", " g"), vars=TH)
def d6_q28(m, Hm0, g=9.81, **kw):
    return d6_28(m, Hm0, **kw) * scale(m, g, Hm0)


@conform(D6 + "calculate_overtopping_discharge_q_eq32", "C05", f_(M32, "Rc", " g"), vars=TH)
def d6_q32(m, Hm0_HF, g=9.81, **kw):
    return d6_32(m, Hm0_HF, **kw) * scale(m, g, Hm0_HF)


@conform(D6 + "calculate_dimensionless_crest_freeboard_discharge_q_eq28", "C05", ["Hm0 smm10_HF gamma_f q", "Hm0 smm10_HF gamma_f q g gamma_beta"])
def d6_r28(m, Hm0, smm10_HF, gamma_f, q, g=9.81, gamma_beta=1):
    return -m.log(q / scale(m, g, Hm0) / 0.16) * gamma_f * gamma_beta / (6.93 * smm10_HF ** 0.36)


@conform(D6 + "calculate_crest_freeboard_discharge_q_eq28", "C05", f_(M28, "q", " g"), vars=TH)
def d6_R28(m, Hm0, smm10_HF, gamma_f, q, g=9.81, theta=0):
    return d6_r28(m, Hm0, smm10_HF, gamma_f, q, g, d6_gb(m, theta)) * Hm0


@conform(D6 + "calculate_crest_freeboard_discharge_q_eq32", "C05", f_(M32, "q", " g"), vars=TH)
def d6_R32(m, Hm0_HF, smm10_HF, Hm0_LF, gamma_f, q, g=9.81, theta=0):
    return -m.log(q / scale(m, g, Hm0_HF) / 0.05) * gamma_f * d6_gb(m, theta) * Hm0_HF / (10.4 * m.sqrt(smm10_HF)) + 0.97 * Hm0_LF


for _f, _R in (("calculate_dimensionless_overtopping_discharge_eq28", False), ("calculate_overtopping_discharge_q_eq28", False),
               ("calculate_crest_freeboard_discharge_q_eq28", True)):
    @checks(D6 + _f, "C02", f_(M28, "q" if _R else "Rc"), vars=TH)
    def d6_ranges28(m, got, Hm0, smm10_HF, gamma_f, Rc=None, q=None, theta=0, _R=_R):
        return [(smm10_HF, 0.012, 0.049), ((got if _R else Rc) / Hm0, 0.98, 1.94), (theta, 0, 56)]

for _f, _R in (("calculate_dimensionless_overtopping_discharge_eq32", False), ("calculate_overtopping_discharge_q_eq32", False),
               ("calculate_crest_freeboard_discharge_q_eq32", True)):
    @checks(D6 + _f, "C02", f_(M32, "q" if _R else "Rc"), vars=TH)
    def d6_ranges32(m, got, Hm0_HF, smm10_HF, Hm0_LF, gamma_f, Rc=None, q=None, theta=0, _R=_R):
        return [(smm10_HF, 0.012, 0.049), ((got if _R else Rc) / Hm0_HF, 0.98, 1.94), (Hm0_LF / Hm0_HF, 0.15, 0.55), (theta, 0, 56)]


@checks(D6 + "calculate_dimensionless_crest_freeboard_discharge_q_eq28", "C02", ["Hm0 smm10_HF gamma_f q gamma_beta"])
def d6_ranges28d(m, got, Hm0, smm10_HF, gamma_f, q, gamma_beta):
    return [(smm10_HF, 0.012, 0.049), (got, 0.98, 1.94)]


@checks(D6 + "check_validity_range", "C02", ["Hm0 Tmm10", "Hm0_HF Tmm10_HF", "Rc Hm0", "Dn50 Hm0", "Hm0 Hm0_LF", "h Hm0", "theta",
                                             "h Hm0 Hm0_HF Hm0_LF Tmm10 Tmm10_HF Rc Dn50 theta"])
def d6_cvr(m, got, h=NAN_, Hm0=NAN_, Hm0_HF=NAN_, Hm0_LF=NAN_, Tmm10=NAN_, Tmm10_HF=NAN_, Rc=NAN_, Dn50=NAN_, theta=NAN_):
    out = [(theta, 0, 56)]
    if given(m, Hm0, Tmm10):
        out.append((steepness(m, Hm0, Tmm10), 0.003, 0.041))
    if given(m, Hm0_HF, Tmm10_HF):
        out.append((steepness(m, Hm0_HF, Tmm10_HF), 0.012, 0.049))
    for x, lo, hi in ((Rc, 0.98, 1.94), (Dn50, 0.18, 0.35), (Hm0_LF, 0.15, 0.55), (h, 1.41, 2.15)):
        if given(m, Hm0, x):
            out.append((x / Hm0, lo, hi))
    return out


roundtrip(D6 + "calculate_overtopping_discharge_q_eq28", D6 + "calculate_crest_freeboard_discharge_q_eq28",
          ["Hm0 smm10_HF gamma_f", "Hm0 smm10_HF gamma_f theta g"], flag=False, vars=TH)
roundtrip(D6 + "calculate_overtopping_discharge_q_eq32", D6 + "calculate_crest_freeboard_discharge_q_eq32",
          ["Hm0_HF smm10_HF Hm0_LF gamma_f", "Hm0_HF smm10_HF Hm0_LF gamma_f theta g"], flag=False, vars=TH)


# ------------------------------------------------------------------ Van Gent (2021), caissons
BT = dict(beta=rng(-90, 90, -75, 75, ls=True, hs=True))


def v1_coef(m, c, short_crested_waves, crossing_seas, parapet):
    if short_crested_waves or crossing_seas:
        if c == 1:
            return 0.2, 3.9, 0.75, (0.89 if parapet else 1)
        return 0.047, 2.57, 0.7, (0.85 if parapet else 1)
    if parapet:
        raise ValueError("not derived")
    return (0.2, 4, 0.8, 1) if c == 1 else (0.047, 2.7, 0.8, 1)


def v1_gb(m, beta, gamma_p, c_beta):
    return (1 - c_beta / gamma_p) * m.cos(m.pi / 180 * beta) ** 2 + c_beta / gamma_p


conform(V1 + "calculate_influence_oblique_waves_gamma_beta", "C05", ["beta gamma_p c_beta"], vars=dict(c_beta=rng(0, 1, 0.5, 0.9)))(v1_gb)


def v1_q(m, Hm0, Rc, beta=NAN_, gamma_beta=NAN_, Hm0_swell=NAN_, c=1, c_swell=0.4, short_crested_waves=True, crossing_seas=False, parapet=False):
    a, b, c_beta, gp = v1_coef(m, c, short_crested_waves, crossing_seas, parapet)
    if m.isnan(gamma_beta):
        gamma_beta = v1_gb(m, beta, gp, c_beta)
    R = Rc - c_swell * Hm0_swell if crossing_seas else Rc
    return a * m.exp(-b / (gamma_beta * gp) * (R / Hm0) ** c)


def v1_r(m, Hm0, q, beta=NAN_, gamma_beta=NAN_, Hm0_swell=NAN_, c=1, c_swell=0.4, short_crested_waves=True, crossing_seas=False, parapet=False, g=9.81):
    a, b, c_beta, gp = v1_coef(m, c, short_crested_waves, crossing_seas, parapet)
    if m.isnan(gamma_beta):
        gamma_beta = v1_gb(m, beta, gp, c_beta)
    r = (-m.log(q / scale(m, g, Hm0) / a) * gamma_beta * gp / b) ** (1 / c)
    return r + c_swell * Hm0_swell / Hm0 if crossing_seas else r


def v1_pre(m, Hm0, Rc=None, q=None, Hm0_swell=NAN_, c=1, c_swell=0.4, crossing_seas=False, g=9.81, **kw):
    """a positive (effective) freeboard"""
    if crossing_seas and Rc is not None and given(m, Hm0_swell):
        m.assume(Rc > c_swell * Hm0_swell)
    if q is not None:
        m.assume(q / scale(m, g, Hm0) < (0.2 if c == 1 else 0.047))


V1M = ["Hm0 {} beta", "Hm0 {} gamma_beta", "Hm0 {} beta gamma_beta c=1.3", "Hm0 {} beta c=1.3", "Hm0 {} beta short_crested_waves=False",
       "Hm0 {} beta short_crested_waves=False c=1.3", "Hm0 {} beta parapet=True", "Hm0 {} beta parapet=True c=1.3",
       "Hm0 {} beta Hm0_swell crossing_seas=True", "Hm0 {} beta Hm0_swell crossing_seas=True c=1.3 parapet=True",
       "Hm0 {} gamma_beta Hm0_swell c_swell crossing_seas=True short_crested_waves=False",
       "Hm0 {} beta Hm0_swell c_swell", "Hm0 {} beta short_crested_waves=False parapet=True", "Hm0 {} gamma_beta crossing_seas=True"]
VS = dict(BT, c_swell=rng(0, 1, 0.1, 0.8))
V1A = V1M[:11]


@conform(V1 + "calculate_dimensionless_overtopping_discharge_q", "C05", [x.format("Rc") for x in V1M[:12]], vars=VS, pre=v1_pre,
         arr_modes=[x.format("Rc") for x in V1A], scalar=("gamma_beta", "Hm0_swell"))
def v1_qd(m, **kw):
    return v1_q(m, **kw)


@conform(V1 + "calculate_overtopping_discharge_q", "C05", [x.format("Rc") for x in V1M[:12]] + ["Hm0 Rc beta Hm0_swell c_swell crossing_seas=True g"], vars=VS, pre=v1_pre,
         arr_modes=[x.format("Rc") for x in V1A[:4]], scalar=("gamma_beta", "Hm0_swell"))
def v1_Q(m, Hm0, g=9.81, **kw):
    return v1_q(m, Hm0, **kw) * scale(m, g, Hm0)


@conform(V1 + "calculate_dimensionless_crest_freeboard", "C05", [x.format("q") for x in V1M[:12]] + ["Hm0 q beta Hm0_swell c_swell crossing_seas=True g"], vars=VS, pre=v1_pre,
         arr_modes=[x.format("q") for x in V1A], scalar=("gamma_beta", "Hm0_swell"))
def v1_rd(m, **kw):
    return v1_r(m, **kw)


@conform(V1 + "calculate_crest_freeboard_Rc", "C05", [x.format("q") for x in V1M[:12]] + ["Hm0 q beta Hm0_swell c_swell crossing_seas=True g"], vars=VS, pre=v1_pre,
         arr_modes=[x.format("q") for x in V1A[:4]], scalar=("gamma_beta", "Hm0_swell"))
def v1_R(m, Hm0, **kw):
    return v1_r(m, Hm0, **kw) * Hm0


for _f in ("calculate_dimensionless_overtopping_discharge_q", "calculate_overtopping_discharge_q"):
    @checks(V1 + _f, "C02", [x.format("Rc") for x in V1M[:12]], vars=VS, pre=v1_pre)
    def v1_ranges_q(m, got, Hm0, Rc, beta=NAN_, **kw):
        return [(Rc / Hm0, 1.2, 2.9), (v1_q(m, Hm0, Rc, beta=beta, **kw), 0, 0.0012), (beta, 0, 75)]

for _f in ("calculate_dimensionless_crest_freeboard", "calculate_crest_freeboard_Rc"):
    @checks(V1 + _f, "C02", [x.format("q") for x in V1M[:12]], vars=VS, pre=v1_pre)
    def v1_ranges_r(m, got, Hm0, q, beta=NAN_, **kw):
        return [(v1_r(m, Hm0, q, beta=beta, **kw), 1.2, 2.9), (beta, 0, 75)]


@checks(V1 + "check_validity_range", "C02", ["Hm0 Tmm10", "Hm0 Rc", "q_diml", "beta", "Hm0 Tmm10 Rc q_diml beta"])
def v1_cvr(m, got, Hm0=NAN_, Tmm10=NAN_, beta=NAN_, Rc=NAN_, q_diml=NAN_):
    out = [(q_diml, 0, 0.0012), (beta, 0, 75)]
    if given(m, Hm0, Tmm10):
        out.append((steepness(m, Hm0, Tmm10), 0.015, 0.041))
    if given(m, Hm0, Rc):
        out.append((Rc / Hm0, 1.2, 2.9))
    return out


roundtrip(V1 + "calculate_overtopping_discharge_q", V1 + "calculate_crest_freeboard_Rc",
          [x.replace("{} ", "") for x in V1M[:12]] + ["Hm0 beta Hm0_swell c_swell crossing_seas=True g"], flag=False, vars=VS, extra=v1_pre)


@lemma("Van Gent (2021) caissons: unsupported combinations are refused", "C15",
       vars=dict(Hm0=pos(0.5, 5), Rc=pos(0.5, 8), q=pos(1e-5, 0.01), gamma_beta=rng(0, 1, 0.4, 1, ls=True), c=pos(0.5, 2), Hm0_swell=pos(0.1, 2)))
def v1_refuse(m, Hm0, Rc, q, gamma_beta, c, Hm0_swell):
    for f, kw in ((m.code(V1 + "calculate_overtopping_discharge_q"), dict(Rc=Rc)), (m.code(V1 + "calculate_crest_freeboard_Rc"), dict(q=q))):
        kw = dict(kw, Hm0=Hm0, gamma_beta=gamma_beta)
        m.ensure("crossing seas need the swell height", m.expect(ValueError, f, crossing_seas=True, **kw))
        m.ensure("long-crested waves with a parapet", m.expect(ValueError, f, short_crested_waves=False, parapet=True, **kw))
        if c != 1 and c != 1.3:
            m.ensure("other exponents", m.expect(ValueError, f, c=c, **kw))


# ------------------------------------------------------------------ overtopping flow velocity, Van Gent (2002)
VV = dict(cu1=pos(0.5, 2.5), cu2=nonneg(0, 0.5), uXp=pos(0.2, 10), Rc=pos(0.1, 3), zXp=pos(0.5, 12))


def v2_pre(m, zXp=None, Rc=None, **kw):
    if zXp is not None:
        m.assume(zXp >= Rc)


@conform(V2 + "calculate_maximum_wave_overtopping_velocity_uXp", "C05", ["Hs zXp Rc Bc gamma_f gamma_f_Crest", "Hs zXp Rc Bc gamma_f gamma_f_Crest cu1 cu2 g"],
         vars=VV, pre=v2_pre)
def v2_u(m, Hs, zXp, Rc, Bc, gamma_f, gamma_f_Crest, cu1=1.7, cu2=0.1, g=9.81):
    return cu1 * m.sqrt(gamma_f_Crest) * m.sqrt(g * (zXp - Rc) / gamma_f) / (1 + cu2 * Bc / Hs)


@conform(V2 + "_invert_for_zXp", "C05", ["Hs uXp Rc Bc gamma_f gamma_f_Crest", "Hs uXp Rc Bc gamma_f gamma_f_Crest cu1 cu2 g"], vars=VV)
def v2_z(m, Hs, uXp, Rc, Bc, gamma_f, gamma_f_Crest, cu1=1.7, cu2=0.1, g=9.81):
    return Rc + gamma_f * (uXp * (1 + cu2 * Bc / Hs)) ** 2 / (g * cu1 ** 2 * gamma_f_Crest)


@lemma("overtopping velocity: the inverse recovers the run-up level", "C12",
       vars=dict(VV, Hs=pos(0.5, 5), Bc=pos(1, 15), gamma_f=rng(0, 1, 0.3, 1, ls=True), gamma_f_Crest=rng(0, 1, 0.3, 1, ls=True), g=pos(5, 12)))
def v2_rt(m, Hs, zXp, Rc, Bc, gamma_f, gamma_f_Crest, cu1, cu2, g, uXp):
    m.assume(zXp > Rc)
    kw = dict(Hs=Hs, Rc=Rc, Bc=Bc, gamma_f=gamma_f, gamma_f_Crest=gamma_f_Crest)
    f, i = m.code(V2 + "calculate_maximum_wave_overtopping_velocity_uXp"), m.code(V2 + "_invert_for_zXp")
    m.ensure_eq("default coefficients", i(uXp=f(zXp=zXp, **kw), **kw), zXp, tol=1e-8)
    kw.update(cu1=cu1, cu2=cu2, g=g)
    m.ensure_eq("given coefficients", i(uXp=f(zXp=zXp, **kw), **kw), zXp, tol=1e-8)


# ------------------------------------------------------------------ Van Gent et al. (2025)
def v5_gf(m, Dn50, Hm0, smm10, c_f1=0.7, c_f2=0.05, smm10_lim=0.012):
    g1 = 1 - c_f1 * (Dn50 / Hm0) ** c_f2
    return g1 if smm10 >= smm10_lim else g1 + 12 * (smm10_lim - smm10) * (1 - g1)


def v5_gb(m, Hm0, smm10, Ac, B_berm, BL, c_b1=18, c_b2=1.3, c_b3=0.34, c_b4=0.2):
    return 1 - c_b1 * (smm10 * B_berm / Hm0) ** c_b2 * (1 - c_b3 * (BL / (smm10 * Ac)) ** c_b4)


def v5_gbeta(m, beta, c_beta=0.35):
    return (1 - c_beta) * m.cos(m.pi / 180 * beta) ** 2 + c_beta


def v5_gv(m, cot_alpha, Rc, Ac, c_v=0.45):
    return 1 + (c_v if cot_alpha <= 4 else 0.1125 * cot_alpha) * (Rc - Ac) / Rc


def v5_gw(m, Rc, Ac, Hm0, q_diml, c_w1=0.075, c_w2=-0.3):
    return 1 + c_w1 * (Rc - Ac) / Hm0 * q_diml ** c_w2


conform(V5 + "calculate_influence_friction_gamma_f", "C05", ["Dn50 Hm0 smm10", "Dn50 Hm0 smm10 c_f1 smm10_lim c_f2=0.1"], vars=dict(c_f1=rng(0, 1, 0.3, 0.9)))(v5_gf)
conform(V5 + "calculate_influence_berm_gamma_b", "C05", ["Hm0 smm10 Ac B_berm BL", "Hm0 smm10 Ac B_berm BL c_b1 c_b3 c_b2=1.2 c_b4=0.3"],
        vars=dict(c_b1=pos(5, 25), c_b3=pos(0.1, 0.6)))(v5_gb)
conform(V5 + "calculate_influence_oblique_waves_gamma_beta", "C05", ["beta", "beta c_beta"], vars=dict(c_beta=rng(0, 1, 0.2, 0.8)))(v5_gbeta)
conform(V5 + "calculate_influence_crest_wall_gamma_v", "C05", ["cot_alpha Rc Ac", "cot_alpha Rc Ac c_v"], vars=dict(c_v=pos(0.2, 0.7)))(v5_gv)
conform(V5 + "calculate_influence_wind_gamma_w", "C05", ["Rc Ac Hm0 q_diml", "Rc Ac Hm0 q_diml c_w1 c_w2=-0.2"], vars=dict(c_w1=pos(0.01, 0.2)))(v5_gw)


def v5_state(m, Hm0, Tmm10, Ac, cot_alpha, beta, B_berm, db, Dn50, gamma_f, gamma_b, gamma_beta):
    s = steepness(m, Hm0, Tmm10)
    if m.isnan(gamma_beta):
        gamma_beta = v5_gbeta(m, beta)
    if m.isnan(gamma_b):
        gamma_b = v5_gb(m, Hm0, s, Ac, B_berm, Ac - db) if not (B_berm == 0) else 1
    if m.isnan(gamma_f):
        gamma_f = v5_gf(m, Dn50, Hm0, s)
    return iribarren(m, Hm0, Tmm10, cot_alpha), gamma_f, gamma_b, gamma_beta


@conform(V5 + "q_diml_max_equation", "C05", ["Hm0 Hm0_swell ksi_mm10 cot_alpha Rc gamma_f gamma_b gamma_v gamma_beta",
                                             "Hm0 Hm0_swell ksi_mm10 cot_alpha Rc gamma_f gamma_b gamma_v gamma_beta c2 c3"], vars=dict(c3=real(-4, -1)))
def v5_qmax(m, Hm0, Hm0_swell, ksi_mm10, cot_alpha, Rc, gamma_f, gamma_b, gamma_v, gamma_beta, c2=0.8, c3=-2.5):
    return c2 / cot_alpha * m.exp(c3 * (Rc - 0.4 * Hm0_swell) / (gamma_f * gamma_b * gamma_v * gamma_beta * ksi_mm10 ** 0.24 * Hm0))


@conform(V5 + "Rc_diml_max_equation", "C05", ["Hm0 Hm0_swell q cot_alpha ksi_mm10 gamma_f gamma_b gamma_v gamma_beta",
                                              "Hm0 Hm0_swell q cot_alpha ksi_mm10 gamma_f gamma_b gamma_v gamma_beta c2 c3 g"], vars=dict(c3=rng(-9, -0.1, -4, -1)))
def v5_Rmax(m, Hm0, Hm0_swell, q, cot_alpha, ksi_mm10, gamma_f, gamma_b, gamma_v, gamma_beta, c2=0.8, c3=-2.5, g=9.81):
    return m.log(cot_alpha * q / scale(m, g, Hm0) / c2) / c3 * gamma_f * gamma_b * gamma_v * gamma_beta * ksi_mm10 ** 0.24 + 0.4 * Hm0_swell / Hm0


V5M = ["Hm0 Hm0_swell Tmm10 {} Ac cot_alpha beta gamma_f gamma_b gamma_v",
       "Hm0 Hm0_swell Tmm10 {} Ac cot_alpha gamma_beta gamma_f gamma_b gamma_v design_calculation=False",
       "Hm0 Hm0_swell Tmm10 {} Ac cot_alpha gamma_beta Dn50 gamma_b gamma_v",
       "Hm0 Hm0_swell Tmm10 {} Ac cot_alpha gamma_beta gamma_f B_berm db gamma_v",
       "Hm0 Hm0_swell Tmm10 {} Ac cot_alpha beta gamma_beta gamma_f gamma_v design_calculation=False"]
V5Q = ["Hm0 Hm0_swell Tmm10 {} Ac cot_alpha gamma_beta gamma_f gamma_b",
       "Hm0 Hm0_swell Tmm10 {} Ac cot_alpha gamma_beta gamma_f gamma_b gamma_v include_influence_wind=True",
       "Hm0 Hm0_swell Tmm10 {} Ac cot_alpha gamma_beta gamma_f gamma_b gamma_v include_influence_wind=True design_calculation=False"]
V5S = ("gamma_f", "gamma_b", "gamma_beta", "gamma_v", "Dn50")


def v5_pre(m, Hm0=None, Tmm10=None, Ac=NAN_, db=0, Rc=None, Hm0_swell=None, B_berm=0, Dn50=NAN_, gamma_f=NAN_, gamma_b=NAN_, gamma_v=NAN_,
           include_influence_wind=False, **kw):
    """berm below the crest, crest wall not lower than the armour crest, effective freeboard, positive factors"""
    if not (B_berm == 0):
        m.assume(Ac > db)
        if m.isnan(gamma_b):
            m.assume(v5_gb(m, Hm0, steepness(m, Hm0, Tmm10), Ac, B_berm, Ac - db) > 0)
    if m.isnan(gamma_f):
        m.assume(v5_gf(m, Dn50, Hm0, steepness(m, Hm0, Tmm10)) > 0)
    if Rc is not None and (m.isnan(gamma_v) or include_influence_wind):
        m.assume(Rc >= Ac)


@conform(V5 + "calculate_dimensionless_overtopping_discharge_q", "C05", f_(V5M + V5Q, "Rc"), pre=v5_pre, arr_modes=f_(V5M[:2] + V5Q, "Rc"), scalar=V5S)
def v5_q(m, Hm0, Hm0_swell, Tmm10, Rc, Ac, cot_alpha=NAN_, beta=NAN_, B_berm=0, db=0, Dn50=NAN_, gamma_f=NAN_, gamma_b=NAN_, gamma_v=NAN_,
         gamma_beta=NAN_, design_calculation=True, include_influence_wind=False):
    ksi, gf, gb, gbt = v5_state(m, Hm0, Tmm10, Ac, cot_alpha, beta, B_berm, db, Dn50, gamma_f, gamma_b, gamma_beta)
    if m.isnan(gamma_v):
        gamma_v = v5_gv(m, cot_alpha, Rc, Ac)
    R = Rc - 0.4 * Hm0_swell
    G = gf * gb * gamma_v * gbt
    a = 6.8 / cot_alpha * m.exp(-5 * R / (G * ksi * Hm0))
    b = 0.8 / cot_alpha * m.exp(-2.5 * R / (G * ksi ** 0.24 * Hm0))
    q = m.min(a, b)
    if include_influence_wind:
        q = q * v5_gw(m, Rc, Ac, Hm0, q)
    return (q ** 0.857 if design_calculation else q), a >= b


@conform(V5 + "calculate_overtopping_discharge_q", "C05", f_(V5M[:4] + V5Q, "Rc", " g"), pre=v5_pre, arr_modes=f_(V5M[:2], "Rc"), scalar=V5S)
def v5_Q(m, Hm0, Hm0_swell, Tmm10, Rc, Ac, g=9.81, **kw):
    q, mx = v5_q(m, Hm0, Hm0_swell, Tmm10, Rc, Ac, **kw)
    return q * scale(m, g, Hm0), mx


@conform(V5 + "calculate_dimensionless_crest_freeboard", "C05", f_(V5M, "q", " g"), pre=v5_pre, arr_modes=f_(V5M[:2], "q"), scalar=V5S)
def v5_r(m, Hm0, Hm0_swell, Tmm10, q, Ac, cot_alpha=NAN_, beta=NAN_, B_berm=0, db=0, Dn50=NAN_, gamma_f=NAN_, gamma_b=NAN_, gamma_v=NAN_,
         gamma_beta=NAN_, g=9.81, design_calculation=True):
    ksi, gf, gb, gbt = v5_state(m, Hm0, Tmm10, Ac, cot_alpha, beta, B_berm, db, Dn50, gamma_f, gamma_b, gamma_beta)
    qs = q / scale(m, g, Hm0)
    if design_calculation:
        qs = qs ** (1 / 0.857)
    G = gf * gb * gamma_v * gbt
    a = -m.log(qs * cot_alpha / 6.8) / 5 * G * ksi + 0.4 * Hm0_swell / Hm0
    b = -m.log(qs * cot_alpha / 0.8) / 2.5 * G * ksi ** 0.24 + 0.4 * Hm0_swell / Hm0
    return m.min(a, b), a >= b


@conform(V5 + "calculate_crest_freeboard_Rc", "C05", f_(V5M[:4], "q", " g"), pre=v5_pre, arr_modes=f_(V5M[:2], "q"), scalar=V5S)
def v5_R(m, Hm0, Hm0_swell, Tmm10, q, Ac, **kw):
    r, mx = v5_r(m, Hm0, Hm0_swell, Tmm10, q, Ac, **kw)
    return r * Hm0, mx


# ------------------------------------------------------------------ crest freeboard including wind: iteration on the discharge without wind
V5W = ["Hm0 Hm0_swell Tmm10 q Ac cot_alpha beta gamma_f gamma_b gamma_v g design_calculation=False",
       "Hm0 Hm0_swell Tmm10 q Ac cot_alpha gamma_beta gamma_f gamma_b gamma_v tolerance max_iter=4"]
for _mode in V5W:
    _v, _c = parse_mode(_mode)

    @lemma("iteration: Van Gent et al. (2025) crest freeboard with wind [%s]" % _mode, "C14 C05 C12", weight=20, vars=_vmap(_v, dict(tolerance=pos(1e-6, 1e-3)), V5),
           opaque={V5 + "calculate_influence_wind_gamma_w": (1, True), V5 + "Rc_diml_max_equation": 1, V5 + "check_validity_range": 0})
    def v5_it(m, Hm0, Hm0_swell, Tmm10, q, Ac, cot_alpha, gamma_f, gamma_b, gamma_v, _c=_c, beta=NAN_, gamma_beta=NAN_, g=9.81, tolerance=1e-5):
        c = _consts(m, _c)
        n = c.get("max_iter", 1000)
        args = dict(Hm0=Hm0, Hm0_swell=Hm0_swell, Tmm10=Tmm10, q=q, Ac=Ac, cot_alpha=cot_alpha, gamma_f=gamma_f, gamma_b=gamma_b, gamma_v=gamma_v, include_influence_wind=True, **c)
        for k, v in (("beta", beta), ("gamma_beta", gamma_beta), ("g", g)):
            if not m.isnan(v):
                args[k] = v
        if "max_iter" in c:
            args["tolerance"] = tolerance
        m.clear_loops()
        r = m.code(V5 + "calculate_dimensionless_crest_freeboard")(**args)[0]
        if m.isnan(gamma_beta):
            gamma_beta = v5_gbeta(m, beta)
        ksi, G = iribarren(m, Hm0, Tmm10, cot_alpha), gamma_f * gamma_b * gamma_v * gamma_beta
        qs = q / scale(m, g, Hm0)
        if "design_calculation" not in c:
            qs = qs ** (1 / 0.857)

        def a(x):
            return -m.log(x * cot_alpha / 6.8) / 5 * G * ksi + 0.4 * Hm0_swell / Hm0

        def rc(x):
            return m.min(a(x), m.code(V5 + "Rc_diml_max_equation")(Hm0=Hm0, Hm0_swell=Hm0_swell, q=x * scale(m, g, Hm0), cot_alpha=cot_alpha, ksi_mm10=ksi, gamma_f=gamma_f,
                                                                   gamma_b=gamma_b, gamma_v=gamma_v, gamma_beta=gamma_beta, g=g))

        def step(x):
            gw = m.code(V5 + "calculate_influence_wind_gamma_w")(Rc=rc(x) * Hm0, Ac=Ac, Hm0=Hm0, q_diml=x)
            m.assume(gw > 0)
            return qs / gw
        m.converged("crest freeboard", r, lambda: step(qs), step, tolerance, n, x0=qs, post=rc, size=a)


@lemma("Van Gent et al. (2025) with wind: the discharge without wind is a fixed point of the freeboard iteration", "C12",
       vars=_vmap("Hm0 Hm0_swell Tmm10 Rc Ac cot_alpha gamma_beta gamma_f gamma_b gamma_v g".split(), {}, V5), configs=[dict(design=True), dict(design=False)])
def v5_fix(m, Hm0, Hm0_swell, Tmm10, Rc, Ac, cot_alpha, gamma_f, gamma_b, gamma_v, gamma_beta, g, design):
    kw = dict(Hm0=Hm0, Hm0_swell=Hm0_swell, Tmm10=Tmm10, Ac=Ac, cot_alpha=cot_alpha, gamma_f=gamma_f, gamma_b=gamma_b, gamma_v=gamma_v, gamma_beta=gamma_beta)
    m.assume(Rc >= Ac)
    q, _ = m.code(V5 + "calculate_overtopping_discharge_q")(Rc=Rc, g=g, include_influence_wind=True, design_calculation=design, **kw)
    q0, _ = m.code(V5 + "calculate_overtopping_discharge_q")(Rc=Rc, g=g, design_calculation=False, **kw)
    qs, x = q / scale(m, g, Hm0), q0 / scale(m, g, Hm0)
    if design:
        qs = qs ** (1 / 0.857)
    r, _ = m.code(V5 + "calculate_crest_freeboard_Rc")(q=q0, g=g, design_calculation=False, **kw)
    m.ensure_eq("freeboard of the discharge without wind", r, Rc, tol=1e-6)
    m.ensure_eq("target divided by the influence of wind", qs / v5_gw(m, r, Ac, Hm0, x), x, tol=1e-6)


def v5_ranges(m, Hm0=NAN_, Hm0_deep=NAN_, Tmm10=NAN_, beta=NAN_, h=NAN_, cot_alpha=NAN_, Dn50=NAN_, Rc=NAN_, Ac=NAN_, Gc=NAN_, B_berm=NAN_, db=NAN_):
    out = [(cot_alpha, 1.5, 8), (beta, 0, 75)]
    if given(m, Hm0, Tmm10):
        out.append((steepness(m, Hm0, Tmm10), 0.001, 0.042))
        if given(m, cot_alpha):
            out.append((iribarren(m, Hm0, Tmm10, cot_alpha), 0.05, 6))
    if given(m, Hm0_deep, h):
        out.append((Hm0_deep / h, 0, 1))
    for x, lo, hi in ((h, 0.6, 5), (Rc, 0.6, 5), (Dn50, 0.12, 0.9), (Gc, 0.6, 5), (B_berm, 0.6, 5), (db, -1.7, 0.5)):
        if given(m, Hm0, x):
            out.append((x / Hm0, lo, hi))
    if given(m, Hm0, Rc, Ac):
        out.append(((Rc - Ac) / Hm0, 0, 0.68))
    return out


@checks(V5 + "check_validity_range", "C02", ["cot_alpha", "Hm0 Tmm10", "Hm0 Tmm10 cot_alpha", "Hm0 h", "Hm0_deep h", "Hm0 Rc", "Hm0 Dn50", "Hm0 Rc Ac",
                                             "Hm0 Gc", "Hm0 B_berm", "Hm0 db", "beta",
                                             "Hm0 Hm0_deep Tmm10 beta h cot_alpha Dn50 Rc Ac Gc B_berm db"])
def v5_cvr(m, got, **kw):
    return v5_ranges(m, **kw)


for _f, _x in (("calculate_dimensionless_overtopping_discharge_q", "Rc"), ("calculate_overtopping_discharge_q", "Rc"),
               ("calculate_dimensionless_crest_freeboard", "q"), ("calculate_crest_freeboard_Rc", "q")):
    @checks(V5 + _f, "C02", f_(V5M[:4] + (V5Q[:2] if _x == "Rc" else []), _x), pre=v5_pre)
    def v5_fn_ranges(m, got, Hm0, Tmm10, Ac, Rc=None, q=None, cot_alpha=NAN_, beta=NAN_, B_berm=0, db=0, Dn50=NAN_, _f=_f, **kw):
        if Rc is None:
            Rc = got[0] if _f.endswith("Rc") else got[0] * Hm0
        return v5_ranges(m, Hm0=Hm0, Tmm10=Tmm10, Ac=Ac, Rc=Rc, cot_alpha=cot_alpha, beta=beta, B_berm=B_berm, db=db, Dn50=Dn50)


V5_OPQ = {V5 + f: 1 for f in ("calculate_influence_friction_gamma_f", "calculate_influence_berm_gamma_b",
                              "calculate_influence_oblique_waves_gamma_beta")}
INLINE.update(V5_OPQ)


def v5_rtpre(m, Hm0=None, Tmm10=None, Ac=NAN_, db=0, B_berm=0, Dn50=NAN_, gamma_f=NAN_, gamma_b=NAN_, beta=NAN_, gamma_beta=NAN_, **kw):
    """the derived influence factors are positive"""
    s = m.code("core_physics:calculate_wave_steepness_s")(H=Hm0, T=Tmm10)
    if not (B_berm == 0):
        m.assume(Ac > db)
        if m.isnan(gamma_b):
            m.assume(m.code(V5 + "calculate_influence_berm_gamma_b")(Hm0=Hm0, smm10=s, Ac=Ac, B_berm=B_berm, BL=Ac - db) > 0)
    if m.isnan(gamma_f):
        m.assume(m.code(V5 + "calculate_influence_friction_gamma_f")(Dn50=Dn50, Hm0=Hm0, smm10=s) > 0)
    if m.isnan(gamma_beta):
        m.assume(m.code(V5 + "calculate_influence_oblique_waves_gamma_beta")(beta=beta) > 0)


roundtrip(V5 + "calculate_overtopping_discharge_q", V5 + "calculate_crest_freeboard_Rc",
          [x.replace("{} ", "") for x in V5M] + [V5M[0].replace("{} ", "") + " g"], extra=v5_rtpre, opaque=V5_OPQ)


@lemma("Van Gent et al. (2025): roughness factor or stone size is required", "C15",
       vars=dict(Hm0=pos(0.5, 5), Hm0_swell=pos(0.1, 1), Tmm10=pos(4, 15), Rc=pos(0.5, 8), q=pos(1e-5, 0.01), Ac=pos(0.5, 6), cot_alpha=pos(1.5, 6),
                 gamma_beta=rng(0, 1, 0.4, 1, ls=True), gamma_v=pos(1, 1.4)))
def v5_refuse(m, Hm0, Hm0_swell, Tmm10, Rc, q, Ac, cot_alpha, gamma_beta, gamma_v):
    kw = dict(Hm0=Hm0, Hm0_swell=Hm0_swell, Tmm10=Tmm10, Ac=Ac, cot_alpha=cot_alpha, gamma_beta=gamma_beta, gamma_v=gamma_v)
    m.ensure("discharge", m.expect(ValueError, m.code(V5 + "calculate_overtopping_discharge_q"), Rc=Rc, **kw))
    m.ensure("freeboard", m.expect(ValueError, m.code(V5 + "calculate_crest_freeboard_Rc"), q=q, **kw))
    kw = dict(kw, gamma_f=gamma_beta)
    kw.pop("gamma_v")
    m.ensure("crest-wall factor", m.expect(ValueError, m.code(V5 + "calculate_crest_freeboard_Rc"), q=q, **kw))
    m.ensure("crest-wall factor", m.expect(ValueError, m.code(V5 + "calculate_dimensionless_crest_freeboard"), q=q, **kw))
