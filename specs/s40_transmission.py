"""Wave transmission and structure-induced set-up -- C07 formulas, C02 ranges, C16 bounds."""
from engine.core import lemma, conform, checks, pos, real, nonneg, rng, Var
from specs_common import steepness, iribarren, given
from specs_s20_runup import NAN_, exact

B3 = "hydraulic.wave_transmission.briganti2003:"
DA = "hydraulic.wave_transmission.dangremond1996:"
G7 = "hydraulic.wave_transmission.goda1967_caisson:"
V3 = "hydraulic.wave_transmission.vangent2023:"
V4 = "hydraulic.wave_transmission.vangent2024_setup:"
RC = dict(Rc=real(-4, 6), B=pos(1.0, 60.0))


def clip(m, x, lo, hi):
    return m.max(m.min(x, hi), lo)


# ------------------------------------------------------------------ d'Angremond et al. (1996)
def da_raw(m, Hsi, Tpi, Rc, B, cot_alpha, C1):
    return -0.4 * Rc / Hsi + C1 * (B / Hsi) ** -0.31 * (1 - m.exp(-0.5 * iribarren(m, Hsi, Tpi, cot_alpha)))


@conform(DA + "calculate_wave_transmission_Kt_permeable", "C07", ["Hsi Tpi h Rc B cot_alpha", "Hsi Tpi h Rc B cot_alpha C1",
                                                                   "Hsi Tpi h Rc B cot_alpha do_validity_check=False"], vars=RC)
def da_perm(m, Hsi, Tpi, h, Rc, B, cot_alpha, C1=0.64, do_validity_check=True):
    return clip(m, da_raw(m, Hsi, Tpi, Rc, B, cot_alpha, C1), 0.075, 0.8)


@conform(DA + "calculate_wave_transmission_Kt_impermeable", "C07", ["Hsi Tpi h Rc B cot_alpha", "Hsi Tpi h Rc B cot_alpha C1"], vars=RC)
def da_imperm(m, Hsi, Tpi, h, Rc, B, cot_alpha, C1=0.8):
    return clip(m, da_raw(m, Hsi, Tpi, Rc, B, cot_alpha, C1), 0.075, 0.8)


for _f, _C in (("permeable", 0.64), ("impermeable", 0.8)):
    @checks(DA + "calculate_wave_transmission_Kt_" + _f, "C02", ["Hsi Tpi h Rc B cot_alpha", "Hsi Tpi h Rc B cot_alpha C1"], vars=RC)
    def da_ranges(m, got, Hsi, Tpi, h, Rc, B, cot_alpha, C1=_C):
        return [(da_raw(m, Hsi, Tpi, Rc, B, cot_alpha, C1), 0.075, 0.8), (steepness(m, Hsi, Tpi), 0, 0.06), (Hsi / h, 0, 0.54), (Rc / Hsi, -2.5, 2.5)]


@checks(DA + "check_validity", "C02", ["Kt", "s0p", "Hsi_over_h", "Rc_over_Hsi", "Kt s0p Hsi_over_h Rc_over_Hsi"], vars=dict(Kt=real(0, 1)))
def da_cvr(m, got, Kt=NAN_, s0p=NAN_, Hsi_over_h=NAN_, Rc_over_Hsi=NAN_):
    return [(Kt, 0.075, 0.8), (s0p, 0, 0.06), (Hsi_over_h, 0, 0.54), (Rc_over_Hsi, -2.5, 2.5)]


# ------------------------------------------------------------------ Briganti et al. (2003)
@conform(B3 + "calculate_wave_transmission_Kt", "C07", ["Hsi Tpi Rc B cot_alpha"], vars=RC)
def b3(m, Hsi, Tpi, Rc, B, cot_alpha):
    if B / Hsi < 10:
        Kt = clip(m, da_raw(m, Hsi, Tpi, Rc, B, cot_alpha, 0.64), 0.075, 0.8)
    else:
        Kt = -0.35 * Rc / Hsi + 0.51 * (B / Hsi) ** -0.65 * (1 - m.exp(-0.41 * iribarren(m, Hsi, Tpi, cot_alpha)))
    return clip(m, Kt, 0.05, 0.93 - 0.006 * B / Hsi)


@checks(B3 + "calculate_wave_transmission_Kt", "C02", ["Hsi Tpi Rc B cot_alpha"], vars=RC)
def b3_ranges(m, got, Hsi, Tpi, Rc, B, cot_alpha):
    return [(steepness(m, Hsi, Tpi), 0.005, 0.07), (iribarren(m, Hsi, Tpi, cot_alpha), 0.5, 10)]


@checks(B3 + "check_validity", "C02", ["s0p", "ksi_0p", "s0p ksi_0p"])
def b3_cvr(m, got, s0p=NAN_, ksi_0p=NAN_):
    return [(s0p, 0.005, 0.07), (ksi_0p, 0.5, 10)]


# ------------------------------------------------------------------ Goda (1967), caissons
G7V = dict(Rc=real(-12, 12), alpha_1=pos(1.5, 2.5), beta_1=nonneg(0, 0.8))


@conform(G7 + "calculate_wave_transmission_Kt", "C07", ["Hsi Rc", "Hsi Rc alpha_1", "Hsi Rc alpha_1 beta_1"], vars=G7V)
def g7(m, Hsi, Rc, alpha_1=2.2, beta_1=0.4):
    r = Rc / Hsi
    if r <= -alpha_1 - beta_1:
        return 1
    if r <= alpha_1 - beta_1:
        return 0.5 * (1 - m.sin(m.pi / 2 * (r + beta_1) / alpha_1))
    return 0.03


# ------------------------------------------------------------------ Van Gent et al. (2023)
V3C = {"impermeable": (0.47, 0, 0.5), "permeable": (0.43, -0.25, 0.5), "perforated": (0.13, -0.15, 0.82),
       "perforated_with_screen": (0.4, -0.15, 0.5), "perforated_with_perforated_screen": (0.17, -0.15, 0.76)}
V3M = ["Hm0 Tmm10 Rc B"] + ["Hm0 Tmm10 Rc B structure_type='%s'" % k for k in V3C]


def deep_wavelength(m, T):
    return 9.81 * T ** 2 / (2 * m.pi)


@conform(V3 + "calculate_wave_transmission_Kt", "C07", V3M, vars=RC)
def v3(m, Hm0, Tmm10, Rc, B, structure_type="permeable"):
    c1, c4, c5 = V3C[structure_type]
    return c1 * m.tanh(-(Rc / Hm0 + 3.1 * (B / deep_wavelength(m, Tmm10)) ** 0.75 + c4)) + c5


def v3_ranges(m, Hm0=NAN_, Tmm10=NAN_, Rc=NAN_, B=NAN_, structure_type=None):
    out = []
    if given(m, Hm0, Rc):
        out.append((Rc / Hm0, -2.5, 2.5 if structure_type == "permeable" else 0))
    if given(m, B, Tmm10):
        out.append((B / deep_wavelength(m, Tmm10), 0.017, 0.27))
    if given(m, Hm0, B):
        out.append((B / Hm0, 0.9, 10.6))
    return out


@checks(V3 + "calculate_wave_transmission_Kt", "C02", V3M, vars=RC)
def v3_fn(m, got, structure_type="permeable", **kw):
    return v3_ranges(m, structure_type=structure_type, **kw)


@checks(V3 + "check_validity_range", "C02", ["Hm0 Rc structure_type='permeable'", "Hm0 Rc structure_type='impermeable'", "Tmm10 B", "Hm0 B",
                                             "Hm0 Tmm10 Rc B structure_type='permeable'", "Hm0 Tmm10 Rc B structure_type='perforated'"], vars=RC)
def v3_cvr(m, got, **kw):
    return v3_ranges(m, **kw)


@lemma("Van Gent et al. (2023): unknown structure types are refused", "C15", vars=dict(Hm0=pos(0.5, 5), Tmm10=pos(4, 15), Rc=real(-3, 3), B=pos(1, 20)))
def v3_refuse(m, Hm0, Tmm10, Rc, B):
    for s in ("porous", "", "Permeable"):
        m.ensure("type %r" % s, m.expect(ValueError, m.code(V3 + "calculate_wave_transmission_Kt"), Hm0=Hm0, Tmm10=Tmm10, Rc=Rc, B=B, structure_type=s))


# ------------------------------------------------------------------ Van Gent (2024), set-up
def v4_pre(c):
    def f(m, Hm0=None, Rc=None, **kw):
        m.assume(Rc / Hm0 + c > 0)
    return f


@conform(V4 + "calculate_dimensionless_structure_induced_setup_impermeable", "C07", ["Hm0 Tmm10 Rc"], vars=RC, pre=v4_pre(1.6))
def v4_i(m, Hm0, Tmm10, Rc):
    return 0.34 * steepness(m, Hm0, Tmm10) ** 0.4 * (Rc / Hm0 + 1.6) ** 3.5


@conform(V4 + "calculate_structure_induced_setup_delta_impermeable", "C07", ["Hm0 Tmm10 Rc"], vars=RC, pre=v4_pre(1.6))
def v4_I(m, Hm0, Tmm10, Rc):
    return v4_i(m, Hm0, Tmm10, Rc) * Hm0


@conform(V4 + "calculate_dimensionless_structure_induced_setup_permeable", "C07", ["Hm0 Tmm10 Rc hc"], vars=RC, pre=v4_pre(1.5))
def v4_p(m, Hm0, Tmm10, Rc, hc):
    return 0.22 * steepness(m, Hm0, Tmm10) ** 0.2 * (hc / Hm0) ** -0.7 * (Rc / Hm0 + 1.5) ** 1.5


@conform(V4 + "calculate_structure_induced_setup_delta_permeable", "C07", ["Hm0 Tmm10 Rc hc"], vars=RC, pre=v4_pre(1.5))
def v4_P(m, Hm0, Tmm10, Rc, hc):
    return v4_p(m, Hm0, Tmm10, Rc, hc) * Hm0


def v4_ranges(m, Hm0=NAN_, Tmm10=NAN_, Rc=NAN_, B=NAN_, hc=NAN_, Dn50=NAN_, structure_type="impermeable"):
    perm = structure_type == "permeable"
    out = []
    if given(m, Hm0, Tmm10):
        out.append((steepness(m, Hm0, Tmm10), 0.008 if perm else 0.01, 0.04))
    if given(m, Hm0, Rc):
        out.append((Rc / Hm0, -0.8 if perm else -1, 0))
    if perm:
        for x, lo, hi in ((hc, 1.5, 3), (B, 0.94, 2.35), (Dn50, 0.19, 0.47)):
            if given(m, Hm0, x):
                out.append((x / Hm0, lo, hi))
    return out


@checks(V4 + "check_validity_range", "C02", [x + s for x in ("Hm0 Tmm10", "Hm0 Rc", "Hm0 hc", "Hm0 B", "Hm0 Dn50", "Hm0 Tmm10 Rc B hc Dn50")
                                             for s in (" structure_type='impermeable'", " structure_type='permeable'")] + ["Hm0 Tmm10 Rc B hc Dn50"], vars=RC)
def v4_cvr(m, got, **kw):
    return v4_ranges(m, **kw)


for _f, _t in (("calculate_dimensionless_structure_induced_setup_", "permeable"), ("calculate_structure_induced_setup_delta_", "permeable"),
               ("calculate_dimensionless_structure_induced_setup_", "impermeable"), ("calculate_structure_induced_setup_delta_", "impermeable")):
    @checks(V4 + _f + _t, "C02", ["Hm0 Tmm10 Rc" + (" hc" if _t == "permeable" else "")], vars=RC, pre=v4_pre(1.5 if _t == "permeable" else 1.6))
    def v4_fn(m, got, _t=_t, **kw):
        return v4_ranges(m, structure_type=_t, **kw)


# ------------------------------------------------------------------ physical bounds
TV = dict(Hsi=pos(0.5, 6), Tpi=pos(3, 15), h=pos(1, 20), Rc=real(-12, 12), B=pos(1, 60), cot_alpha=pos(1.2, 7), C1=real(-2, 3))


@lemma("transmission coefficients stay within their published limits (d'Angremond, Briganti)", "C16 C07", vars=TV)
def bounds_t(m, Hsi, Tpi, h, Rc, B, cot_alpha, C1):
    for f in ("permeable", "impermeable"):
        k = m.code(DA + "calculate_wave_transmission_Kt_" + f)(Hsi=Hsi, Tpi=Tpi, h=h, Rc=Rc, B=B, cot_alpha=cot_alpha, C1=C1)
        m.ensure_le("lower limit " + f, 0.075, k)
        m.ensure_le("upper limit " + f, k, 0.8)


@lemma("transmission coefficients stay within their published limits (Briganti)", "C16 C07", vars=TV)
def bounds_b(m, Hsi, Tpi, h, Rc, B, cot_alpha, C1):
    k = m.code(B3 + "calculate_wave_transmission_Kt")(Hsi=Hsi, Tpi=Tpi, Rc=Rc, B=B, cot_alpha=cot_alpha)
    m.ensure_le("lower limit", 0.05, k)
    m.ensure_le("upper limit", k, 0.93)


@lemma("transmission coefficients stay within their published limits (Goda)", "C16 C07", vars=dict(G7V, Hsi=pos(0.5, 6)))
def bounds_g(m, Hsi, Rc, alpha_1, beta_1):
    k = m.code(G7 + "calculate_wave_transmission_Kt")(Hsi=Hsi, Rc=Rc, alpha_1=alpha_1, beta_1=beta_1)
    m.ensure_le("lower limit", 0, k)
    m.ensure_le("upper limit", k, 1)


@lemma("transmission coefficients stay within their published limits (Van Gent)", "C16 C07", vars=dict(Hm0=pos(0.5, 6), Tmm10=pos(3, 15), Rc=real(-12, 12), B=pos(1, 60)))
def bounds_v(m, Hm0, Tmm10, Rc, B):
    for s in V3C:
        c1, c4, c5 = exact(m, V3C[s])
        k = m.code(V3 + "calculate_wave_transmission_Kt")(Hm0=Hm0, Tmm10=Tmm10, Rc=Rc, B=B, structure_type=s)
        m.ensure_le("lower limit " + s, c5 - c1, k)
        m.ensure_le("upper limit " + s, k, c5 + c1)
