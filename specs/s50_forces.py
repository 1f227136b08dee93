"""Wave forces: Goda caisson, Van Gent & Van der Werf (2019) crest walls -- C08 formulas, C03 ranges, C16 bounds."""
from engine.core import INLINE, lemma, conform, checks, pos, real, nonneg, rng, Var
from specs_common import steepness, iribarren, given, absval
from specs_s20_runup import NAN_, vX as v_zXp

G = "structural.forces_caisson.goda1985:"
W = "structural.forces_crestwall.vangentvanderwerf2019:"

IMP = G + "check_impulsive_breaking"
INLINE.add(IMP)
GV = dict(HD=pos(1, 12), Hsi=pos(0.5, 8), Tmax=pos(4, 18), beta=rng(-90, 90, -85, 85), h_s=pos(6, 25), d=pos(3, 15), B1=pos(0.5, 40), cota_seabed=pos(5, 120),
          hacc=pos(3, 15), Rc=pos(0.5, 12), Bup=pos(5, 40), offshore_wave_steepness=pos(0.005, 0.06))


def impulsive(m, beta, B1, L, cota_seabed, s, Rc, Hsi, d, h_s):
    if given(m, beta, B1, L, cota_seabed, s, Rc, Hsi):
        if beta < 20 and B1 / L < 0.02 and cota_seabed < 50 and s < 0.03 and Rc / Hsi > 0.3:
            return True
    if given(m, beta, B1, L, d, h_s, Rc, Hsi):
        if beta < 20 and B1 / L > 0.02 and B1 / L < 0.3 and d / h_s < 0.6 and Rc / Hsi > 0.3:
            return True
    return False


@conform(G + "check_impulsive_breaking", "C08", ["beta B1 L cota_seabed offshore_wave_steepness Rc Hsi d h_s", "beta B1 L cota_seabed offshore_wave_steepness Rc Hsi",
                                                 "beta B1 L Rc Hsi d h_s", "beta B1 L Rc Hsi", "B1 L cota_seabed offshore_wave_steepness Rc Hsi d h_s"],
         vars=dict(GV, d=pos(1, 15)), arr=False)
def g_imp(m, beta=NAN_, B1=NAN_, L=NAN_, cota_seabed=NAN_, offshore_wave_steepness=NAN_, Rc=NAN_, Hsi=NAN_, d=NAN_, h_s=NAN_):
    return impulsive(m, beta, B1, L, cota_seabed, offshore_wave_steepness, Rc, Hsi, d, h_s)


@checks(IMP, "C03", ["beta B1 L cota_seabed offshore_wave_steepness Rc Hsi d h_s", "beta B1 L cota_seabed offshore_wave_steepness Rc Hsi",
                     "beta B1 L Rc Hsi d h_s", "beta B1 L Rc Hsi", "B1 L cota_seabed offshore_wave_steepness Rc Hsi d h_s"], vars=dict(GV, d=pos(1, 15)))
def g_imp_warn(m, got, **kw):
    return [(True, False, False)] if g_imp(m, **kw) else []


def cosb(m, beta):
    """cosine of the obliqueness rotated up to 15 degrees towards normal"""
    b = absval(m, beta)
    return m.cos(m.pi / 180 * (b - 15)) if b >= 15 else 1


def goda(m, HD, Hsi, Tmax, beta, h_s, d, B1, cota_seabed, rho_water, hacc, Rc, Bup, offshore_wave_steepness=NAN_, g=9.81):
    cb = cosb(m, beta)
    hb = h_s + 5 * Hsi / cota_seabed
    eta = 0.75 * (1 + cb) * HD
    k = m.disper_k(2 * m.pi / Tmax, h_s, g)
    L = 2 * m.pi / k
    a1 = 0.6 + 0.5 * (2 * k * h_s / m.sinh(2 * k * h_s)) ** 2
    a2 = m.min((hb - d) / (3 * hb) * (HD / d) ** 2, 2 * d / HD)
    a3 = 1 - hacc / h_s * (1 - 1 / m.cosh(k * h_s))
    w = rho_water * g * HD
    p1 = 0.5 * (1 + cb) * (a1 + a2 * cb ** 2) * w
    p2 = p1 / m.cosh(k * h_s)
    p3 = a3 * p1
    p4 = p1 * (1 - Rc / eta) if eta > Rc else 0
    hc = m.min(eta, Rc)
    pu = 0.5 * (1 + cb) * a1 * a3 * w
    FH = (p1 + p3) * hacc / 2 + (p1 + p4) * hc / 2
    MH = (2 * p1 + p3) * hacc ** 2 / 6 + (p1 + p4) * hacc * hc / 2 + (p1 + 2 * p4) * hc ** 2 / 6
    FU = pu * Bup / 2
    MU = 2 * FU * Bup / 3
    imp = m.code(IMP)(beta=absval(m, beta), B1=B1, L=L, cota_seabed=cota_seabed, offshore_wave_steepness=offshore_wave_steepness, Rc=Rc, Hsi=Hsi, d=d, h_s=h_s)
    imp = True if imp else False
    return dict(FH=FH, FU=FU, MH=MH, MU=MU, p1=p1, p2=p2, p3=p3, p4=p4, hstar_c=hc, pu=pu, h_5Hs=hb, etastar=eta, L=L, alpha1=a1, alpha2=a2, alpha3=a3,
                impulsive_breaking=imp)


PF = "HD Hsi Tmax beta h_s d B1 cota_seabed rho_water hacc Rc Bup"
ORDER = ("FH FU MH MU p1 p2 p3 p4 hstar_c pu h_5Hs etastar L alpha1 alpha2 alpha3 impulsive_breaking").split()


def goda_pre(m, beta=NAN_, d=None, h_s=None, hacc=None, **kw):
    """the caisson toe and the top of its armour lie above the sea bed"""
    m.assume(d < h_s)
    m.assume(hacc < h_s)


@conform(G + "calculate_pressures_and_forces", "C08", [PF, PF + " offshore_wave_steepness", PF + " offshore_wave_steepness g"], vars=GV, pre=goda_pre, arr=False,
         opaque={IMP: 1})
def g_pf(m, **kw):
    r = goda(m, **kw)
    return tuple(r[k] for k in ORDER)


@lemma("Goda: pressures and forces as a dictionary are those of the tuple", "C08", vars=dict(GV, rho_water=pos(1000, 1030), g=pos(9, 10)), opaque={IMP: 1})
def g_dict(m, **kw):
    goda_pre(m, **kw)
    t = m.code(G + "calculate_pressures_and_forces")(**kw)
    r = m.code(G + "calculate_pressures_and_forces")(return_dict=True, **kw)
    for i, k in enumerate(ORDER):
        m.ensure_eq(k, r[k], t[i])
    for k in ("HD", "Hsi", "Tmax", "h_s", "d", "cota_seabed", "rho_water", "hacc", "Rc", "Bup", "g"):
        m.ensure_eq("input " + k, r[k], kw[k])
    m.ensure_eq("input beta", absval(m, r["beta"]), absval(m, kw["beta"]))


@conform(G + "calculate_Wup", "C08", ["hacc Rc Bup rho_fill_below_SWL rho_water rho_fill_above_SWL", "hacc Rc Bup rho_fill_below_SWL rho_water rho_fill_above_SWL g"])
def g_W(m, hacc, Rc, Bup, rho_fill_below_SWL, rho_water, rho_fill_above_SWL, g=9.81):
    return (hacc * (rho_fill_below_SWL - rho_water) + Rc * rho_fill_above_SWL) * Bup * g


FV = dict(FU=pos(1e4, 1e6), FH=pos(1e4, 1e6), Wup=pos(1e5, 1e7), MH=pos(1e5, 1e7), MU=pos(1e5, 1e7), tup=pos(1, 20), Bup=pos(3, 40))


@conform(G + "calculate_safety_factors", "C08", ["FU FH Wup muf tup MH MU"], vars=FV)
def g_sf(m, FU, FH, Wup, muf, tup, MH, MU):
    return muf * (Wup - FU) / FH, (Wup * tup - MU) / MH


def bear_pre(m, Wup, tup, MH, MU, FU, Bup):
    """the resultant stands on the base"""
    m.assume(Wup > FU)
    m.assume(Wup * tup - MU - MH > 0)


@conform(G + "calculate_bearing_pressures", "C08", ["Wup tup MH MU FU Bup"], vars=FV, pre=bear_pre, arr=False)
def g_bp(m, Wup, tup, MH, MU, FU, Bup):
    Me = Wup * tup - MU - MH
    We = Wup - FU
    te = Me / We
    pe = 2 * We / (3 * te) if te <= Bup / 3 else 2 * We / Bup * (2 - 3 * te / Bup)
    return pe, Me, We, te


@lemma("Goda: the bearing pressure distribution is in equilibrium with the resultant", "C08 C16", vars=FV)
def g_eq(m, Wup, tup, MH, MU, FU, Bup, FH):
    bear_pre(m, Wup, tup, MH, MU, FU, Bup)
    pe, Me, We, te = m.code(G + "calculate_bearing_pressures")(Wup=Wup, tup=tup, MH=MH, MU=MU, FU=FU, Bup=Bup)
    m.ensure_eq("moment of the resultant", We * te, Me)
    m.assume(te <= Bup / 2)
    if te <= Bup / 3:      # triangle over 3 te
        m.ensure_eq("triangular: total", pe * 3 * te / 2, We)
    else:                   # trapezium over Bup, heel pressure pr
        pr = 2 * We / Bup - pe
        m.ensure_le("trapezium: no tension", 0, pr)
        m.ensure_eq("trapezium: moment", pr * Bup ** 2 / 2 + (pe - pr) * Bup ** 2 / 6, Me)
    m.ensure_le("not below the average", We / Bup, pe)


FR = PF + " rho_fill_above_SWL rho_fill_below_SWL muf tup_over_Bup"
PFN = G + "calculate_pressures_and_forces"


def fr_run(m, return_dict=False, **kw):
    f = m.code(G + "calculate_forces_and_reactions")
    return f(return_dict=True, **kw) if return_dict else f(**kw)


FRV = dict(GV, rho_water=pos(1000, 1030), rho_fill_above_SWL=pos(2000, 2500), rho_fill_below_SWL=pos(1800, 2300), muf=rng(0, 1, 0.4, 0.7, ls=True),
           tup_over_Bup=rng(0, 1, 0.4, 0.6, ls=True), g=pos(9, 10))


def fr_body(m, args, rest):
    """calculate_forces_and_reactions is the composition of its four parts, taken by their contracts"""
    pf = dict(args, **{k: rest[k] for k in ("g", "offshore_wave_steepness") if k in rest})
    R = m.code(PFN)(**pf)
    r = dict(zip(ORDER, R))
    g, Bup, Rc, hacc, rho = rest.get("g", 9.81), args["Bup"], args["Rc"], args["hacc"], args["rho_water"]
    tup = rest.get("tup_over_Bup", 0.5) * Bup
    Wup = g_W(m, hacc, Rc, Bup, rest.get("rho_fill_below_SWL", 2100), rho, rest.get("rho_fill_above_SWL", 2400), g)
    m.assume(Wup > r["FU"])
    m.assume(Wup * tup - r["MU"] - r["MH"] > 0)
    m.assume(r["MH"] > 0)
    m.assume(r["FH"] > 0)
    pe, Me, We, te = g_bp(m, Wup, tup, r["MH"], r["MU"], r["FU"], Bup)
    s1, s2 = g_sf(m, r["FU"], r["FH"], Wup, rest.get("muf", 0.6), tup, r["MH"], r["MU"])
    r.update(SF_overturning=s2, SF_sliding=s1, tup=tup, Wup=Wup, te=te, We=We, Me=Me, pe=pe)
    return r


for _extra in ("", "rho_fill_above_SWL rho_fill_below_SWL muf tup_over_Bup", "offshore_wave_steepness g", "rho_fill_above_SWL rho_fill_below_SWL muf tup_over_Bup offshore_wave_steepness g"):
    @lemma("Goda: forces, bearing pressure and safety factors [%s]" % _extra, "C08", vars={k: FRV[k] for k in PF.split() + _extra.split()}, opaque={PFN: 17})
    def g_fr(m, __extra=_extra, **kw):
        goda_pre(m, **kw)
        rest = {k: v for k, v in kw.items() if k in __extra.split()}
        args = {k: v for k, v in kw.items() if k not in rest}
        r = fr_body(m, args, rest)
        out = m.code(G + "calculate_forces_and_reactions")(**kw)
        m.ensure_eq("tuple", out, tuple(r[k] for k in "FH FU MH MU p1 pe pu impulsive_breaking SF_sliding SF_overturning".split()))
        d = m.code(G + "calculate_forces_and_reactions")(return_dict=True, **kw)
        for k in r:
            m.ensure_eq("dictionary " + k, d[k], r[k])
        for k in ("HD", "Hsi", "Tmax", "h_s", "d", "cota_seabed", "rho_water", "hacc", "Rc"):
            m.ensure_eq("input " + k, d[k], kw[k])
        m.ensure_eq("input B_up", d["B_up"], kw["Bup"])

    @checks(G + "calculate_forces_and_reactions", "C03", [PF + " " + _extra], vars=FRV, pre=goda_pre, opaque={PFN: 17}, subset=True)
    def g_ranges(m, got, beta, cota_seabed, Tmax, Bup, h_s, B1, tup_over_Bup=0.5, **kw):
        return [(beta, 0, 90), (cota_seabed, 10, 100), (Tmax, 0, 30), (tup_over_Bup, 0, 1), (h_s, 0, m.inf), (B1, 0, m.inf), (Bup, 0, m.inf)]


@checks(G + "check_validity_range", "C03", ["beta", "cota_seabed", "Tmax", "tup Bup", "h_s", "B1", "Bup", "beta cota_seabed Tmax tup Bup h_s B1"], vars=dict(GV, tup=pos(1, 20)))
def g_cvr(m, got, beta=NAN_, cota_seabed=NAN_, Tmax=NAN_, tup=NAN_, Bup=NAN_, h_s=NAN_, B1=NAN_):
    out = [(beta, 0, 90), (cota_seabed, 10, 100), (Tmax, 0, 30), (h_s, 0, m.inf), (B1, 0, m.inf), (Bup, 0, m.inf)]
    if given(m, tup, Bup):
        out.append((tup / Bup, 0, 1))
    return out


# ------------------------------------------------------------------ Van Gent & Van der Werf (2019)
WV = dict(beta=rng(-90, 90, -75, 75, ls=True, hs=True), c0=pos(1, 2), c1=pos(3, 6), gamma_A=pos(0.5, 1), cFb=rng(0, 1, 0.3, 0.8, ls=True), Ac=pos(0.3, 3), Fb=pos(0.1, 1.0),
          FH2p=nonneg(0, 1e5), FV2p=nonneg(0, 1e5), s0p=rng(0, "0.09", 0.01, 0.06))


def w_gF(m, z2p, Ac, beta, gamma_A):
    return ((0.5 * m.cos(m.pi / 180 * beta) ** 2 + 0.5) * z2p - gamma_A * Ac) / (z2p - gamma_A * Ac)


def w_pre(gA):
    def f(m, z2p, Ac, gamma_A=None, **kw):
        m.assume(z2p != (gA if gamma_A is None else gamma_A) * Ac)
    return f


conform(W + "calculate_influence_oblique_waves_force_gamma_F_beta", "C08", ["z2p Ac beta gamma_A"], vars=WV, pre=w_pre(None))(w_gF)


@conform(W + "calculate_influence_oblique_waves_horizontal_force_gamma_FH_beta", "C08", ["z2p Ac beta", "z2p Ac beta gamma_A"], vars=WV, pre=w_pre(1))
def w_gFH(m, z2p, Ac, beta, gamma_A=1):
    return w_gF(m, z2p, Ac, beta, gamma_A)


@conform(W + "calculate_influence_oblique_waves_vertical_force_gamma_FV_beta", "C08", ["z2p Ac beta", "z2p Ac beta gamma_A"], vars=WV, pre=w_pre(0.75))
def w_gFV(m, z2p, Ac, beta, gamma_A=0.75):
    return w_gF(m, z2p, Ac, beta, gamma_A)


@conform(W + "calculate_influence_oblique_waves_gamma_beta", "C08", ["beta", "beta c_beta"], vars=dict(WV, c_beta=rng(0, 1, 0.2, 0.8)))
def w_gb(m, beta, c_beta=0.5):
    return (1 - c_beta) * m.cos(m.pi / 180 * beta) ** 2 + c_beta


@conform(W + "calculate_FH2p_perpendicular_from_z2p", "C08", ["Hm0 z2p Ac Rc Hwall", "Hm0 z2p Ac Rc Hwall rho_water g cFH"], vars=WV)
def w_FHz(m, Hm0, z2p, Ac, Rc, Hwall, rho_water=1025, g=9.81, cFH=1):
    return m.max(cFH * rho_water * g * Hwall * (z2p - Ac), 0)


def w_z(m, Hm0, Tmm10, cot_alpha, gamma_beta=1, gamma_f=0.45, c0=1.45, c1=5):
    return v_zXp(m, H=Hm0, Tmm10=Tmm10, gamma=gamma_f * gamma_beta, cot_alpha=cot_alpha, c0=c0, c1=c1)


ZK = "Hm0 Tmm10 cot_alpha gamma_beta gamma_f c0 c1".split()


def split(kw):
    return {k: v for k, v in kw.items() if k in ZK}, {k: v for k, v in kw.items() if k not in ZK}


@conform(W + "calculate_FH2p_perpendicular", "C08", ["Hm0 Tmm10 cot_alpha Ac Rc Hwall", "Hm0 Tmm10 cot_alpha Ac Rc Hwall gamma_beta gamma_f",
                                                     "Hm0 Tmm10 cot_alpha Ac Rc Hwall gamma_beta gamma_f c0 c1 rho_water g cFH"], vars=WV)
def w_FH(m, **kw):
    a, b = split(kw)
    return w_FHz(m, kw["Hm0"], w_z(m, **a), **b)


def ob_pre(gA):
    def f(m, Ac, **kw):
        a, b = split(kw)
        m.assume(w_z(m, **a) != gA * Ac)
    return f


@conform(W + "calculate_FH2p_oblique", "C08", ["Hm0 Tmm10 beta cot_alpha Ac Rc Hwall", "Hm0 Tmm10 beta cot_alpha Ac Rc Hwall gamma_beta gamma_f",
                                               "Hm0 Tmm10 beta cot_alpha Ac Rc Hwall gamma_beta gamma_f c0 c1 rho_water g cFH"], vars=WV, pre=ob_pre(1))
def w_FHo(m, beta, Ac, **kw):
    a, b = split(kw)
    z = w_z(m, **a)
    return w_FHz(m, kw["Hm0"], z, Ac=Ac, **b) * w_gF(m, z, Ac, beta, 1)


@conform(W + "calculate_FV2p_perpendicular_from_z2p", "C08", ["z2p Ac Bwall Fb", "z2p Ac Bwall Fb cFV cFb rho_water g"], vars=WV)
def w_FVz(m, z2p, Ac, Bwall, Fb, cFV=0.4, cFb=0.5, rho_water=1025, g=9.81):
    return m.max(cFV * rho_water * g * Bwall * (z2p - 0.75 * Ac) * (1 - (Fb / Ac) ** cFb), 0)


@conform(W + "calculate_FV2p_perpendicular", "C08", ["Hm0 Tmm10 cot_alpha Ac Bwall Fb", "Hm0 Tmm10 cot_alpha Ac Bwall Fb gamma_beta gamma_f",
                                                     "Hm0 Tmm10 cot_alpha Ac Bwall Fb gamma_beta gamma_f c0 c1 cFV cFb rho_water g"], vars=WV)
def w_FV(m, **kw):
    a, b = split(kw)
    return w_FVz(m, w_z(m, **a), **b)


@conform(W + "calculate_FV2p_oblique", "C08", ["Hm0 Tmm10 beta cot_alpha Ac Bwall Fb", "Hm0 Tmm10 beta cot_alpha Ac Bwall Fb gamma_beta gamma_f",
                                               "Hm0 Tmm10 beta cot_alpha Ac Bwall Fb gamma_beta gamma_f c0 c1 cFV cFb rho_water g"], vars=WV, pre=ob_pre(0.75))
def w_FVo(m, beta, Ac, **kw):
    a, b = split(kw)
    z = w_z(m, **a)
    return w_FVz(m, z, Ac, **b) * w_gF(m, z, Ac, beta, 0.75)


@conform(W + "calculate_FH01p_perpendicular", "C08", ["FH2p"], vars=WV)
def w_FH01(m, FH2p):
    return 1.6 * FH2p


@conform(W + "calculate_FV01p_perpendicular", "C08", ["FV2p s0p"], vars=WV)
def w_FV01(m, FV2p, s0p):
    return (2.88 - 32 * s0p) * FV2p


def w_ranges(m, Rc=NAN_, Ac=NAN_, Hm0=NAN_, Fb=NAN_, beta=NAN_):
    out = [(beta, 0, 75)]
    if given(m, Rc, Ac):
        out.append((Rc / Ac, 1.27, 1.55))
        if given(m, Hm0):
            out.append(((Rc - Ac) / Hm0, 0.26, 0.77))
    if given(m, Hm0, Rc):
        out.append((Rc / Hm0, 0.79, 2.18))
    if given(m, Hm0, Fb):
        out.append((Fb / Hm0, 0, 0.62))
    return out


@checks(W + "check_validity", "C03", ["Rc Ac", "Rc Hm0", "Rc Ac Hm0", "Hm0 Fb", "beta", "Rc Ac Hm0 Fb beta"], vars=WV)
def w_cvr(m, got, **kw):
    return w_ranges(m, **kw)


for _f, _m in (("calculate_FH2p_perpendicular", "Hm0 Tmm10 cot_alpha Ac Rc Hwall gamma_beta gamma_f"), ("calculate_FH2p_oblique", "Hm0 Tmm10 beta cot_alpha Ac Rc Hwall gamma_beta gamma_f"),
               ("calculate_FV2p_perpendicular", "Hm0 Tmm10 cot_alpha Ac Bwall Fb gamma_beta gamma_f"), ("calculate_FV2p_oblique", "Hm0 Tmm10 beta cot_alpha Ac Bwall Fb gamma_beta gamma_f"),
               ("calculate_FH2p_perpendicular_from_z2p", "Hm0 z2p Ac Rc Hwall")):
    @checks(W + _f, "C03", [_m], vars=WV, pre=ob_pre(1 if "FH" in _f else 0.75) if "oblique" in _f else None)
    def w_fn(m, got, **kw):
        return w_ranges(m, **{k: v for k, v in kw.items() if k in ("Rc", "Ac", "Hm0", "Fb", "beta")})


@lemma("crest wall forces are never negative", "C16 C08", vars=dict(WV, Hm0=pos(0.5, 5), z2p=pos(0.3, 8), Rc=pos(0.5, 5), Hwall=pos(0.5, 3), Bwall=pos(1, 6), g=pos(9, 10), rho_water=pos(1000, 1030)))
def w_nonneg(m, Hm0, z2p, Ac, Rc, Hwall, Bwall, Fb, g, rho_water, beta, c0, c1, gamma_A, cFb, FH2p, FV2p, s0p):
    m.ensure_le("horizontal", 0, m.code(W + "calculate_FH2p_perpendicular_from_z2p")(Hm0=Hm0, z2p=z2p, Ac=Ac, Rc=Rc, Hwall=Hwall, rho_water=rho_water, g=g))
    m.ensure_le("vertical", 0, m.code(W + "calculate_FV2p_perpendicular_from_z2p")(z2p=z2p, Ac=Ac, Bwall=Bwall, Fb=Fb, rho_water=rho_water, g=g))
    m.ensure_le("horizontal extreme", FH2p, m.code(W + "calculate_FH01p_perpendicular")(FH2p=FH2p))
    m.ensure_le("vertical extreme", 0, m.code(W + "calculate_FV01p_perpendicular")(FV2p=FV2p, s0p=s0p))
