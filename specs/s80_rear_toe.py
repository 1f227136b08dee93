"""Rear-side rock and toe berms -- C11 formulas, C03 ranges, C13 round trips, C14 iterations."""
from engine.core import INLINE, lemma, conform, checks, pos, real, nonneg, rng, Var, rn, parse_mode, _vmap, _consts, domain
from specs_common import steepness, iribarren, given, buoyant
from specs_s20_runup import NAN_, exact, vg_runup
from specs_s31_overtopping2 import v2_u, v2_z
from specs_s60_rock import diameter, pick, TOL, roundtrips

R = "structural.stability_rock_rear."
T = "structural.stability_toe_berm."
V7 = R + "vangent2007:"
VP = R + "vangentpozueta2004:"
E1 = T + "etemadshahidi2021:"
GE = T + "gerding1993:"
VM = T + "vandermeer1998:"
VW = T + "vangentvanderwerf2014:"
TK = T + "takahashi1990_caisson:"
VG = "hydraulic.wave_runup.vangent2001:"
domain("Rc2_front", nonneg(0, 1.5))
domain("Rc2_rear", nonneg(0, 2))
domain("Rc_rear", pos(0.5, 8))


def heavier(m, rho_rock=None, rho_water=1025, **kw):
    """rock is heavier than water"""
    if rho_rock is not None:
        m.assume(rho_rock > rho_water)


def z1(m, Hs, Tmm10, gamma, cot_alpha):
    return vg_runup(m, Hs, Tmm10, gamma, cot_alpha, m.q(145, 100), m.q(51, 10))


HB = VG + "_invert_for_Hs"
HB_OPQ = {HB: (1, True)}


def h_back(m, x, z, Tmm10, gamma, cot_alpha):
    """the wave height that gives the 1 % run-up z, with the breaker parameter of the wave height x (contract of that function: C06)"""
    return m.code(HB)(Hs_i0=x, z1p=z, Tmm10=Tmm10, gamma=gamma, cot_alpha=cot_alpha)


# ------------------------------------------------------------------ Van Gent (2007), rear side behind a crest element
V7V = dict(Rc=pos(0.5, 4), gamma=rng(0, 1, 0.5, 1, ls=True), Rc2_rear=nonneg(0, 0.4), Hs=pos(2, 6), Tmm10=pos(7, 14), cot_alpha=pos(1.5, 4))
B7 = "cot_alpha cot_phi gamma Tmm10 Rc Rc2_front Rc2_rear N_waves"


def v7_pre(m, Hs=None, **kw):
    m.assume(kw["Rc"] > kw["Rc2_rear"])
    if Hs is not None:
        m.assume(z1(m, Hs, kw["Tmm10"], kw["gamma"], kw["cot_alpha"]) > kw["Rc"])


@conform(V7 + "calculate_damage_number_S", "C11", ["Hs %s %s" % (B7, d) for d in ("Dn50", "M50 rho_rock", "M50")], vars=V7V, pre=v7_pre, scalar=("Dn50", "M50", "rho_rock"))
def v7_S(m, cot_alpha, cot_phi, gamma, Hs, Tmm10, Rc, Rc2_front, Rc2_rear, N_waves, Dn50=NAN_, M50=NAN_, rho_rock=NAN_):
    D = diameter(m, Dn50, M50, rho_rock)
    z = z1(m, Hs, Tmm10, gamma, cot_alpha)
    return 0.00025 * cot_phi ** 1.25 * ((z - Rc) / D) ** 2 * m.sqrt(Rc / D) * (1 + 5 * Rc2_rear / (Rc - Rc2_rear)) / (1 + Rc2_front / Hs) * m.sqrt(N_waves)


@conform(V7 + "calculate_nominal_rock_diameter_Dn50", "C11", ["S Hs " + B7], vars=V7V, pre=v7_pre)
def v7_D(m, S, cot_alpha, cot_phi, gamma, Hs, Tmm10, Rc, Rc2_front, Rc2_rear, N_waves):
    z = z1(m, Hs, Tmm10, gamma, cot_alpha)
    return 0.036 * m.sqrt(cot_phi) * (z - Rc) ** 0.8 * Rc ** 0.2 * ((1 + 5 * Rc2_rear / (Rc - Rc2_rear)) / (1 + Rc2_front / Hs) * m.sqrt(N_waves) / S) ** 0.4


@lemma("round trip: Van Gent (2007) rear side S -> Dn50 -> S within 2 % (rounded published coefficients)", "C13", vars=_vmap(("S Hs " + B7).split(), V7V, V7))
def v7_rt(m, S, **kw):
    v7_pre(m, **kw)
    D = m.code(V7 + "calculate_nominal_rock_diameter_Dn50")(S=S, **kw)
    m.representable(D)
    m.ensure_close("S", m.code(V7 + "calculate_damage_number_S")(Dn50=D, **kw), S, 0.02)


def v7_ranges(m, Rc=NAN_, Rc2_front=NAN_, Rc2_rear=NAN_, Gc=NAN_, Dn50=NAN_, B_element=NAN_, h=NAN_, Hs=NAN_, Tmm10=NAN_, z1p=NAN_, S=NAN_, N_waves=NAN_):
    out = []
    if given(m, Hs):
        if given(m, Tmm10):
            out.append((steepness(m, Hs, Tmm10), 0.023, 0.054))
        for x, lo, hi in ((h, 3.3, 11), (Rc, 0.5, 1.9), (Rc2_front, 0, 0.5), (B_element, 0.5, 1.5), (Gc, 0.5, 1.1), (Rc2_rear, 0, 1.3)):
            if given(m, x):
                out.append((x / Hs, lo, hi))
        if given(m, Rc, z1p):
            out.append(((z1p - Rc) / Hs, 0.2, 1.3))
        if given(m, Dn50):
            out.append((Hs / (m.q(65, 41) * Dn50), 4, 12))
    if given(m, N_waves):
        out.append((N_waves, 1000, 10000))
    if given(m, Rc, Dn50):
        out.append((Rc / Dn50, 7, 22))
    if given(m, S):
        out.append((S, 2, 100))
    return out


@checks(V7 + "check_validity_range", "C03", ["Hs Tmm10", "h Hs", "N_waves", "Rc Hs", "Rc Dn50", "Rc Hs z1p", "Rc2_front Hs", "B_element Hs", "Gc Hs", "Dn50 Hs", "Rc2_rear Hs", "S",
                                             "Rc Rc2_front Rc2_rear Gc Dn50 B_element h Hs Tmm10 z1p S N_waves"])
def v7_c(m, got, **kw):
    return v7_ranges(m, **kw)


C7 = "Hs Tmm10 Rc Rc2_front Rc2_rear N_waves S"


@checks(V7 + "calculate_damage_number_S", "C03", ["Hs %s %s" % (B7, d) for d in ("Dn50", "M50 rho_rock")], vars=V7V, pre=v7_pre)
def v7_cS(m, got, Dn50=NAN_, M50=NAN_, rho_rock=NAN_, **kw):
    return v7_ranges(m, S=got, Dn50=diameter(m, Dn50, M50, rho_rock), z1p=z1(m, kw["Hs"], kw["Tmm10"], kw["gamma"], kw["cot_alpha"]), **pick(kw, C7))


@checks(V7 + "calculate_nominal_rock_diameter_Dn50", "C03", ["S Hs " + B7], vars=V7V, pre=v7_pre)
def v7_cD(m, got, **kw):
    return v7_ranges(m, Dn50=got, z1p=z1(m, kw["Hs"], kw["Tmm10"], kw["gamma"], kw["cot_alpha"]), **pick(kw, C7))


@checks(V7 + "calculate_maximum_significant_wave_height_Hs", "C03", ["S %s %s" % (B7, d) for d in ("Dn50", "M50 rho_rock")], vars=V7V, pre=v7_pre, subset=True,
        opaque={V7 + "_invert_for_z1p": 1, "hydraulic.wave_runup.vangent2001:_invert_for_Hs": 1})
def v7_cH(m, got, Dn50=NAN_, M50=NAN_, rho_rock=NAN_, **kw):
    return v7_ranges(m, Hs=got, Dn50=diameter(m, Dn50, M50, rho_rock), **pick(kw, C7))


def v7_z(m, Hs, S, cot_phi, Rc, Rc2_front, Rc2_rear, N_waves, D):
    return Rc + D * m.sqrt(S / m.sqrt(N_waves) / 0.00025 / cot_phi ** 1.25 * m.sqrt(D / Rc) / (1 + 5 * Rc2_rear / (Rc - Rc2_rear)) * (1 + Rc2_front / Hs))


conform(V7 + "_invert_for_z1p", "C11", ["cot_phi S Dn50 Hs Rc Rc2_front Rc2_rear N_waves"], vars=V7V, pre=v7_pre if False else (lambda m, Rc, Rc2_rear, **kw: m.assume(Rc > Rc2_rear)))(
    lambda m, cot_phi, S, Dn50, Hs, Rc, Rc2_front, Rc2_rear, N_waves: v7_z(m, Hs, S, cot_phi, Rc, Rc2_front, Rc2_rear, N_waves, Dn50))

for _mode in ("Dn50", "M50 rho_rock", "Dn50 tolerance max_iterations=4"):
    _v, _c = parse_mode("S %s %s" % (B7, _mode))

    @lemma("iteration: vangent2007 rear side wave height [%s]" % _mode, "C14 C11", vars=_vmap(_v, dict(V7V, tolerance=TOL), V7), opaque=HB_OPQ)
    def v7_it(m, S, cot_alpha, cot_phi, gamma, Tmm10, Rc, Rc2_front, Rc2_rear, N_waves, _c=_c, tolerance=1e-4, Dn50=NAN_, M50=NAN_, rho_rock=NAN_):
        m.assume(Rc > Rc2_rear)
        n = _consts(m, _c).get("max_iterations", 10000)
        a = dict(Dn50=Dn50) if given(m, Dn50) else dict(M50=M50, rho_rock=rho_rock)
        D = diameter(m, Dn50, M50, rho_rock)
        m.clear_loops()
        Hs = m.code(V7 + "calculate_maximum_significant_wave_height_Hs")(
            cot_alpha=cot_alpha, cot_phi=cot_phi, gamma=gamma, S=S, Tmm10=Tmm10, Rc=Rc, Rc2_front=Rc2_front, Rc2_rear=Rc2_rear, N_waves=N_waves, tolerance=tolerance, max_iterations=n, **a)

        def step(x):
            return h_back(m, x, v7_z(m, x, S, cot_phi, Rc, Rc2_front, Rc2_rear, N_waves, D), Tmm10, gamma, cot_alpha)
        x0 = Rc2_front if Rc2_front > 0 else Rc
        m.converged("wave height", Hs, lambda: step(x0), step, tolerance, n, x0=x0)


# ------------------------------------------------------------------ Van Gent & Pozueta (2004), rear side
VPV = dict(Rc=pos(0.5, 4), gamma_f=rng(0, 1, 0.5, 1, ls=True), Hs=pos(2, 6), Tmm10=pos(7, 14), cot_alpha=pos(1.5, 4), cs=pos(1e-13, 1e-12))
BP = "cot_alpha cot_phi gamma_f gamma_f_Crest Tmm10 Rc Rc_rear Bc N_waves rho_rock"
CS = "1000000"


def vp_cs(m):
    return m.q(1, 125) ** 6


def vp_pre(m, Hs=None, **kw):
    heavier(m, **kw)
    if Hs is not None:
        m.assume(z1(m, Hs, kw["Tmm10"], kw["gamma_f"], kw["cot_alpha"]) > kw["Rc"])


def vp_u(m, Hs, Tmm10, gamma_f, gamma_f_Crest, cot_alpha, Rc, Bc):
    return v2_u(m, Hs, z1(m, Hs, Tmm10, gamma_f, cot_alpha), Rc, Bc, gamma_f, gamma_f_Crest)


@conform(VP + "calculate_damage_number_S", "C11", ["Hs %s Dn50" % BP, "Hs %s M50" % BP, "Hs %s Dn50 rho_water cs" % BP], vars=VPV, pre=vp_pre, scalar=("Dn50", "M50", "rho_rock"))
def vp_S(m, cot_alpha, cot_phi, gamma_f, gamma_f_Crest, Hs, Tmm10, Rc, Rc_rear, Bc, N_waves, rho_rock, Dn50=NAN_, M50=NAN_, rho_water=1025, cs=None):
    D = diameter(m, Dn50, M50, rho_rock)
    u = vp_u(m, Hs, Tmm10, gamma_f, gamma_f_Crest, cot_alpha, Rc, Bc)
    return (vp_cs(m) if cs is None else cs) * (u * Tmm10 / (m.sqrt(buoyant(m, rho_rock, rho_water)) * D)) ** 6 * cot_phi ** -2.5 * (1 + 10 * m.exp(-Rc_rear / Hs)) * m.sqrt(N_waves)


@conform(VP + "calculate_nominal_rock_diameter_Dn50", "C11", ["S Hs %s" % BP, "S Hs %s rho_water cs" % BP], vars=VPV, pre=vp_pre)
def vp_D(m, cot_alpha, cot_phi, gamma_f, gamma_f_Crest, S, Hs, Tmm10, Rc, Rc_rear, Bc, rho_rock, N_waves, rho_water=1025, cs=None):
    u = vp_u(m, Hs, Tmm10, gamma_f, gamma_f_Crest, cot_alpha, Rc, Bc)
    return ((vp_cs(m) if cs is None else cs) * (1 + 10 * m.exp(-Rc_rear / Hs)) * m.sqrt(N_waves) / S * cot_phi ** -2.5) ** m.q(1, 6) * u * Tmm10 / m.sqrt(buoyant(m, rho_rock, rho_water))


roundtrips("Van Gent & Pozueta (2004)", "C13", [("", VP + "calculate_nominal_rock_diameter_Dn50", "Dn50", "S"), ("", VP + "calculate_damage_number_S", "S", "Dn50")],
           ["S Hs " + BP, "S Hs %s rho_water cs" % BP], vars=VPV, pre=vp_pre)


def vp_ranges(m, Rc=NAN_, Rc_rear=NAN_, cot_phi=NAN_, gamma_f=NAN_, Dn50=NAN_, rho_rock=NAN_, rho_water=NAN_, Bc=NAN_, Hs=NAN_, Tmm10=NAN_, z1p=NAN_, S=NAN_, N_waves=NAN_):
    out = []
    if given(m, Hs):
        if given(m, Tmm10):
            out.append((steepness(m, Hs, Tmm10), 0.019, 0.036))
        for x, lo, hi in ((Rc, 0.3, 2), (Rc_rear, 0.3, 6), (Bc, 1.3, 1.6)):
            if given(m, x):
                out.append((x / Hs, lo, hi))
        if given(m, Rc, z1p, gamma_f):
            out.append(((z1p - Rc) / (gamma_f * Hs), 0, 1.4))
        if given(m, Dn50, rho_rock, rho_water):
            out.append((Hs / (buoyant(m, rho_rock, rho_water) * Dn50), 5.5, 8.5))
    for x, lo, hi in ((N_waves, 0, 4000), (cot_phi, 2, 4), (S, 2, 50)):
        if given(m, x):
            out.append((x, lo, hi))
    return out


@checks(VP + "check_validity_range", "C03", ["Hs Tmm10", "N_waves", "Rc Hs", "Rc_rear Hs", "Bc Hs", "Rc Hs z1p gamma_f", "Hs Dn50 rho_rock rho_water", "cot_phi", "S", "Hs Dn50 rho_rock",
                                             "Rc Rc_rear cot_phi gamma_f Dn50 rho_rock rho_water Bc Hs Tmm10 z1p S N_waves"], pre=heavier)
def vp_c(m, got, **kw):
    return vp_ranges(m, **kw)


CP = "Rc Rc_rear cot_phi gamma_f rho_rock Bc Hs Tmm10 S N_waves"


@checks(VP + "calculate_damage_number_S", "C03", ["Hs %s Dn50" % BP, "Hs %s M50 rho_water" % BP], vars=VPV, pre=vp_pre)
def vp_cS(m, got, Dn50=NAN_, M50=NAN_, rho_water=1025, **kw):
    return vp_ranges(m, S=got, Dn50=diameter(m, Dn50, M50, kw["rho_rock"]), rho_water=rho_water, z1p=z1(m, kw["Hs"], kw["Tmm10"], kw["gamma_f"], kw["cot_alpha"]), **pick(kw, CP))


@checks(VP + "calculate_nominal_rock_diameter_Dn50", "C03", ["S Hs %s" % BP, "S Hs %s rho_water" % BP], vars=VPV, pre=vp_pre)
def vp_cD(m, got, rho_water=1025, **kw):
    return vp_ranges(m, Dn50=got, rho_water=rho_water, z1p=z1(m, kw["Hs"], kw["Tmm10"], kw["gamma_f"], kw["cot_alpha"]), **pick(kw, CP))


@checks(VP + "calculate_maximum_significant_wave_height_Hs", "C03", ["S %s Dn50" % BP, "S %s M50 rho_water" % BP], vars=VPV, pre=vp_pre, subset=True,
        opaque={VP + "_invert_for_u1p": 1, "hydraulic.wave_overtopping.vangent2002_velocity:_invert_for_zXp": 1, "hydraulic.wave_runup.vangent2001:_invert_for_Hs": 1})
def vp_cH(m, got, Dn50=NAN_, M50=NAN_, rho_water=1025, **kw):
    return vp_ranges(m, Hs=got, Dn50=diameter(m, Dn50, M50, kw["rho_rock"]), rho_water=rho_water, **pick(kw, CP))


@conform(VP + "_invert_for_u1p", "C11", ["cot_phi S Hs Tmm10 Rc_rear N_waves Dn50 Delta", "cot_phi S Hs Tmm10 Rc_rear N_waves Dn50 Delta cs"], vars=VPV)
def vp_iu(m, cot_phi, S, Hs, Tmm10, Rc_rear, N_waves, Dn50, Delta, cs=None):
    return (S / (vp_cs(m) if cs is None else cs) / m.sqrt(N_waves) * cot_phi ** 2.5 / (1 + 10 * m.exp(-Rc_rear / Hs))) ** m.q(1, 6) * m.sqrt(Delta) * Dn50 / Tmm10


for _mode in ("Dn50", "M50", "Dn50 rho_water cs", "Dn50 tolerance max_iterations=4"):
    _v, _c = parse_mode("S %s %s" % (BP, _mode))

    @lemma("iteration: vangentpozueta2004 wave height [%s]" % _mode, "C14 C11", vars=_vmap(_v, dict(VPV, tolerance=TOL), VP), opaque=HB_OPQ)
    def vp_it(m, S, cot_alpha, cot_phi, gamma_f, gamma_f_Crest, Tmm10, Rc, Rc_rear, Bc, N_waves, rho_rock, _c=_c, tolerance=1e-4, Dn50=NAN_, M50=NAN_, rho_water=1025, cs=None):
        heavier(m, rho_rock, rho_water)
        n = _consts(m, _c).get("max_iterations", 10000)
        a = dict(Dn50=Dn50) if given(m, Dn50) else dict(M50=M50)
        if cs is not None:
            a.update(rho_water=rho_water, cs=cs)
        D = diameter(m, Dn50, M50, rho_rock)
        m.clear_loops()
        Hs = m.code(VP + "calculate_maximum_significant_wave_height_Hs")(
            cot_alpha=cot_alpha, cot_phi=cot_phi, gamma_f=gamma_f, gamma_f_Crest=gamma_f_Crest, S=S, Tmm10=Tmm10, Rc=Rc, Rc_rear=Rc_rear, Bc=Bc, N_waves=N_waves, rho_rock=rho_rock,
            tolerance=tolerance, max_iterations=n, **a)

        def step(x):
            u = vp_iu(m, cot_phi, S, x, Tmm10, Rc_rear, N_waves, D, buoyant(m, rho_rock, rho_water), cs)
            return h_back(m, x, v2_z(m, x, u, Rc, Bc, gamma_f, gamma_f_Crest), Tmm10, gamma_f, cot_alpha)
        x0 = (Rc + 0.5) / (2.552 * gamma_f)
        m.converged("wave height", Hs, lambda: step(x0), step, tolerance, n, x0=x0)


# ------------------------------------------------------------------ Gerding (1993) and Van der Meer (1998) toe berms
GB = "ht h rho_rock rho_water"


def depth_ok(m, ht=None, h=None, **kw):
    heavier(m, **kw)


@conform(GE + "calculate_damage_Nod", "C11", ["Hs Dn50 " + GB], pre=depth_ok)
def ge_N(m, Hs, ht, h, Dn50, rho_rock, rho_water):
    return (Hs / (buoyant(m, rho_rock, rho_water) * Dn50) / (1.6 + 0.24 * ht / Dn50)) ** m.q(20, 3)


def ge_pos(m, Hs, ht, Nod, rho_rock, rho_water, **kw):
    """the wave needs some rock"""
    heavier(m, rho_rock, rho_water)
    m.assume(Hs / buoyant(m, rho_rock, rho_water) > 0.24 * ht * Nod ** 0.15)


@conform(GE + "calculate_nominal_diameter_Dn50", "C11", ["Hs Nod " + GB], pre=depth_ok)
def ge_D(m, Hs, ht, h, Nod, rho_rock, rho_water):
    n = Nod ** 0.15
    return (Hs / buoyant(m, rho_rock, rho_water) - 0.24 * ht * n) / (1.6 * n)


@conform(GE + "calculate_wave_height_Hs", "C11", ["Dn50 Nod " + GB], pre=depth_ok)
def ge_H(m, Dn50, ht, h, Nod, rho_rock, rho_water):
    return Nod ** 0.15 * buoyant(m, rho_rock, rho_water) * (1.6 * Dn50 + 0.24 * ht)


@conform(GE + "calculate_depth_above_toe_ht", "C11", ["Hs Dn50 h Nod rho_rock rho_water"], pre=depth_ok)
def ge_h(m, Hs, Dn50, h, Nod, rho_rock, rho_water):
    return (Hs / (buoyant(m, rho_rock, rho_water) * Nod ** 0.15) - 1.6 * Dn50) / 0.24


def ge_ranges(m, ht=NAN_, h=NAN_, Dn50=NAN_):
    out = []
    if given(m, ht, h):
        out.append((ht / h, 0.4, 0.9))
    if given(m, ht, Dn50):
        out.append((ht / Dn50, 3, 25))
    return out


@checks(GE + "check_validity", "C03", ["ht h", "ht Dn50", "ht h Dn50", "h Dn50"])
def ge_c(m, got, **kw):
    return ge_ranges(m, **kw)


for _f, _o, _m in (("calculate_damage_Nod", None, "Hs Dn50 " + GB), ("calculate_nominal_diameter_Dn50", "Dn50", "Hs Nod " + GB), ("calculate_wave_height_Hs", None, "Dn50 Nod " + GB),
                   ("calculate_depth_above_toe_ht", "ht", "Hs Dn50 h Nod rho_rock rho_water")):
    @checks(GE + _f, "C03", [_m], pre=depth_ok if _o != "Dn50" else ge_pos)
    def ge_cf(m, got, _o=_o, **kw):
        return ge_ranges(m, **dict(pick(kw, "ht h Dn50"), **({_o: got} if _o else {})))

_G = dict(Nod=("calculate_damage_Nod", None), Dn50=("calculate_nominal_diameter_Dn50", ge_pos), Hs=("calculate_wave_height_Hs", None), ht=("calculate_depth_above_toe_ht", None))


def ge_ht(m, Hs, Dn50, Nod, rho_rock, rho_water, **kw):
    """the depth found is positive"""
    heavier(m, rho_rock, rho_water)
    m.assume(Hs / buoyant(m, rho_rock, rho_water) > 1.6 * Dn50 * Nod ** 0.15)


for _a, _b in (("Dn50", "Nod"), ("Hs", "Nod"), ("Nod", "Hs"), ("Nod", "Dn50"), ("Hs", "Dn50"), ("Dn50", "Hs"), ("ht", "Nod"), ("Nod", "ht"), ("ht", "Hs"), ("Hs", "ht"), ("ht", "Dn50"), ("Dn50", "ht")):
    # calculate _a from _b, then _b back
    _all = [x for x in "Hs Dn50 ht h Nod rho_rock rho_water".split() if x != _a]
    roundtrips("Gerding (1993)", "C13", [("", GE + _G[_a][0], _a, _b), ("", GE + _G[_b][0], _b, _a)], [" ".join(_all)],
               pre={"Dn50": ge_pos, "ht": ge_ht}.get(_a, depth_ok))


@conform(VM + "calculate_damage_Nod", "C11", ["Hs Dn50 " + GB], pre=depth_ok)
def vm_N(m, Hs, ht, h, Dn50, rho_rock, rho_water):
    return (Hs / (buoyant(m, rho_rock, rho_water) * Dn50) / (2 + 6.2 * (ht / h) ** 2.7)) ** m.q(20, 3)


@conform(VM + "calculate_nominal_diameter_Dn50", "C11", ["Hs Nod " + GB], pre=depth_ok)
def vm_D(m, Hs, ht, h, Nod, rho_rock, rho_water):
    return Hs / (buoyant(m, rho_rock, rho_water) * Nod ** 0.15 * (2 + 6.2 * (ht / h) ** 2.7))


@conform(VM + "calculate_wave_height_Hs", "C11", ["Dn50 Nod " + GB], pre=depth_ok)
def vm_H(m, Dn50, ht, h, Nod, rho_rock, rho_water):
    return (2 + 6.2 * (ht / h) ** 2.7) * Nod ** 0.15 * buoyant(m, rho_rock, rho_water) * Dn50


@conform(VM + "calculate_depth_above_toe_ht", "C11", ["Hs Dn50 h Nod rho_rock rho_water"], pre=depth_ok)
def vm_h(m, Hs, Dn50, h, Nod, rho_rock, rho_water):
    x = Hs / (buoyant(m, rho_rock, rho_water) * Dn50) * Nod ** -0.15 - 2
    if x > 0:
        return h * (x / 6.2) ** m.q(10, 27)
    return NAN_


def vm_ranges(m, Hs=NAN_, ht=NAN_, h=NAN_, Dn50=NAN_, Nod=NAN_, Delta=NAN_):
    out = []
    if given(m, Hs):
        out.append((Hs, 0.01, 20))
    if given(m, Nod, Hs, Dn50, Delta):
        out.append((Nod ** -0.15 * Hs / (Delta * Dn50), 2, float("inf")))
    return out + ge_ranges(m, ht, h, Dn50)


@checks(VM + "check_validity", "C03", ["Hs", "ht h", "ht Dn50", "Hs Dn50 Nod Delta", "Hs Dn50 Nod", "Hs ht h Dn50 Nod Delta"])
def vm_c(m, got, **kw):
    return vm_ranges(m, **kw)


def vm_wet(m, Hs, Dn50, Nod, rho_rock, rho_water, **kw):
    """a depth exists"""
    heavier(m, rho_rock, rho_water)
    m.assume(Hs / (buoyant(m, rho_rock, rho_water) * Dn50) * Nod ** -0.15 > 2)


for _f, _o, _m in (("calculate_damage_Nod", "Nod", "Hs Dn50 " + GB), ("calculate_nominal_diameter_Dn50", "Dn50", "Hs Nod " + GB), ("calculate_wave_height_Hs", "Hs", "Dn50 Nod " + GB),
                   ("calculate_depth_above_toe_ht", "ht", "Hs Dn50 h Nod rho_rock rho_water")):
    @checks(VM + _f, "C03", [_m], pre=depth_ok)
    def vm_cf(m, got, _o=_o, **kw):
        return vm_ranges(m, Delta=buoyant(m, kw["rho_rock"], kw["rho_water"]), **dict(pick(kw, "Hs ht h Dn50 Nod"), **{_o: got}))

for _a, _b in (("Dn50", "Nod"), ("Hs", "Nod"), ("Nod", "Hs"), ("Nod", "Dn50"), ("Hs", "Dn50"), ("Dn50", "Hs"), ("ht", "Nod"), ("Nod", "ht"), ("ht", "Hs"), ("Hs", "ht"), ("ht", "Dn50"), ("Dn50", "ht")):
    _all = [x for x in "Hs Dn50 ht h Nod rho_rock rho_water".split() if x != _a]
    roundtrips("Van der Meer (1998) toe", "C13", [("", VM + _G[_a][0], _a, _b), ("", VM + _G[_b][0], _b, _a)], [" ".join(_all)],
               pre=vm_wet if _a == "ht" else depth_ok)


# ------------------------------------------------------------------ Van Gent & Van der Werf (2014) toe berms
BW = "Hm0 Tmm10 ht Bt tt rho_rock rho_water cot_alpha_armour_slope"
WV = dict(c4=pos(2, 4), tt=pos(0.5, 4))


@conform(VW + "calculate_velocity_u_delta", "C11", ["Hs Tmm10 ht", "Hs Tmm10 ht g"])
def vw_u(m, Hs, Tmm10, ht, g=9.81):
    return m.pi * Hs / Tmm10 / m.sinh(4 * m.pi ** 2 / (g * Tmm10 ** 2) * ht)


@conform(VW + "calculate_damage_Nod", "C11", [BW + " Dn50", BW + " Dn50 g", BW + " Dn50 g c1 c2 c3 c4 c5"], vars=WV, pre=heavier)
def vw_N(m, Hm0, Tmm10, ht, Bt, tt, Dn50, rho_rock, rho_water, cot_alpha_armour_slope, g=9.81, c1=0.032, c2=0.3, c3=1, c4=3, c5=1):
    return c1 * (Bt / Hm0) ** c2 * (tt / Hm0) ** c3 * (Hm0 / (buoyant(m, rho_rock, rho_water) * Dn50)) ** c4 * (vw_u(m, Hm0, Tmm10, ht, g) / m.sqrt(g * Hm0)) ** c5


@conform(VW + "calculate_nominal_diameter_Dn50", "C11", [BW + " Nod", BW + " Nod g"], vars=WV, pre=heavier)
def vw_D(m, Hm0, Tmm10, ht, Bt, tt, Nod, rho_rock, rho_water, cot_alpha_armour_slope, g=9.81):
    return 0.32 * Hm0 / buoyant(m, rho_rock, rho_water) * (Bt / Hm0) ** 0.1 * (tt / Hm0 * vw_u(m, Hm0, Tmm10, ht, g) / m.sqrt(g * Hm0) / Nod) ** m.q(1, 3)


@lemma("round trip: Van Gent & Van der Werf (2014) Nod -> Dn50 -> Nod within 3 % (rounded published coefficients)", "C13", vars=_vmap((BW + " Nod g").split(), WV, VW))
def vw_rt(m, Nod, **kw):
    heavier(m, **kw)
    D = m.code(VW + "calculate_nominal_diameter_Dn50")(Nod=Nod, **kw)
    m.representable(D)
    m.ensure_close("Nod", m.code(VW + "calculate_damage_Nod")(Dn50=D, **kw), Nod, 0.03)


def vw_ranges(m, Hs=NAN_, tt=NAN_, ht=NAN_, cot_alpha_armour_slope=NAN_):
    out = []
    if given(m, cot_alpha_armour_slope):
        out += [(cot_alpha_armour_slope, 1.5, 4), (cot_alpha_armour_slope, 1.5, 2)]
    if given(m, ht, tt):
        out.append((tt / (ht + tt), 0.1, 0.3))
        if given(m, Hs):
            out.append(((ht + tt) / Hs, 1.2, 4.5))
    return out


@checks(VW + "check_validity", "C03", ["cot_alpha_armour_slope", "ht tt", "Hs ht tt", "Hs tt", "Hs ht tt cot_alpha_armour_slope"])
def vw_c(m, got, **kw):
    return vw_ranges(m, **kw)


for _f, _m in (("calculate_damage_Nod", BW + " Dn50"), ("calculate_nominal_diameter_Dn50", BW + " Nod")):
    @checks(VW + _f, "C03", [_m], vars=WV, pre=heavier)
    def vw_cf(m, got, Hm0, **kw):
        return vw_ranges(m, Hs=Hm0, **pick(kw, "tt ht cot_alpha_armour_slope"))


# ------------------------------------------------------------------ Etemad-Shahidi (2021) toe berms
EB = "Tmm10 h ht Bt m__ rho_rock"
EC = dict(c1=pos(0.5, 1.3), c2=pos(5, 15), c3=pos(1, 2), c4=pos(0.1, 0.3), c5=pos(0.2, 0.6), c6=real(-0.2, -0.05), c7=pos(1, 5), m__=pos(0.01, 0.12), Dn50=pos(0.1, 0.7), Hs=pos(2, 6))
CD = dict(c1="6/5", c2="56/5", c3="7/4", c4="1/6", c5="2/5", c6="-1/10", c7="37/10")


def e1_c(m, kw):
    out = []
    for k in ("c1", "c2", "c3", "c4", "c5", "c6", "c7"):
        v = kw.pop(k, None)
        if v is None:
            a, b = CD[k].split("/")
            v = m.q(int(a), int(b))
        out.append(v)
    return out


def e1_pre(m, Hs=None, Dn50=None, rho_rock=None, rho_water=1025, m__=None, c7=3.7, c1=1.2, Nod=None, **kw):
    heavier(m, rho_rock, rho_water)
    m.assume(1 - c7 * m__ > 0)
    if Nod is None:
        m.assume(Hs / (buoyant(m, rho_rock, rho_water) * Dn50) > c1)


@conform(E1 + "calculate_damage_Nod", "C11", ["Hs %s Dn50" % EB, "Hs %s Dn50 rho_water g" % EB, "Hs %s Dn50 c1 c2 c3 c4 c5 c6 c7" % EB], vars=EC, pre=e1_pre)
def e1_N(m, Hs, Tmm10, h, ht, Bt, m__, Dn50, rho_rock, rho_water=1025, g=9.81, **kw):
    c1, c2, c3, c4, c5, c6, c7 = e1_c(m, kw)
    Ns = Hs / (buoyant(m, rho_rock, rho_water) * Dn50)
    return ((Ns - c1) / (c2 * (ht / h) ** c3 * steepness(m, Hs, Tmm10, g) ** c4 * (Bt / Hs) ** c6 * (1 - c7 * m__))) ** (1 / c5)


def e1_Ns(m, Hs, Tmm10, h, ht, Bt, m__, Nod, g, c):
    c1, c2, c3, c4, c5, c6, c7 = c
    return c1 + c2 * (ht / h) ** c3 * steepness(m, Hs, Tmm10, g) ** c4 * Nod ** c5 * (Bt / Hs) ** c6 * (1 - c7 * m__)


@conform(E1 + "calculate_nominal_diameter_Dn50", "C11", ["Hs %s Nod" % EB, "Hs %s Nod rho_water g" % EB, "Hs %s Nod c1 c2 c3 c4 c5 c6 c7" % EB], vars=EC, pre=e1_pre)
def e1_D(m, Hs, Tmm10, h, ht, Bt, m__, Nod, rho_rock, rho_water=1025, g=9.81, **kw):
    return Hs / buoyant(m, rho_rock, rho_water) / e1_Ns(m, Hs, Tmm10, h, ht, Bt, m__, Nod, g, e1_c(m, kw))


for _x in ("", " rho_water g", " c1 c2 c3 c4 c5 c6 c7"):
    roundtrips("Etemad-Shahidi (2021) toe", "C13", [("", E1 + "calculate_nominal_diameter_Dn50", "Dn50", "Nod"), ("", E1 + "calculate_damage_Nod", "Nod", "Dn50")], ["Hs %s Nod%s" % (EB, _x)], vars=EC, pre=e1_pre)
    roundtrips("Etemad-Shahidi (2021) toe", "C13", [("", E1 + "calculate_damage_Nod", "Nod", "Dn50"), ("", E1 + "calculate_nominal_diameter_Dn50", "Dn50", "Nod")], ["Hs %s Dn50%s" % (EB, _x)], vars=EC, pre=e1_pre)


def e1_ranges(m, Hs=NAN_, Tmm10=NAN_, h=NAN_, ht=NAN_, Bt=NAN_, Dn50=NAN_, m__=NAN_, Nod=NAN_, cot_alpha_armour_slope=NAN_, rho_armour=NAN_, rho_water=1025):
    out = []
    if given(m, cot_alpha_armour_slope):
        out.append((cot_alpha_armour_slope, 1.5, 2))
    if given(m, Hs, Tmm10):
        out.append((steepness(m, Hs, Tmm10), 0.009, 0.061))
    for a, b, lo, hi in ((ht, h, 0.39, 0.88), (ht, Hs, 0.48, 2.58), (ht, Dn50, 1.97, 23.4), (Bt, Hs, 0.17, 1.92), (h, Hs, 1.22, 3)):
        if given(m, a, b):
            out.append((a / b, lo, hi))
    if given(m, rho_armour):
        D = buoyant(m, rho_armour, rho_water)
        out.append((D, 1.65, 1.75))
        if given(m, Hs, Dn50):
            out.append((Hs / (D * Dn50), 1.58, 10))
    if given(m, m__):
        out.append((m__, 0.02, 0.1))
    if given(m, Nod):
        out.append((Nod, 0.5, 3.79))
    return out


@checks(E1 + "check_validity", "C03", ["cot_alpha_armour_slope", "Hs Tmm10", "h ht", "Hs ht", "Dn50 ht", "Hs Bt", "h Hs", "Hs Dn50 rho_armour", "rho_armour", "rho_armour rho_water", "m__", "Nod",
                                       "Hs Tmm10 h ht Bt Dn50 m__ Nod cot_alpha_armour_slope rho_armour rho_water"],
        pre=lambda m, rho_armour=None, rho_water=1025, **kw: heavier(m, rho_armour, rho_water))
def e1_cv(m, got, **kw):
    return e1_ranges(m, **kw)


for _f, _o, _m in (("calculate_damage_Nod", "Nod", "Hs %s Dn50 rho_water" % EB), ("calculate_nominal_diameter_Dn50", "Dn50", "Hs %s Nod rho_water" % EB), ("calculate_nominal_diameter_Dn50", "Dn50", "Hs %s Nod" % EB)):
    @checks(E1 + _f, "C03", [_m], vars=EC, pre=e1_pre)
    def e1_cf(m, got, rho_rock, _o=_o, **kw):
        return e1_ranges(m, rho_armour=rho_rock, **dict(pick(kw, "Hs Tmm10 h ht Bt Dn50 m__ Nod rho_water"), **{_o: got}))

@checks(E1 + "calculate_significant_wave_height_Hs", "C03", ["Nod Dn50 %s rho_water" % EB], vars=EC, pre=e1_pre)
def e1_cH(m, got, rho_rock, **kw):
    return e1_ranges(m, rho_armour=rho_rock, Hs=got, **pick(kw, "Tmm10 h ht Bt Dn50 m__ Nod rho_water"))


for _mode in ("", "rho_water g", "c1 c2 c3 c4 c5 c6 c7", "smm10_init max_iter=4"):
    _v, _c = parse_mode("Nod Dn50 %s %s" % (EB, _mode))

    @lemma("iteration: etemadshahidi2021 toe wave height [%s]" % _mode, "C14 C11", vars=_vmap(_v, EC, E1))
    def e1_it(m, Nod, Dn50, Tmm10, h, ht, Bt, m__, rho_rock, _c=_c, rho_water=1025, g=9.81, smm10_init=0.03, **kw):
        heavier(m, rho_rock, rho_water)
        cs = dict(kw)
        c = e1_c(m, cs)
        m.assume(1 - c[6] * m__ > 0)
        n = _consts(m, _c).get("max_iter", 1000)
        m.clear_loops()
        Hs = m.code(E1 + "calculate_significant_wave_height_Hs")(
            **rn(dict(kw, Nod=Nod, Dn50=Dn50, Tmm10=Tmm10, h=h, ht=ht, Bt=Bt, m__=m__, rho_rock=rho_rock, rho_water=rho_water, g=g, smm10_init=smm10_init, max_iter=n)))
        x0 = smm10_init * Tmm10 ** 2 * g / (2 * m.pi)

        def step(x):
            return buoyant(m, rho_rock, rho_water) * Dn50 * e1_Ns(m, x, Tmm10, h, ht, Bt, m__, Nod, g, c)
        m.converged("wave height", Hs, lambda: step(x0), step, 0.001, n, x0=x0)


# ------------------------------------------------------------------ Takahashi (1990), caisson toe
INLINE.add(TK + "calculate_stability_number_Ns")
TV = dict(beta=rng(0, 89), Bt=pos(1, 12))


@conform(TK + "calculate_stability_number_Ns", "C11", ["Hs Tp hacc Bt beta", "Hs Tp hacc Bt beta g"], vars=TV, scalar=("g",))
def tk_N(m, Hs, Tp, hacc, Bt, beta, g=9.81):
    k = 2 * m.pi / m.code("core_physics:calculate_local_wavelength")(T=Tp, h=hacc, g=g)
    b = beta * m.pi / 180
    a = k * Bt * m.cos(b)
    k2 = m.max(0.45 * m.sin(b) ** 2 * m.cos(a) ** 2, m.cos(b) ** 2 * m.sin(a) ** 2)
    kap = 2 * k * hacc / m.sinh(2 * k * hacc) * k2
    r = hacc / Hs * kap ** m.q(-1, 3)
    return m.max(1.8, 1.3 * (1 - kap) * r + 1.8 * m.exp(-1.5 * (1 - kap) ** 2 * r))


@lemma("Takahashi (1990): the stability number is at least 1.8", "C16 C11", vars=_vmap("Hs Tp hacc Bt beta g".split(), TV, TK))
def tk_pos(m, **kw):
    m.ensure("Ns >= 1.8", m.code(TK + "calculate_stability_number_Ns")(**kw) >= 1.8)


@conform(TK + "calculate_nominal_diameter_Dn50", "C11", ["Hs Tp hacc Bt rho_rock rho_water beta", "Hs Tp hacc Bt rho_rock rho_water beta g"], vars=TV, pre=heavier, scalar=("g",), opaque={TK + "calculate_stability_number_Ns": (1, True)})
def tk_D(m, Hs, Tp, hacc, Bt, rho_rock, rho_water, beta, g=9.81):
    return Hs / (buoyant(m, rho_rock, rho_water) * m.code(TK + "calculate_stability_number_Ns")(Hs=Hs, Tp=Tp, hacc=hacc, Bt=Bt, beta=beta, g=g))


@checks(TK + "check_validity", "C03", ["Ns", "Bt", "Ns Bt"], vars=dict(Ns=real(-1, 5), Bt=real(-1, 10)))
def tk_c(m, got, Ns=NAN_, Bt=NAN_):
    return [(x, 0, float("inf")) for x in (Ns, Bt) if given(m, x)]


@checks(TK + "calculate_stability_number_Ns", "C03", ["Hs Tp hacc Bt beta"], vars=TV)
def tk_cN(m, got, Bt, **kw):
    return [(got, 0, float("inf")), (Bt, 0, float("inf"))]
