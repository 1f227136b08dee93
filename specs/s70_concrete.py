"""Stability of concrete armour units -- C10 formulas, C03 ranges, C13 round trips, C15 refusals."""
from engine.core import lemma, conform, checks, pos, real, nonneg, rng, Var, parse_mode, _vmap, _consts
from specs_common import steepness, given, buoyant
from specs_s20_runup import NAN_, exact
from specs_s60_rock import heavier, roundtrips, h_M0, h_H0

A = "structural.stability_concrete_armour."
B = "rho_water rho_armour KD"

# ------------------------------------------------------------------ units designed with Hudson's formula
for _u, _default in (("accropode2_hudson1959", True), ("accropode_hudson1959", True), ("core_loc_hudson1959", True), ("cubipod_hudson1959", True),
                     ("cubes_double_layer_hudson1959", False), ("tetrapod_hudson1959", False)):
    K = A + _u + ":"
    _ms = ["{} %s cot_alpha" % B, "{} %s cot_alpha alpha_Hs" % B] + (["{} %s" % B] if _default else [])

    @conform(K + "calculate_unit_mass_M", "C10", [x.format("Hs") for x in _ms], pre=heavier)
    def u_M(m, Hs, rho_water, rho_armour, KD, cot_alpha=1.33, alpha_Hs=1):
        return h_M0(m, Hs, rho_water, rho_armour, KD, cot_alpha, alpha_Hs)

    @conform(K + "calculate_significant_wave_height_Hs", "C10", [x.format("M") for x in _ms], pre=heavier)
    def u_H(m, M, rho_water, rho_armour, KD, cot_alpha=1.33, alpha_Hs=1):
        return h_H0(m, M, rho_water, rho_armour, KD, cot_alpha, alpha_Hs)

    roundtrips(_u, "C13", [("", K + "calculate_unit_mass_M", "M", "Hs"), ("", K + "calculate_significant_wave_height_Hs", "Hs", "M")], [x.format("Hs") for x in _ms], pre=heavier)
    roundtrips(_u, "C13", [("", K + "calculate_significant_wave_height_Hs", "Hs", "M"), ("", K + "calculate_unit_mass_M", "M", "Hs")], [x.format("M") for x in _ms], pre=heavier)

    @lemma("units: %s reacts to wave height, density and KD in the right direction" % _u, "C16",
           vars=_vmap(("Hs H2 %s K2 cot_alpha" % B).split(), dict(H2=pos(0.5, 6), K2=pos(2, 28)), K))
    def u_mono(m, Hs, H2, rho_water, rho_armour, KD, K2, cot_alpha, K=K):
        heavier(m, rho_armour, rho_water)
        f = m.code(K + "calculate_unit_mass_M")
        a = dict(rho_water=rho_water, rho_armour=rho_armour, cot_alpha=cot_alpha)
        m.assume(Hs <= H2)
        m.assume(KD <= K2)
        base = f(Hs=Hs, KD=KD, **a)
        m.ensure("mass is positive", base > 0)
        m.ensure_le("mass grows with the wave height", base, f(Hs=H2, KD=KD, **a))
        m.ensure_le("mass falls with KD", f(Hs=Hs, KD=K2, **a), base)

KDG = {"accropode2_hudson1959": (16, 16, 10.66, 9), "accropode_hudson1959": (15, 15, 9.7, 8), "core_loc_hudson1959": (16, 16, 10.66, 9)}
SLOPE = dict(seabed_slope_perc=nonneg(0, 14))


def kd_graph(m, x, ys):
    y0, y1, y5, y10 = exact(m, ys)
    if x <= 1:
        return y1
    if x <= 5:
        return y1 + (x - 1) * (y5 - y1) / 4
    if x <= 10:
        return y5 + (x - 5) * (y10 - y5) / 5
    return y10


for _u, _ys in KDG.items():
    K = A + _u + ":"

    @conform(K + "calculate_KD_breaking_trunk_from_seabed_slope", "C10", ["seabed_slope_perc"], vars=SLOPE)
    def u_KD(m, seabed_slope_perc, _ys=_ys):
        return m.floor(kd_graph(m, seabed_slope_perc, _ys) * 10) / 10

    @lemma("%s: KD without breaking" % _u, "C10")
    def u_KD0(m, K=K, _ys=_ys):
        m.ensure_eq("KD", m.code(K + "calculate_KD_nonbreaking_trunk_from_seabed_slope")(), _ys[0])

    @checks(K + "check_validity_range", "C03", ["cot_alpha", "seabed_slope_perc", "cot_alpha seabed_slope_perc"])
    def u_cvr(m, got, cot_alpha=NAN_, seabed_slope_perc=NAN_):
        return [(cot_alpha, 1.33, 1.5), (seabed_slope_perc, 0, 10)]

    for _f, _x in (("calculate_unit_mass_M", "Hs"), ("calculate_significant_wave_height_Hs", "M")):
        @checks(K + _f, "C03", ["%s %s cot_alpha" % (_x, B), "%s %s" % (_x, B)], pre=heavier)
        def u_r(m, got, cot_alpha=1.33, **kw):
            return [(cot_alpha, 1.33, 1.5)]

    @checks(K + "calculate_KD_breaking_trunk_from_seabed_slope", "C03", ["seabed_slope_perc"], vars=SLOPE)
    def u_rKD(m, got, seabed_slope_perc):
        return [(seabed_slope_perc, 0, 10)]

    @lemma("%s: KD for breaking waves lies between the graph's limits and falls with the seabed slope" % _u, "C16", vars=dict(a=nonneg(0, 14), b=nonneg(0, 14)))
    def u_KDb(m, a, b, K=K, _ys=_ys):
        f = m.code(K + "calculate_KD_breaking_trunk_from_seabed_slope")
        m.ensure_le("at least the value of a steep seabed", _ys[3], f(seabed_slope_perc=a))
        m.ensure_le("at most the value without breaking", f(seabed_slope_perc=a), _ys[0])

# ------------------------------------------------------------------ cubes in a double layer, Van der Meer (1988)
C = A + "cubes_double_layer_vandermeer1988:"


def c2_Ns(m, Nod, N_waves, s0m):
    return (6.7 * Nod ** 0.4 / N_waves ** 0.3 + 1) * s0m ** -0.1


@conform(C + "calculate_nominal_diameter_Dn_vanDerMeer1988", "C10", ["Hs Tm rho_water rho_armour N_waves cot_alpha Nod"], pre=heavier, arr=False)
def c2_D(m, Hs, Tm, rho_water, rho_armour, N_waves, cot_alpha, Nod):
    return Hs / (buoyant(m, rho_armour, rho_water) * c2_Ns(m, Nod, N_waves, steepness(m, Hs, Tm)))


@conform(C + "calculate_wave_height_Hs_vanDerMeer1988", "C10", ["Dn s0m rho_water rho_armour N_waves cot_alpha Nod"], pre=heavier, arr=False)
def c2_H(m, Dn, s0m, rho_water, rho_armour, N_waves, cot_alpha, Nod):
    return c2_Ns(m, Nod, N_waves, s0m) * buoyant(m, rho_armour, rho_water) * Dn


@conform(C + "calculate_damage_Nod_vanDerMeer1988", "C10", ["Hs Dn s0m rho_water rho_armour N_waves cot_alpha"], pre=heavier, arr=False)
def c2_N(m, Hs, Dn, s0m, rho_water, rho_armour, N_waves, cot_alpha):
    x = Hs / (buoyant(m, rho_armour, rho_water) * Dn) * s0m ** 0.1 - 1
    return (x / 6.7 * N_waves ** 0.3) ** 2.5 if x > 0 else 0


def c2_ranges(m, Hs=NAN_, Tm=NAN_, rho_armour=NAN_, N_waves=NAN_, cot_alpha=NAN_):
    out = [(Hs, 0.01, 20), (N_waves, 0, 7500), (Tm, 0.5, 30), (rho_armour, 2000, 3100), (cot_alpha, 1.5, 1.5)]
    if given(m, Hs, Tm):
        out.append((steepness(m, Hs, Tm), 0.005, 0.07))
    return out


@checks(C + "check_validity_range", "C03", ["Hs", "Tm", "Hs Tm", "rho_armour", "N_waves", "cot_alpha", "Hs Tm rho_armour N_waves cot_alpha"])
def c2_cvr(m, got, **kw):
    return c2_ranges(m, **kw)


@checks(C + "calculate_nominal_diameter_Dn_vanDerMeer1988", "C03", ["Hs Tm rho_water rho_armour N_waves cot_alpha Nod"], pre=heavier)
def c2_rD(m, got, rho_water, Nod, **kw):
    return c2_ranges(m, **kw)


@checks(C + "calculate_wave_height_Hs_vanDerMeer1988", "C03", ["Dn s0m rho_water rho_armour N_waves cot_alpha Nod"], pre=heavier)
def c2_rH(m, got, Dn, s0m, rho_water, Nod, **kw):
    return c2_ranges(m, Hs=got, Tm=m.sqrt(2 * m.pi * got / (9.81 * s0m)), **kw)


@checks(C + "calculate_damage_Nod_vanDerMeer1988", "C03", ["Hs Dn s0m rho_water rho_armour N_waves cot_alpha"], pre=heavier)
def c2_rN(m, got, Hs, Dn, s0m, rho_water, **kw):
    return c2_ranges(m, Hs=Hs, Tm=m.sqrt(2 * m.pi * Hs / (9.81 * s0m)), **kw)


@lemma("round trip: double-layer cubes Nod -> Dn -> Nod, Nod -> Hs -> Nod, Dn -> Hs -> Dn", "C13", vars=_vmap("Hs Tm Dn rho_water rho_armour N_waves cot_alpha Nod".split(), None, C))
def c2_rt(m, Hs, Tm, Dn, rho_water, rho_armour, N_waves, cot_alpha, Nod):
    heavier(m, rho_armour, rho_water)
    kw = dict(rho_water=rho_water, rho_armour=rho_armour, N_waves=N_waves, cot_alpha=cot_alpha)
    s0m = steepness(m, Hs, Tm)
    D = m.code(C + "calculate_nominal_diameter_Dn_vanDerMeer1988")(Hs=Hs, Tm=Tm, Nod=Nod, **kw)
    m.ensure_eq("damage of that diameter", m.code(C + "calculate_damage_Nod_vanDerMeer1988")(Hs=Hs, Dn=D, s0m=s0m, **kw), Nod, tol=1e-7)
    m.ensure_eq("wave height of that diameter", m.code(C + "calculate_wave_height_Hs_vanDerMeer1988")(Dn=D, s0m=s0m, Nod=Nod, **kw), Hs, tol=1e-7)
    H = m.code(C + "calculate_wave_height_Hs_vanDerMeer1988")(Dn=Dn, s0m=s0m, Nod=Nod, **kw)
    m.ensure_eq("damage of that wave height", m.code(C + "calculate_damage_Nod_vanDerMeer1988")(Hs=H, Dn=Dn, s0m=s0m, **kw), Nod, tol=1e-7)


# ------------------------------------------------------------------ cubes in a single layer, Van Gent (2002)
S = A + "cubes_single_layer_vangent2002:"
for _w, _n in (("start_of_damage", 2.9), ("failure", 3.5)):
    @conform(S + "calculate_unit_mass_M_" + _w, "C10", ["Hs rho_water rho_armour", "Hs rho_water rho_armour Ns"], pre=heavier, arr=False)
    def c1_M(m, Hs, rho_water, rho_armour, Ns=_n):
        Ns, = exact(m, (Ns,))
        return rho_armour * (Hs / (buoyant(m, rho_armour, rho_water) * Ns)) ** 3

    @conform(S + "calculate_significant_wave_height_Hs_" + _w, "C10", ["M rho_water rho_armour", "M rho_water rho_armour Ns"], pre=heavier, arr=False)
    def c1_H(m, M, rho_water, rho_armour, Ns=_n):
        Ns, = exact(m, (Ns,))
        return Ns * buoyant(m, rho_armour, rho_water) * (M / rho_armour) ** m.q(1, 3)

    roundtrips("single-layer cubes " + _w, "C13", [("", S + "calculate_unit_mass_M_" + _w, "M", "Hs"), ("", S + "calculate_significant_wave_height_Hs_" + _w, "Hs", "M")],
               ["Hs rho_water rho_armour", "Hs rho_water rho_armour Ns"], pre=heavier)

# ------------------------------------------------------------------ Xbloc and XblocPlus
V_ = dict(V=pos(0.5, 15), total_correction_factor=pos(1, 2))
for _u, _n in (("xbloc", 2.77), ("xblocplus", 2.5)):
    K = A + _u + ":"

    def x_V(m, Hs, rho_water, rho_armour, total_correction_factor=1, _n=_n):
        n, = exact(m, (_n,))
        return total_correction_factor * (Hs / (n * buoyant(m, rho_armour, rho_water))) ** 3

    def x_H(m, V, rho_water, rho_armour, total_correction_factor=1, _n=_n):
        n, = exact(m, (_n,))
        return (V / total_correction_factor) ** m.q(1, 3) * n * buoyant(m, rho_armour, rho_water)

    _ms = ["{} rho_water rho_armour", "{} rho_water rho_armour total_correction_factor"]
    conform(K + "calculate_unit_volume_V", "C10", [x.format("Hs") for x in _ms], vars=V_, pre=heavier)(x_V)
    conform(K + "calculate_wave_height_Hs_from_V", "C10", [x.format("V") for x in _ms], vars=V_, pre=heavier)(x_H)

    @conform(K + "calculate_unit_mass_M", "C10", [x.format("Hs") for x in _ms], vars=V_, pre=heavier)
    def x_M(m, rho_armour, _f=x_V, **kw):
        return rho_armour * _f(m, rho_armour=rho_armour, **kw)

    @conform(K + "calculate_wave_height_Hs_from_M", "C10", [x.format("M") for x in _ms], vars=V_, pre=heavier)
    def x_HM(m, M, rho_armour, _f=x_H, **kw):
        return _f(m, V=M / rho_armour, rho_armour=rho_armour, **kw)

    for _x, _fm, _fh in (("M", "calculate_unit_mass_M", "calculate_wave_height_Hs_from_M"), ("V", "calculate_unit_volume_V", "calculate_wave_height_Hs_from_V")):
        roundtrips(_u, "C13", [("", K + _fm, _x, "Hs"), ("", K + _fh, "Hs", _x)], [x.format("Hs") for x in _ms], vars=V_, pre=heavier)
        roundtrips(_u, "C13", [("", K + _fh, "Hs", _x), ("", K + _fm, _x, "Hs")], [x.format(_x) for x in _ms], vars=V_, pre=heavier)

    @conform(K + "calculate_correctionfactor_unit_mass_M_by_cotalpha_seabed", "C10", ["cot_alpha"], vars=dict(cot_alpha=pos(5, 40)), arr=False)
    def x_seabed(m, cot_alpha):
        return 2 if cot_alpha <= 10 else 1.5 if cot_alpha <= 15 else 1.25 if cot_alpha <= 20 else 1.1 if cot_alpha <= 30 else 1

    @conform(K + "calculate_correctionfactor_unit_mass_M_by_percslope_seabed", "C10", ["perc_slope"], vars=dict(perc_slope=pos(1, 15)), arr=False)
    def x_perc(m, perc_slope):
        return x_seabed(m, 100 / perc_slope)

    _lo, _hi = (1.5, 2) if _u == "xbloc" else (1.25, 1.5)

    @conform(K + "calculate_correctionfactor_unit_mass_M_by_relative_freeboard", "C10", ["rel_freeboard"], arr=False)
    def x_fb(m, rel_freeboard, _lo=_lo, _hi=_hi):
        return _hi if rel_freeboard < 0.5 else _lo if rel_freeboard < 1 else 1

    @conform(K + "switch_correctionfactor_unit_mass_M_by_core_permeability", "C10", ["", "low_core_permeability=True", "core_impermeable=True", "low_core_permeability=True core_impermeable=True",
                                                                                  "low_core_permeability=False core_impermeable=False"], arr=False)
    def x_perm(m, low_core_permeability=False, core_impermeable=False, _lo=_lo, _hi=_hi):
        return _hi if core_impermeable else _lo if low_core_permeability else 1

K = A + "xbloc:"


@conform(K + "calculate_correctionfactor_unit_mass_M_by_rel_depth", "C10", ["rel_depth"], vars=dict(rel_depth=pos(0.5, 5)), arr=False)
def x_depth(m, rel_depth):
    return 2 if rel_depth > 3.5 else 1.5 if rel_depth > 2.5 else 1


@conform(K + "switch_correction_factor_unit_mass_M_near_design_event_frequency", "C10", ["", "design_event_occurs_frequently=True", "design_event_occurs_frequently=False"], arr=False)
def x_freq(m, design_event_occurs_frequently=False):
    return 1.25 if design_event_occurs_frequently else 1


@conform(K + "calculate_correctionfactor_unit_mass_M_by_structure_slope", "C10", ["cot_alpha"], vars=dict(cot_alpha=pos(0.1, 3)), arr=False)
def x_slope(m, cot_alpha):
    return 1.25 if cot_alpha > m.q(2, 3) else 1.5 if cot_alpha > 0.5 else 1
