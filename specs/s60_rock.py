"""Stability of rock armour slopes -- C09 formulas, C03 ranges, C13 round trips, C14 iterations, C15 alternatives."""
from engine.core import INLINE, lemma, conform, checks, pos, real, nonneg, rng, Var, rn, parse_mode, _vmap, _consts
from specs_common import steepness, iribarren, given, buoyant
from specs_s20_runup import NAN_, exact

A = "structural.stability_rock_armour."
H = A + "hudson1959:"
VM = A + "vandermeer1988:"
MO = A + "vandermeer1988_modified:"
V21 = A + "vandermeer2021:"
SC = A + "scaravaglione2025:"
ET = A + "etemadshahidi2020:"
JU = A + "jumelet2024:"
KB = A + "kramerburcharth2004_lowcrested:"


def diameter(m, Dn50=NAN_, M50=NAN_, rho=NAN_):
    """the given nominal diameter, or the one of the given mass"""
    if not m.isnan(Dn50):
        return Dn50
    return (M50 / (2650 if m.isnan(rho) else rho)) ** m.q(1, 3)


def heavier(m, rho_armour=None, rho_water=1025, **kw):
    """rock is heavier than water"""
    if rho_armour is not None:
        m.assume(rho_armour > rho_water)


def roundtrips(name, props, links, modes, vars=None, pre=None, tol=1e-7, **opts):
    """links: list of (label, function, produced input, consumed input):  each function computes `produced`
    from `consumed`; the pair of links is run in a circle"""
    for mode in modes:
        vs, cs = parse_mode(mode)
        (l1, f1, p1, c1), (l2, f2, p2, c2) = links

        def h(m, __cs=cs, **kw):
            args = dict(kw, **_consts(m, __cs))
            if pre:
                pre(m, **args)
            a1 = {k: v for k, v in args.items() if k != p1}
            y = m.code(f1)(**rn(a1))
            m.representable(y)
            a2 = {k: v for k, v in args.items() if k != p2}
            a2[p1] = y
            m.ensure_eq("%s -> %s -> %s" % (p2, p1, p2), m.code(f2)(**rn(a2)), args[p2], tol=tol)
        lemma("round trip: %s %s -> %s -> %s [%s]" % (name, p2, p1, p2, mode), props, vars=_vmap(vs, vars, name), **opts)(h)


# ------------------------------------------------------------------ Hudson (1959)
def h_factor(m, damage_percentage, rock_type="rough"):
    t = rock_type.lower().strip()
    for top, r, s in ((5, 1, 1), (10, 1.08, 1.08), (15, 1.14, 1.19), (20, 1.2, 1.27), (30, 1.29, 1.37), (40, 1.41, 1.47)):
        if damage_percentage < top:
            return r if t == "rough" else s
    return 1.54 if t == "rough" else 1.56


conform(H + "lookup_table_damage_factors", "C09", ["damage_percentage", "damage_percentage rock_type='smooth'", "damage_percentage rock_type='rough'",
                                                   "damage_percentage rock_type='SMOOTH'"], scalar=("damage_percentage",))(h_factor)


@conform(H + "calculate_median_rock_mass_M50_no_damage", "C09", ["Hs rho_water rho_armour KD cot_alpha", "Hs rho_water rho_armour KD cot_alpha alpha_Hs"], pre=heavier)
def h_M0(m, Hs, rho_water, rho_armour, KD, cot_alpha, alpha_Hs=1.27):
    return rho_armour * (alpha_Hs * Hs) ** 3 / (KD * buoyant(m, rho_armour, rho_water) ** 3 * cot_alpha)


@conform(H + "calculate_significant_wave_height_Hs_no_damage", "C09", ["M50 rho_water rho_armour KD cot_alpha", "M50 rho_water rho_armour KD cot_alpha alpha_Hs"], pre=heavier)
def h_H0(m, M50, rho_water, rho_armour, KD, cot_alpha, alpha_Hs=1.27):
    return buoyant(m, rho_armour, rho_water) / alpha_Hs * (KD * cot_alpha * M50 / rho_armour) ** m.q(1, 3)


HM = ["{} rho_water rho_armour KD cot_alpha damage_percentage", "{} rho_water rho_armour KD cot_alpha damage_percentage alpha_Hs",
      "{} rho_water rho_armour KD cot_alpha damage_percentage rock_type='smooth'"]


@conform(H + "calculate_median_rock_mass_M50", "C09", [x.format("Hs") for x in HM], pre=heavier, scalar=("damage_percentage",))
def h_M(m, damage_percentage, rock_type="rough", **kw):
    return h_M0(m, **kw) / h_factor(m, damage_percentage, rock_type) ** 3


@conform(H + "calculate_significant_wave_height_Hs", "C09", [x.format("M50") for x in HM], pre=heavier, scalar=("damage_percentage",))
def h_H(m, damage_percentage, rock_type="rough", **kw):
    return h_H0(m, **kw) * h_factor(m, damage_percentage, rock_type)


roundtrips("Hudson", "C13", [("", H + "calculate_median_rock_mass_M50", "M50", "Hs"), ("", H + "calculate_significant_wave_height_Hs", "Hs", "M50")],
           [x.format("Hs") for x in HM], pre=heavier)
roundtrips("Hudson, no damage", "C13", [("", H + "calculate_median_rock_mass_M50_no_damage", "M50", "Hs"), ("", H + "calculate_significant_wave_height_Hs_no_damage", "Hs", "M50")],
           ["Hs rho_water rho_armour KD cot_alpha alpha_Hs"], pre=heavier)


@lemma("Hudson: unknown rock types are refused", "C15", vars=dict(damage_percentage=rng(0, 100)))
def h_refuse(m, damage_percentage):
    m.ensure("type", m.expect(ValueError, m.code(H + "lookup_table_damage_factors"), damage_percentage=damage_percentage, rock_type="round"))


# ------------------------------------------------------------------ Van der Meer (1988) and its modifications
GN = VM + "calculate_correction_term_gamma_N"
GN_OPQ = {GN: (1, True)}
INLINE.add(GN)


@conform(GN, "C09 C13", ["N_waves"])
def gamma_N(m, N_waves):
    if N_waves < 1000:
        return m.sqrt(1000 / N_waves)
    if N_waves > 5000:
        return m.sqrt(N_waves / 5000) / (1.3 * (1 - m.exp(-0.00031 * N_waves)))
    return 1


@lemma("Van der Meer (1988): the correction term for the number of waves is positive", "C09 C13 C16", vars=dict(N_waves=pos(300, 9000)))
def gn_pos(m, N_waves):
    m.ensure("positive", m.code(GN)(N_waves=N_waves) > 0)


def ksi_crit(m, c_pl, c_s, P, cot_alpha):
    c_pl, c_s = exact(m, (c_pl, c_s))
    return (c_pl / c_s * P ** 0.31 * m.sqrt(1 / cot_alpha)) ** (1 / (P + 0.5))


def vdm_S(m, Hs, H2p, T, N_waves, cot_alpha, P, Delta, Dn50, c_pl, c_s, gN):
    ksi = iribarren(m, Hs, T, cot_alpha)
    Ns = H2p / (Delta * Dn50)
    if ksi < ksi_crit(m, c_pl, c_s, P, cot_alpha) or cot_alpha >= 4:
        x = Ns / (c_pl * P ** 0.18) * m.sqrt(ksi)
    else:
        x = Ns / (c_s * P ** -0.13 * m.sqrt(cot_alpha) * ksi ** P)
    return x ** 5 * m.sqrt(N_waves) / gN


def vdm_D(m, Hs, H2p, T, N_waves, cot_alpha, P, Delta, S, c_pl, c_s, gN):
    ksi = iribarren(m, Hs, T, cot_alpha)
    s = (gN * S / m.sqrt(N_waves)) ** 0.2
    if ksi < ksi_crit(m, c_pl, c_s, P, cot_alpha) or cot_alpha >= 4:
        return H2p / Delta / (c_pl * P ** 0.18 * s) * m.sqrt(ksi)
    return H2p / Delta / (c_s * P ** -0.13 * s * m.sqrt(cot_alpha) * ksi ** P)


def vdm_H(m, ratio, T, N_waves, cot_alpha, P, Delta, S, Dn50, c_pl, c_s, gN, g):
    s = (gN * S / m.sqrt(N_waves)) ** 0.2
    s0 = 2 * m.pi / (g * T ** 2)
    mc = ksi_crit(m, c_pl, c_s, P, cot_alpha)
    pl = (c_pl * P ** 0.18 * s * m.sqrt(cot_alpha) * s0 ** 0.25 * Delta * Dn50 / ratio) ** m.q(4, 3)
    su = (c_s * P ** -0.13 * s * m.sqrt(cot_alpha) * (cot_alpha * m.sqrt(s0)) ** (-P) * Delta * Dn50 / ratio) ** (1 / (1 + P / 2))
    if cot_alpha >= 4 or (iribarren(m, pl, T, cot_alpha) < mc and iribarren(m, su, T, cot_alpha) < mc):
        return pl
    return su


def vmode(*extra):
    return [" ".join(x) for x in extra]


S88 = "Hs H2p {T} N_waves cot_alpha P rho_armour"
for K, _T, _c, _OPQ in ((VM, "Tm", (8.7, 1.4), GN_OPQ), (MO, "Tmm10", (8.4, 1.3), None)):
    def _gN(m, N_waves, K=K):
        return m.code(GN)(N_waves=N_waves) if K == VM else 1

    base = "N_waves cot_alpha P rho_armour"

    @conform(K + "calculate_damage_number_S", "C09", ["Hs H2p %s %s Dn50" % (_T, base), "Hs H2p %s %s M50" % (_T, base), "Hs H2p %s %s Dn50 M50" % (_T, base),
                                                      "Hs H2p %s %s Dn50 c_pl c_s rho_water" % (_T, base)], pre=heavier, opaque=_OPQ, scalar=("Dn50", "M50"))
    def vm_S(m, Hs, H2p, N_waves, cot_alpha, P, rho_armour, Tm=None, Tmm10=None, Dn50=NAN_, M50=NAN_, c_pl=_c[0], c_s=_c[1], rho_water=1025, _gN=_gN):
        return vdm_S(m, Hs, H2p, Tm if Tmm10 is None else Tmm10, N_waves, cot_alpha, P, buoyant(m, rho_armour, rho_water), diameter(m, Dn50, M50, rho_armour), c_pl, c_s, _gN(m, N_waves))

    @conform(K + "calculate_nominal_rock_diameter_Dn50", "C09", ["Hs H2p %s %s S" % (_T, base), "Hs H2p %s %s S c_pl c_s rho_water" % (_T, base)], pre=heavier, opaque=_OPQ)
    def vm_D(m, Hs, H2p, N_waves, cot_alpha, P, rho_armour, S, Tm=None, Tmm10=None, c_pl=_c[0], c_s=_c[1], rho_water=1025, _gN=_gN):
        return vdm_D(m, Hs, H2p, Tm if Tmm10 is None else Tmm10, N_waves, cot_alpha, P, buoyant(m, rho_armour, rho_water), S, c_pl, c_s, _gN(m, N_waves))

    @conform(K + "calculate_significant_wave_height_Hs", "C09", ["ratio_H2p_Hs %s %s S Dn50" % (_T, base), "ratio_H2p_Hs %s %s S M50" % (_T, base),
                                                                 "ratio_H2p_Hs %s %s S Dn50 c_pl c_s g rho_water" % (_T, base)], pre=heavier, opaque=_OPQ, scalar=("Dn50", "M50"))
    def vm_H(m, ratio_H2p_Hs, N_waves, cot_alpha, P, rho_armour, S, Tm=None, Tmm10=None, Dn50=NAN_, M50=NAN_, c_pl=_c[0], c_s=_c[1], g=9.81, rho_water=1025, _gN=_gN):
        return vdm_H(m, ratio_H2p_Hs, Tm if Tmm10 is None else Tmm10, N_waves, cot_alpha, P, buoyant(m, rho_armour, rho_water), S, diameter(m, Dn50, M50, rho_armour),
                     c_pl, c_s, _gN(m, N_waves), g)

    roundtrips(K[len(A):-1], "C13", [("", K + "calculate_nominal_rock_diameter_Dn50", "Dn50", "S"), ("", K + "calculate_damage_number_S", "S", "Dn50")],
               ["Hs H2p %s %s S" % (_T, base), "Hs H2p %s %s S c_pl c_s rho_water" % (_T, base)], pre=heavier, opaque=_OPQ)

    for _extra in (" Dn50", " M50", " Dn50 c_pl c_s rho_water"):
        @lemma("round trip: %s S -> Hs -> S [%s]" % (K[len(A):-1], _extra), "C13", opaque=_OPQ,
               vars=_vmap(("ratio_H2p_Hs %s %s S" % (_T, base) + _extra).split(), None, K))
        def vm_rt(m, ratio_H2p_Hs, S, K=K, **kw):
            heavier(m, **kw)
            Hs = m.code(K + "calculate_significant_wave_height_Hs")(ratio_H2p_Hs=ratio_H2p_Hs, S=S, **kw)
            m.ensure_eq("S recovered", m.code(K + "calculate_damage_number_S")(Hs=Hs, H2p=ratio_H2p_Hs * Hs, **kw), S, tol=1e-7)


def vm_ranges(m, Hs=NAN_, H2p=NAN_, Tp=NAN_, N_waves=NAN_, cot_alpha=NAN_, P=NAN_, rho_armour=NAN_):
    out = [(P, 0.1, 0.6), (cot_alpha, 1.1, 7), (N_waves, 0, 7500), (rho_armour, 2000, 3100)]
    if given(m, Hs, Tp):
        out.append((steepness(m, Hs, Tp), 0.005, 0.06))
    if given(m, Hs, H2p):
        out.append((H2p / Hs, 1.1, 1.4))
    return out


def mo_ranges(m, Hs=NAN_, H2p=NAN_, Tmm10=NAN_, N_waves=NAN_, cot_alpha=NAN_, P=NAN_, Dn50=NAN_, rho_armour=NAN_, rho_water=1025):
    out = [(P, 0.1, 0.6), (cot_alpha, 2, 4), (N_waves, 0, 3000)]
    if given(m, Hs, Dn50, rho_armour):
        out.append((Hs / (buoyant(m, rho_armour, rho_water) * Dn50), 0.5, 4.5))
    if given(m, Hs, Tmm10, cot_alpha):
        out.append((iribarren(m, Hs, Tmm10, cot_alpha), 1.3, 15))
    if given(m, Hs, H2p):
        out.append((H2p / Hs, 1.2, 1.4))
    return out


@checks(VM + "check_validity_range", "C03", ["Hs Tp", "Hs H2p", "N_waves", "cot_alpha", "P", "rho_armour", "Hs H2p Tp N_waves cot_alpha P rho_armour"])
def vm_cvr(m, got, **kw):
    return vm_ranges(m, **kw)


@checks(MO + "check_validity_range", "C03", ["Hs Dn50 rho_armour", "Hs Tmm10 cot_alpha", "Hs H2p", "N_waves", "cot_alpha", "P", "Hs H2p Tmm10 N_waves cot_alpha P Dn50 rho_armour rho_water"], pre=heavier)
def mo_cvr(m, got, **kw):
    return mo_ranges(m, **kw)


def pick(kw, names):
    return {k: v for k, v in kw.items() if k in names.split()}


CVM = "Hs H2p N_waves cot_alpha P rho_armour"
CMO = "Hs H2p Tmm10 N_waves cot_alpha P Dn50 rho_armour rho_water"


@checks(VM + "calculate_damage_number_S", "C03", ["Hs H2p Tm N_waves cot_alpha P rho_armour Dn50"], pre=heavier, opaque=GN_OPQ)
def vm_rS(m, got, **kw):
    return vm_ranges(m, **pick(kw, CVM))


@checks(VM + "calculate_nominal_rock_diameter_Dn50", "C03", ["Hs H2p Tm N_waves cot_alpha P rho_armour S"], pre=heavier, opaque=GN_OPQ)
def vm_rD(m, got, **kw):
    return vm_ranges(m, **pick(kw, CVM))


@checks(VM + "calculate_significant_wave_height_Hs", "C03", ["ratio_H2p_Hs Tm N_waves cot_alpha P rho_armour S Dn50"], pre=heavier, opaque=GN_OPQ)
def vm_rH(m, got, **kw):
    return vm_ranges(m, Hs=got, **pick(kw, CVM))


@checks(MO + "calculate_damage_number_S", "C03", ["Hs H2p Tmm10 N_waves cot_alpha P rho_armour Dn50 rho_water", "Hs H2p Tmm10 N_waves cot_alpha P rho_armour M50"], pre=heavier)
def mo_rS(m, got, Dn50=NAN_, M50=NAN_, **kw):
    return mo_ranges(m, Dn50=diameter(m, Dn50, M50, kw["rho_armour"]), **pick(kw, CMO))


@checks(MO + "calculate_nominal_rock_diameter_Dn50", "C03", ["Hs H2p Tmm10 N_waves cot_alpha P rho_armour S rho_water"], pre=heavier)
def mo_rD(m, got, **kw):
    return mo_ranges(m, Dn50=got, **pick(kw, CMO))


@checks(MO + "calculate_significant_wave_height_Hs", "C03", ["ratio_H2p_Hs Tmm10 N_waves cot_alpha P rho_armour S Dn50 rho_water"], pre=heavier)
def mo_rH(m, got, **kw):
    return mo_ranges(m, Hs=got, **pick(kw, CMO))


# ------------------------------------------------------------------ Van der Meer (2021)
B21 = "Tmm10 N_waves cot_alpha P rho_armour"
M21 = ["", " c_pl c_s c_pl_mult c_s_mult"]
X21 = dict(c_pl_mult=pos(0.8, 1.2), c_s_mult=pos(0.8, 1.2))


@conform(V21 + "calculate_damage_number_S", "C09", ["Hs %s %s%s" % (B21, d, e) for d in ("Dn50", "M50") for e in M21], vars=X21, pre=heavier, scalar=("Dn50", "M50"))
def v21_S(m, Hs, Tmm10, N_waves, cot_alpha, P, rho_armour, Dn50=NAN_, M50=NAN_, c_pl=6.49, c_s=0.97, c_pl_mult=1, c_s_mult=1):
    return vdm_S(m, Hs, Hs, Tmm10, N_waves, cot_alpha, P, buoyant(m, rho_armour, 1025), diameter(m, Dn50, M50, rho_armour), c_pl * c_pl_mult, c_s * c_s_mult, 1)


@conform(V21 + "calculate_nominal_rock_diameter_Dn50", "C09", ["Hs %s S%s" % (B21, e) for e in M21], vars=X21, pre=heavier)
def v21_D(m, Hs, Tmm10, N_waves, cot_alpha, P, rho_armour, S, c_pl=6.49, c_s=0.97, c_pl_mult=1, c_s_mult=1):
    return vdm_D(m, Hs, Hs, Tmm10, N_waves, cot_alpha, P, buoyant(m, rho_armour, 1025), S, c_pl * c_pl_mult, c_s * c_s_mult, 1)


@conform(V21 + "calculate_significant_wave_height_Hs", "C09", ["%s S %s%s" % (B21, d, e) for d in ("Dn50", "M50") for e in M21 + [" g"]], vars=X21, pre=heavier, scalar=("Dn50", "M50"))
def v21_H(m, Tmm10, N_waves, cot_alpha, P, rho_armour, S, Dn50=NAN_, M50=NAN_, c_pl=6.49, c_s=0.97, c_pl_mult=1, c_s_mult=1, g=9.81):
    return vdm_H(m, 1, Tmm10, N_waves, cot_alpha, P, buoyant(m, rho_armour, 1025), S, diameter(m, Dn50, M50, rho_armour), c_pl * c_pl_mult, c_s * c_s_mult, 1, g)


for _f, _m in (("calculate_damage_number_S", "Hs %s Dn50" % B21), ("calculate_nominal_rock_diameter_Dn50", "Hs %s S" % B21), ("calculate_significant_wave_height_Hs", "%s S Dn50" % B21)):
    @checks(V21 + _f, "C03", [_m], pre=heavier, subset=True)
    def v21_r(m, got, Hs=None, **kw):
        return vm_ranges(m, Hs=got if Hs is None else Hs, **pick(kw, "N_waves cot_alpha P rho_armour"))

roundtrips("vandermeer2021", "C13", [("", V21 + "calculate_nominal_rock_diameter_Dn50", "Dn50", "S"), ("", V21 + "calculate_damage_number_S", "S", "Dn50")],
           ["Hs %s S%s" % (B21, e) for e in M21], vars=X21, pre=heavier)
roundtrips("vandermeer2021", "C13", [("", V21 + "calculate_significant_wave_height_Hs", "Hs", "S"), ("", V21 + "calculate_damage_number_S", "S", "Hs")],
           ["%s S Dn50%s" % (B21, e) for e in M21] + ["%s S M50" % B21], vars=X21, pre=heavier)


# ------------------------------------------------------------------ Scaravaglione et al. (2025)
BS = "Tmm10 N_waves cot_alpha rho_armour rho_core"


@conform(SC + "calculate_damage_number_S", "C09", ["Hm0 %s Dn50 Dn50_core" % BS, "Hm0 %s M50 M50_core" % BS, "Hm0 %s Dn50 Dn50_core c_VGnew rho_water" % BS], pre=heavier,
         scalar=("Dn50", "M50", "Dn50_core", "M50_core"))
def sc_S(m, Hm0, Tmm10, N_waves, cot_alpha, rho_armour, rho_core, Dn50=NAN_, Dn50_core=NAN_, M50=NAN_, M50_core=NAN_, c_VGnew=3.3, rho_water=1025):
    D, C = diameter(m, Dn50, M50, rho_armour), diameter(m, Dn50_core, M50_core, rho_core)
    return (Hm0 / (buoyant(m, rho_armour, rho_water) * D) / (c_VGnew * m.sqrt(cot_alpha) * (1 + C / D) * steepness(m, Hm0, Tmm10) ** 0.1)) ** 5 * m.sqrt(N_waves)


@conform(SC + "calculate_nominal_rock_diameter_Dn50", "C09", ["Hm0 %s S Dn50_core" % BS, "Hm0 %s S M50_core" % BS, "Hm0 %s S Dn50_core c_VGnew rho_water" % BS], pre=heavier,
         scalar=("Dn50_core", "M50_core"))
def sc_D(m, Hm0, Tmm10, N_waves, cot_alpha, rho_armour, rho_core, S, Dn50_core=NAN_, M50_core=NAN_, c_VGnew=3.3, rho_water=1025):
    C = diameter(m, Dn50_core, M50_core, rho_core)
    return Hm0 / buoyant(m, rho_armour, rho_water) / (c_VGnew * (S / m.sqrt(N_waves)) ** 0.2 * m.sqrt(cot_alpha) * steepness(m, Hm0, Tmm10) ** 0.1) - C


@conform(SC + "calculate_significant_wave_height_Hm0", "C09", ["%s S Dn50 Dn50_core" % BS, "%s S M50 M50_core" % BS, "%s S Dn50 Dn50_core c_VGnew g rho_water" % BS], pre=heavier,
         scalar=("Dn50", "M50", "Dn50_core", "M50_core"))
def sc_H(m, Tmm10, N_waves, cot_alpha, rho_armour, rho_core, S, Dn50=NAN_, Dn50_core=NAN_, M50=NAN_, M50_core=NAN_, c_VGnew=3.3, g=9.81, rho_water=1025):
    D, C = diameter(m, Dn50, M50, rho_armour), diameter(m, Dn50_core, M50_core, rho_core)
    return (buoyant(m, rho_armour, rho_water) * (D + C) * c_VGnew * m.sqrt(cot_alpha) * (2 * m.pi / (g * Tmm10 ** 2)) ** 0.1 * (S / m.sqrt(N_waves)) ** 0.2) ** m.q(10, 9)


def sc_ranges(m, Hm0=NAN_, Tmm10=NAN_, N_waves=NAN_, cot_alpha=NAN_, P=NAN_, Dn50=NAN_, Dn50_core=NAN_, rho_armour=NAN_, rho_water=1025):
    out = [(P, 0.37, 0.55), (cot_alpha, 2, 2), (N_waves, 652, 4064)]
    if given(m, Hm0, Dn50):
        out.append((Hm0 / (buoyant(m, rho_armour, rho_water) * Dn50), 1.47, 3.44))
    if given(m, Hm0, Tmm10):
        out.append((steepness(m, Hm0, Tmm10), 0.02, 0.049))
        if given(m, cot_alpha):
            out.append((iribarren(m, Hm0, Tmm10, cot_alpha), 1.3, 15))
    if given(m, Dn50, Dn50_core):
        out.append((Dn50_core / Dn50, 0.21, 0.71))
    return out


@checks(SC + "check_validity_range", "C03", ["Hm0 Dn50 rho_armour", "Hm0 Tmm10", "Hm0 Tmm10 cot_alpha", "N_waves", "P", "Dn50 Dn50_core",
                                             "Hm0 Tmm10 N_waves cot_alpha P Dn50 Dn50_core rho_armour rho_water"], pre=heavier)
def sc_cvr(m, got, **kw):
    return sc_ranges(m, **kw)


CSC = "Hm0 Tmm10 N_waves cot_alpha Dn50 Dn50_core rho_armour rho_water"
for _f, _m, _o in (("calculate_damage_number_S", "Hm0 %s Dn50 Dn50_core rho_water" % BS, None), ("calculate_nominal_rock_diameter_Dn50", "Hm0 %s S Dn50_core rho_water" % BS, "Dn50"),
                   ("calculate_significant_wave_height_Hm0", "%s S Dn50 Dn50_core rho_water" % BS, "Hm0")):
    def sc_pre(m, _o=_o, **kw):
        heavier(m, **kw)
        if _o == "Dn50":
            m.assume(sc_D(m, **kw) > 0)

    @checks(SC + _f, "C03", [_m], pre=sc_pre)
    def sc_r(m, got, _o=_o, **kw):
        if _o:
            kw[_o] = got
        return sc_ranges(m, **pick(kw, CSC))


def sc_rtpre(m, **kw):
    heavier(m, **kw)
    if "Hm0" in kw:
        a = {k: v for k, v in kw.items() if k != "Dn50"}
        m.assume(sc_D(m, **a) > 0)


roundtrips("scaravaglione2025", "C13", [("", SC + "calculate_nominal_rock_diameter_Dn50", "Dn50", "S"), ("", SC + "calculate_damage_number_S", "S", "Dn50")],
           ["Hm0 %s S Dn50_core" % BS, "Hm0 %s S M50_core" % BS, "Hm0 %s S Dn50_core c_VGnew rho_water" % BS], pre=sc_rtpre)
roundtrips("scaravaglione2025", "C13", [("", SC + "calculate_significant_wave_height_Hm0", "Hm0", "S"), ("", SC + "calculate_damage_number_S", "S", "Hm0")],
           ["%s S Dn50 Dn50_core" % BS, "%s S Dn50 M50_core" % BS, "%s S M50 Dn50_core" % BS, "%s S Dn50 Dn50_core c_VGnew rho_water" % BS], pre=heavier)



# ------------------------------------------------------------------ Etemad-Shahidi et al. (2020)
CP = ET + "calculate_permeability_coefficient_Cp"
CP_OPQ = {CP: (1, True)}
INLINE.add(CP)
BE = "Tmm10 N_waves cot_alpha rho_armour"
EX = dict(m__=rng(0, "0.3", 0, 0.1))


@conform(CP, "C09 C13 C14", ["Dn50 Dn50_core"])
def et_cp(m, Dn50, Dn50_core):
    return (1 + (Dn50_core / Dn50) ** 0.3) ** 0.6


@lemma("Etemad-Shahidi: the permeability coefficient is positive", "C09 C13 C14", vars=dict(Dn50=pos(0.1, 3), Dn50_core=nonneg(0, 1)))
def cp_pos(m, Dn50, Dn50_core):
    m.ensure("positive", m.code(CP)(Dn50=Dn50, Dn50_core=Dn50_core) > 0)


def et_lim(m, m__, use):
    return 1 - 3 * m__ if use else 1


DL = " m__ use_depth_limited_version=True"


@conform(ET + "calculate_damage_number_S", "C09", ["Hs %s Dn50 Dn50_core" % BE, "Hs %s M50 M50_core rho_core" % BE, "Hs %s M50 Dn50_core rho_water" % BE,
                                                   "Hs %s Dn50 Dn50_core m__" % BE, "Hs %s Dn50 Dn50_core" % BE + DL], vars=EX,
         pre=heavier, opaque=CP_OPQ, scalar=("Dn50", "M50", "Dn50_core", "M50_core"))
def et_S(m, Hs, Tmm10, N_waves, cot_alpha, rho_armour, Dn50=NAN_, M50=NAN_, Dn50_core=NAN_, M50_core=NAN_, rho_core=NAN_, rho_water=1025, m__=NAN_, use_depth_limited_version=False):
    D, C = diameter(m, Dn50, M50, rho_armour), diameter(m, Dn50_core, M50_core, rho_core)
    ksi = iribarren(m, Hs, Tmm10, cot_alpha)
    x = Hs / (buoyant(m, rho_armour, rho_water) * D) / (m.code(CP)(Dn50=D, Dn50_core=C) * et_lim(m, m__, use_depth_limited_version))
    return N_waves ** 0.6 * ((x / 3.9) ** 6 * ksi ** 2 if ksi >= 1.8 else (x / 4.5) ** 6 * ksi ** 3.5)


@conform(ET + "calculate_significant_wave_height_Hs", "C09", ["S %s Dn50 Dn50_core" % BE, "S %s M50 M50_core rho_core" % BE, "S %s M50 Dn50_core" % BE,
                                                              "S %s Dn50 Dn50_core m__ g" % BE, "S %s Dn50 Dn50_core" % BE + DL], vars=EX,
         pre=heavier, opaque=CP_OPQ, scalar=("Dn50", "M50", "Dn50_core", "M50_core"))
def et_H(m, Tmm10, N_waves, cot_alpha, rho_armour, S, Dn50=NAN_, M50=NAN_, Dn50_core=NAN_, M50_core=NAN_, rho_core=NAN_, m__=NAN_, use_depth_limited_version=False, g=9.81, branch=None):
    D, C = diameter(m, Dn50, M50, rho_armour), diameter(m, Dn50_core, M50_core, rho_core)
    N = buoyant(m, rho_armour, 1025) * D * m.code(CP)(Dn50=D, Dn50_core=C) * N_waves ** -0.1 * et_lim(m, m__, use_depth_limited_version)
    k = 2 * m.pi / g / Tmm10 ** 2 * cot_alpha ** 2
    su = (S * (3.9 * N) ** 6 * k) ** 0.2
    pl = (S * (4.5 * N) ** 6 * k ** 1.75) ** m.q(4, 17)
    if branch:
        return iribarren(m, pl, Tmm10, cot_alpha) < 1.8 or iribarren(m, su, Tmm10, cot_alpha) >= 1.8
    return pl if iribarren(m, pl, Tmm10, cot_alpha) < 1.8 and iribarren(m, su, Tmm10, cot_alpha) < 1.8 else su


def et_ranges(m, Hs=NAN_, Tmm10=NAN_, N_waves=NAN_, cot_alpha=NAN_, P=NAN_, S=NAN_, Dn50=NAN_, Dn50_core=NAN_, rho_armour=NAN_, rho_water=1025):
    out = [(cot_alpha, 1.5, 6), (N_waves, 500, 5000), (P, 0.1, 0.6), (S, 2, 12)]
    if given(m, Hs, Tmm10):
        out.append((steepness(m, Hs, Tmm10), 0.003, 0.088))
        if given(m, cot_alpha):
            out.append((iribarren(m, Hs, Tmm10, cot_alpha), 0.65, 8.18))
    if given(m, rho_armour):
        out.append((buoyant(m, rho_armour, rho_water), 0.92, 2.05))
        if given(m, Hs, Dn50):
            out.append((Hs / (buoyant(m, rho_armour, rho_water) * Dn50), 1, 4.3))
    if given(m, Dn50, Dn50_core):
        out.append((Dn50_core / Dn50, 0, 1))
    return out


@checks(ET + "check_validity_range", "C03", ["Hs Tmm10", "Hs Tmm10 cot_alpha", "N_waves", "P", "S", "rho_armour", "Dn50 Dn50_core", "Hs Dn50 rho_armour",
                                             "Hs Tmm10 N_waves cot_alpha P S Dn50 Dn50_core rho_armour rho_water"], pre=heavier)
def et_cvr(m, got, **kw):
    return et_ranges(m, **kw)


CET = "Hs Tmm10 N_waves cot_alpha S Dn50 Dn50_core rho_armour rho_water"


@checks(ET + "calculate_damage_number_S", "C03", ["Hs %s Dn50 Dn50_core rho_water" % BE, "Hs %s M50 M50_core rho_core" % BE], pre=heavier, opaque=CP_OPQ)
def et_rS(m, got, Dn50=NAN_, M50=NAN_, Dn50_core=NAN_, M50_core=NAN_, rho_core=NAN_, **kw):
    return et_ranges(m, S=got, Dn50=diameter(m, Dn50, M50, kw["rho_armour"]), Dn50_core=diameter(m, Dn50_core, M50_core, rho_core), **pick(kw, CET))


@checks(ET + "calculate_nominal_rock_diameter_Dn50", "C03", ["Hs %s S M50_core rho_core" % BE], pre=heavier, opaque=CP_OPQ)
def et_rD(m, got, Dn50_core=NAN_, M50_core=NAN_, rho_core=NAN_, **kw):
    return et_ranges(m, Dn50=got, Dn50_core=diameter(m, Dn50_core, M50_core, rho_core), **pick(kw, CET))


@checks(ET + "calculate_significant_wave_height_Hs", "C03", ["S %s Dn50 Dn50_core" % BE, "S %s M50 M50_core rho_core" % BE], pre=heavier, opaque=CP_OPQ)
def et_rH(m, got, Dn50=NAN_, M50=NAN_, Dn50_core=NAN_, M50_core=NAN_, rho_core=NAN_, **kw):
    return et_ranges(m, Hs=got, Dn50=diameter(m, Dn50, M50, kw["rho_armour"]), Dn50_core=diameter(m, Dn50_core, M50_core, rho_core), **pick(kw, CET))


for _e, _sz in (("", "Dn50 Dn50_core"), ("0.02", "Dn50 Dn50_core"), ("0.1", "Dn50 Dn50_core"), ("", "M50 M50_core rho_core")):
    @lemma("round trip: etemadshahidi2020 S -> Hs -> S [%s %s]" % (_e, _sz), "C13", vars=_vmap(("S %s %s" % (BE, _sz)).split(), EX, ET), opaque=CP_OPQ)
    def et_rt(m, S, _e=_e, **kw):
        heavier(m, **kw)
        if _e:
            kw["use_depth_limited_version"] = True
            kw["m__"] = m.const(_e)
        Hs = m.code(ET + "calculate_significant_wave_height_Hs")(S=S, **rn(kw))
        # the published formula jumps by 2 % at the transition: no wave height gives an S inside the jump
        m.assume(et_H(m, S=S, branch=True, **kw))
        m.ensure_eq("S recovered", m.code(ET + "calculate_damage_number_S")(Hs=Hs, **rn(kw)), S, tol=1e-7)


@lemma("Etemad-Shahidi: the depth-limited version needs the foreshore slope", "C15", vars=_vmap(("Hs S %s Dn50 Dn50_core" % BE).split(), None, ET))
def et_refuse(m, Hs, S, Dn50, **kw):
    for f, a in (("calculate_damage_number_S", dict(Hs=Hs, Dn50=Dn50)), ("calculate_nominal_rock_diameter_Dn50", dict(Hs=Hs, S=S)), ("calculate_significant_wave_height_Hs", dict(S=S, Dn50=Dn50))):
        m.ensure(f, m.expect(ValueError, m.code(ET + f), use_depth_limited_version=True, **a, **kw))


def et_step(m, D, Hs, Tmm10, N_waves, cot_alpha, rho_armour, S, Dn50_core, lim, Cp=None):
    if Cp is None:
        Cp = m.code(CP)(Dn50=D, Dn50_core=Dn50_core)
    ksi = iribarren(m, Hs, Tmm10, cot_alpha)
    c = Hs / buoyant(m, rho_armour, 1025) / Cp * N_waves ** 0.1 * S ** m.q(-1, 6) / lim
    return c / 3.9 * ksi ** m.q(1, 3) if ksi >= 1.8 else c / 4.5 * ksi ** m.q(7, 12)


TOL = pos(1e-7, 1e-3)
for _mode, _br in [(a, b) for a in ("Dn50_core tolerance Cp_init max_iter=4", "M50_core rho_core m__=0.02 use_depth_limited_version=True") for b in ("surging", "plunging")]:
    _v, _c = parse_mode("Hs %s S " % BE + _mode)

    @lemma("iteration: etemadshahidi2020 rock diameter [%s, %s]" % (_mode, _br), "C14 C09", weight=9, vars=_vmap(_v, dict(EX, Cp_init=pos(0.3, 2), tolerance=TOL), ET), opaque=CP_OPQ)
    def et_it(m, _c=_c, _br=_br, tolerance=1e-5, Dn50_core=NAN_, M50_core=NAN_, rho_core=NAN_, m__=NAN_, Cp_init=0.5, **kw):
        heavier(m, **kw)
        ksi = iribarren(m, kw["Hs"], kw["Tmm10"], kw["cot_alpha"])
        m.assume(ksi >= 1.8 if _br == "surging" else ksi < 1.8)
        args = dict(kw, **_consts(m, _c))
        m__ = args.pop("m__", m__)
        for k, v in (("tolerance", tolerance), ("Dn50_core", Dn50_core), ("M50_core", M50_core), ("rho_core", rho_core), ("m__", m__), ("Cp_init", Cp_init)):
            if not (v is NAN_ or m.isnan(v)):
                args[k] = v
        n = args.get("max_iter", 1000)
        C = diameter(m, Dn50_core, M50_core, rho_core)
        lim = et_lim(m, m__, "use_depth_limited_version" in args)
        m.clear_loops()
        D = m.code(ET + "calculate_nominal_rock_diameter_Dn50")(**rn(args))

        def step(x, Cp=None):
            return et_step(m, x, Dn50_core=C, lim=lim, Cp=Cp, **kw)
        m.converged("diameter", D, lambda: step(None, Cp_init), step, tolerance, n)


# ------------------------------------------------------------------ Jumelet et al. (2024)
FP = JU + "calculate_fraction_plunging_waves_Fp"


@conform(FP, "C09 C14", ["ksi_mm10"])
def ju_fp(m, ksi_mm10):
    return -1.7 * ksi_mm10 ** 2 + 3.2 * ksi_mm10 - 0.5


def ju_N(m, N_waves, ksi):
    N = m.round(ju_fp(m, ksi) * N_waves)
    m.assume(N > 0)
    return N


def ju_pre(m, Hs=None, Tmm10=None, cot_alpha=None, N_waves=None, rho_armour=None, rho_water=1025, **kw):
    """rock heavier than water and at least one plunging wave"""
    m.assume(rho_armour > rho_water)
    if Hs is not None:
        ju_N(m, N_waves, iribarren(m, Hs, Tmm10, cot_alpha))


@conform(JU + "calculate_damage_number_S", "C09", ["Hs %s Dn50" % BE, "Hs %s M50" % BE, "Hs %s Dn50 c_pl rho_water" % BE], pre=ju_pre, scalar=("Dn50", "M50"))
def ju_S(m, Hs, Tmm10, N_waves, cot_alpha, rho_armour, Dn50=NAN_, M50=NAN_, c_pl=4.3, rho_water=1025):
    ksi = iribarren(m, Hs, Tmm10, cot_alpha)
    return (Hs / (buoyant(m, rho_armour, rho_water) * diameter(m, Dn50, M50, rho_armour)) * ksi / c_pl) ** 5 * m.sqrt(ju_N(m, N_waves, ksi))


@conform(JU + "calculate_nominal_rock_diameter_Dn50", "C09", ["Hs %s S" % BE, "Hs %s S c_pl" % BE], pre=ju_pre)
def ju_D(m, Hs, Tmm10, N_waves, cot_alpha, rho_armour, S, c_pl=4.3):
    ksi = iribarren(m, Hs, Tmm10, cot_alpha)
    return Hs / buoyant(m, rho_armour, 1025) * ksi * ju_N(m, N_waves, ksi) ** 0.1 / c_pl / S ** 0.2


roundtrips("jumelet2024", "C13", [("", JU + "calculate_nominal_rock_diameter_Dn50", "Dn50", "S"), ("", JU + "calculate_damage_number_S", "S", "Dn50")],
           ["Hs %s S" % BE, "Hs %s S c_pl" % BE], pre=ju_pre)


def ju_ranges(m, Hs=NAN_, Tmm10=NAN_, N_waves=NAN_, cot_alpha=NAN_):
    out = [(cot_alpha, 6, 10), (N_waves, 250, 20000)]
    if given(m, Hs, Tmm10):
        out.append((steepness(m, Hs, Tmm10), 0.009, 0.057))
        if given(m, cot_alpha):
            out.append((iribarren(m, Hs, Tmm10, cot_alpha), 0.42, 1.66))
    return out


@checks(JU + "check_validity_range", "C03", ["Hs Tmm10", "Hs Tmm10 cot_alpha", "N_waves", "cot_alpha", "Hs Tmm10 N_waves cot_alpha"])
def ju_cvr(m, got, **kw):
    return ju_ranges(m, **kw)


for _f, _m in (("calculate_damage_number_S", "Hs %s Dn50" % BE), ("calculate_nominal_rock_diameter_Dn50", "Hs %s S" % BE)):
    @checks(JU + _f, "C03", [_m], pre=ju_pre)
    def ju_r(m, got, **kw):
        return ju_ranges(m, **pick(kw, "Hs Tmm10 N_waves cot_alpha"))


@checks(JU + "calculate_significant_wave_height_Hs", "C03", ["S %s Dn50" % BE], pre=ju_pre)
def ju_rH(m, got, **kw):
    return ju_ranges(m, Hs=got, **pick(kw, "Tmm10 N_waves cot_alpha"))


for _mode in ("Dn50", "M50 c_pl", "Dn50 g smm10_init tolerance max_iter=4"):
    _v, _c = parse_mode("S %s " % BE + _mode)

    @lemma("iteration: jumelet2024 wave height [%s]" % _mode, "C14 C09", vars=_vmap(_v, dict(tolerance=TOL), JU))
    def ju_it(m, _c=_c, Dn50=NAN_, M50=NAN_, c_pl=4.3, g=9.81, smm10_init=0.03, tolerance=1e-3, **kw):
        heavier(m, **kw)
        args = dict(kw, **_consts(m, _c))
        for k, v in (("tolerance", tolerance), ("Dn50", Dn50), ("M50", M50), ("c_pl", c_pl), ("g", g), ("smm10_init", smm10_init)):
            if not m.isnan(v):
                args[k] = v
        n = args.get("max_iter", 1000)
        D = diameter(m, Dn50, M50, kw["rho_armour"])
        m.clear_loops()
        Hs = m.code(JU + "calculate_significant_wave_height_Hs")(**args)
        T, cot = kw["Tmm10"], kw["cot_alpha"]
        x0 = smm10_init * T ** 2 * g / (2 * m.pi)

        def step(x):
            N = ju_N(m, kw["N_waves"], iribarren(m, x, T, cot))
            return (c_pl * kw["S"] ** 0.2 * N ** -0.1 * cot * m.sqrt(2 * m.pi / g) / T * buoyant(m, kw["rho_armour"], 1025) * D) ** 2
        m.converged("wave height", Hs, lambda: step(x0), step, tolerance, n, x0=x0)


# ------------------------------------------------------------------ Kramer & Burcharth (2004), low-crested
RC_ = dict(Rc=real(-3, 2))


@conform(KB + "calculate_significant_wave_height_Hs", "C09", ["Rc rho_armour Dn50", "Rc rho_armour M50"], vars=RC_, pre=heavier, scalar=("Dn50", "M50"))
def kb_H(m, Rc, rho_armour, Dn50=NAN_, M50=NAN_):
    D = diameter(m, Dn50, M50, rho_armour)
    return (0.06 * (Rc / D) ** 2 - 0.23 * Rc / D + 1.36) * buoyant(m, rho_armour, 1025) * D


def kb_ranges(m, Rc=NAN_, Dn50=NAN_):
    return [(Rc / Dn50, -3.1, 1.5)] if given(m, Rc, Dn50) else []


@checks(KB + "check_validity_range", "C03", ["Rc Dn50"], vars=RC_)
def kb_cvr(m, got, **kw):
    return kb_ranges(m, **kw)


@checks(KB + "calculate_significant_wave_height_Hs", "C03", ["Rc rho_armour Dn50", "Rc rho_armour M50"], vars=RC_, pre=heavier)
def kb_r(m, got, Rc, rho_armour, Dn50=NAN_, M50=NAN_):
    return kb_ranges(m, Rc, diameter(m, Dn50, M50, rho_armour))


@checks(KB + "calculate_nominal_rock_diameter_Dn50", "C03", ["Hs Rc rho_armour"], vars=RC_, pre=heavier)
def kb_rD(m, got, Rc, **kw):
    return kb_ranges(m, Rc, got)


@checks(KB + "calculate_crest_freeboard_Rc", "C03", ["Hs rho_armour Dn50", "Hs rho_armour M50"], vars=RC_, pre=heavier)
def kb_rR(m, got, rho_armour, Hs, Dn50=NAN_, M50=NAN_):
    return kb_ranges(m, got, diameter(m, Dn50, M50, rho_armour))


for _mode in ("", "Ns_init tolerance max_iter=4", "tolerance"):
    _v, _c = parse_mode("Hs Rc rho_armour " + _mode)

    @lemma("iteration: kramerburcharth2004 rock diameter [%s]" % _mode, "C14 C09", vars=_vmap(_v, dict(RC_, tolerance=TOL, Ns_init=pos(1, 4)), KB))
    def kb_it(m, Hs, Rc, rho_armour, _c=_c, Ns_init=2, tolerance=1e-5, **kw):
        heavier(m, rho_armour)
        n = _consts(m, _c).get("max_iter", 1000)
        Delta = buoyant(m, rho_armour, 1025)
        m.clear_loops()
        D = m.code(KB + "calculate_nominal_rock_diameter_Dn50")(Hs=Hs, Rc=Rc, rho_armour=rho_armour, Ns_init=Ns_init, tolerance=tolerance, max_iter=n)

        def step(x):
            return (Hs / Delta - Rc * (0.06 * Rc / x - 0.23)) / 1.36
        m.converged("diameter", D, lambda: step(Hs / (Delta * Ns_init)), step, tolerance, n)

for _mode in ("Dn50", "M50 tolerance", "Dn50 Rc_Dn50_init tolerance max_iter=4"):
    _v, _c = parse_mode("Hs rho_armour " + _mode)

    @lemma("iteration: kramerburcharth2004 crest freeboard [%s]" % _mode, "C14 C09", vars=_vmap(_v, dict(tolerance=TOL, Rc_Dn50_init=real(-2, 1)), KB))
    def kb_it2(m, Hs, rho_armour, _c=_c, Dn50=NAN_, M50=NAN_, Rc_Dn50_init=-1, tolerance=1e-5):
        heavier(m, rho_armour)
        n = _consts(m, _c).get("max_iter", 1000)
        Delta, D = buoyant(m, rho_armour, 1025), diameter(m, Dn50, M50, rho_armour)
        m.clear_loops()
        a = dict(Dn50=Dn50) if not m.isnan(Dn50) else dict(M50=M50)
        Rc = m.code(KB + "calculate_crest_freeboard_Rc")(Hs=Hs, rho_armour=rho_armour, Rc_Dn50_init=Rc_Dn50_init, tolerance=tolerance, max_iter=n, **a)

        def step(x):
            return (Hs / Delta - 1.36 * D) / (0.06 * x / D - 0.23)
        m.converged("crest freeboard", Rc, lambda: step(Rc_Dn50_init * D), step, tolerance, n)
