"""Core physics (C21) and the validity-range primitive (C01)."""
from engine.core import lemma, conform, pos, real, nonneg, Var
from specs_common import steepness, iribarren, buoyant

P = "core_physics:"


@conform(P + "calculate_wave_steepness_s", "C21", ["H T", "H T g"])
def s(m, H, T, g=9.81):
    return 2 * m.pi * H / (g * T ** 2)


@conform(P + "calculate_Iribarren_number_ksi", "C21", ["H T cot_alpha"])
def ksi(m, H, T, cot_alpha):
    return 1 / (cot_alpha * m.sqrt(2 * m.pi * H / (9.81 * T ** 2)))


@conform(P + "calculate_critical_Iribarren_number_ksi_mc", "C21", ["c_pl c_s P cot_alpha"])
def ksi_mc(m, c_pl, c_s, P, cot_alpha):
    return (c_pl / c_s * P ** 0.31 * m.sqrt(1 / cot_alpha)) ** (1 / (P + 0.5))


@conform(P + "calculate_stability_number_Ns", "C21", ["H D rho_rock rho_water"])
def Ns(m, H, D, rho_rock, rho_water):
    return H / (buoyant(m, rho_rock, rho_water) * D)


@conform(P + "calculate_buoyant_density_Delta", "C21", ["rho_rock rho_water"])
def Delta(m, rho_rock, rho_water):
    return buoyant(m, rho_rock, rho_water)


@conform(P + "calculate_M50_from_Dn50", "C21", ["Dn50", "Dn50 rho_rock"])
def M50(m, Dn50, rho_rock=2650):
    return rho_rock * Dn50 ** 3


@conform(P + "calculate_Dn50_from_M50", "C21", ["M50", "M50 rho_rock"])
def Dn50(m, M50, rho_rock=2650):
    return (M50 / rho_rock) ** m.q(1, 3)


@lemma("M50 and Dn50 conversions are mutually inverse", "C21 C13", vars=dict(Dn50=pos(0.1, 3), M50=pos(10, 30000), rho_rock=pos(2000, 3200)))
def inv_M(m, Dn50, M50, rho_rock):
    toM = m.code(P + "calculate_M50_from_Dn50")
    toD = m.code(P + "calculate_Dn50_from_M50")
    m.ensure_eq("Dn50 -> M50 -> Dn50", toD(toM(Dn50, rho_rock), rho_rock), Dn50)
    m.ensure_eq("M50 -> Dn50 -> M50", toM(toD(M50, rho_rock=rho_rock), rho_rock=rho_rock), M50)
    m.ensure_eq("default density", toD(toM(Dn50)), Dn50)


@conform(P + "calculate_S_from_Nod", "C21", ["Nod G nv"])
def S_Nod(m, Nod, G, nv):
    return Nod / (G * (1 - nv))


@conform(P + "calculate_Nod_from_S", "C21", ["S G nv"])
def Nod_S(m, S, G, nv):
    return S * G * (1 - nv)


@lemma("S and Nod conversions are mutually inverse", "C21 C13", vars=dict(S=pos(0.1, 30), G=pos(0.5, 4), nv=Var(0.2, 0.6, ("0", False, "1", True))))
def inv_S(m, S, G, nv):
    m.ensure_eq("S -> Nod -> S", m.code(P + "calculate_S_from_Nod")(m.code(P + "calculate_Nod_from_S")(S, G, nv), G, nv), S)
    m.ensure_eq("Nod -> S -> Nod", m.code(P + "calculate_Nod_from_S")(m.code(P + "calculate_S_from_Nod")(S, G=G, nv=nv), G=G, nv=nv), S)


@lemma("nominal diameter or mass: whichever is given is used", "C15 C21", vars=dict(Dn50=pos(0.1, 3), M50=pos(10, 30000), rho_rock=pos(2000, 3200)))
def use_D_M(m, Dn50, M50, rho_rock):
    f = m.code(P + "check_usage_Dn50_or_M50")
    m.ensure_eq("diameter given", f(Dn50, m.nan, rho_rock), Dn50)
    m.ensure_eq("diameter given, no density", f(Dn50, m.nan, m.nan), Dn50)
    m.ensure_eq("diameter takes precedence", f(Dn50, M50, rho_rock), Dn50)
    m.clear_events()
    m.ensure_eq("mass given", f(m.nan, M50, rho_rock), (M50 / rho_rock) ** m.q(1, 3))
    m.ensure("no warning when the density is given", m.warned() == 0)
    m.ensure_eq("mass given, default density", f(m.nan, M50, m.nan), (M50 / 2650) ** m.q(1, 3))
    m.ensure("the default density is announced", m.warned() >= 1)
    m.ensure("neither given is refused", m.expect(ValueError, f, m.nan, m.nan, rho_rock))


@lemma("stability number: the missing one of four is solved for", "C15 C21", vars=dict(Hs=pos(0.5, 6), Dn=pos(0.2, 3), Delta=pos(0.8, 2.2), Ns=pos(0.5, 12)))
def solve_Ns(m, Hs, Dn, Delta, Ns):
    f = m.code(P + "check_usage_stabilitynumber")
    m.ensure_eq("Hs", f(Dn=Dn, Delta=Delta, Ns=Ns), (Ns * Delta * Dn, "Hs"))
    m.ensure_eq("Dn", f(Hs=Hs, Delta=Delta, Ns=Ns), (Hs / (Ns * Delta), "Dn"))
    m.ensure_eq("Delta", f(Hs=Hs, Dn=Dn, Ns=Ns), (Hs / (Ns * Dn), "Delta"))
    m.ensure_eq("Ns", f(Hs=Hs, Dn=Dn, Delta=Delta), (Hs / (Delta * Dn), "Ns"))
    m.ensure("nothing missing is refused", m.expect(ValueError, f, Hs=Hs, Dn=Dn, Delta=Delta, Ns=Ns))
    m.ensure("two missing is refused (1)", m.expect(ValueError, f, Hs=Hs, Dn=Dn))
    m.ensure("two missing is refused (2)", m.expect(ValueError, f, Hs=Hs, Ns=Ns))
    m.ensure("two missing is refused (3)", m.expect(ValueError, f, Delta=Delta, Ns=Ns))
    m.ensure("three missing is refused", m.expect(ValueError, f, Hs=Hs))


@lemma("local wavelength solves the dispersion relation at the given depth", "C21", vars=dict(T=pos(3, 15), h=pos(1, 30), g=pos(1.6, 12)))
def wavelength(m, T, h, g):
    f = m.code(P + "calculate_local_wavelength")
    m.ensure_eq("scalar", f(T, h, g), 2 * m.pi / m.disper_k(2 * m.pi / T, h, g))
    m.ensure_eq("default g", f(T, h), 2 * m.pi / m.disper_k(2 * m.pi / T, h, 9.81))


for _names in ("T", "h", "T h", "g", "T h g"):
    @lemma("local wavelength of arrays [%s]" % _names, "C18 C19", vars=dict(T=pos(3, 15), h=pos(1, 30), g=pos(1.6, 12)), target=P + "calculate_local_wavelength")
    def wavelength_arr(m, T, h, g, _names=_names):
        m.elementwise(P + "calculate_local_wavelength", _names.split(), dict(T=T, h=h, g=g))
        m.pure(P + "calculate_local_wavelength", _names.split(), dict(T=T, h=h, g=g))


# ------------------------------------------------------------------ C01
U = "core_utility:check_variable_validity_range"


def _ok(m, v, lo, hi):
    return bool(v >= lo) and bool(v <= hi)


@lemma("range check of a number warns exactly when outside the closed range", "C01", vars=dict(v=real(-5, 5), lo=real(-3, 3), hi=real(-3, 3)), real_check=True)
def rc_scalar(m, v, lo, hi):
    m.assume(lo <= hi)
    m.clear_events()
    r = m.code(U)("name", "formula", v, lo, hi)
    ok = _ok(m, v, lo, hi)
    m.ensure_eq("returned flags", m.aslist(r), [ok])
    m.ensure("one warning exactly when outside", m.nwarn() == (0 if ok else 1))


@lemma("range check with an unbounded side", "C01", vars=dict(v=real(-5, 5), lo=real(-3, 3)), real_check=True)
def rc_inf(m, v, lo):
    m.clear_events()
    r = m.code(U)("name", "formula", v, lo, m.inf)
    ok = bool(v >= lo)
    m.ensure_eq("returned flags", m.aslist(r), [ok])
    m.ensure("one warning exactly when outside", m.nwarn() == (0 if ok else 1))
    m.clear_events()
    r = m.code(U)("name", "formula", v, -m.inf, lo)
    ok = bool(v <= lo)
    m.ensure_eq("returned flags, upper bound", m.aslist(r), [ok])
    m.ensure("one warning exactly when above", m.nwarn() == (0 if ok else 1))


@lemma("range check of a list flags each value on its own", "C01", vars=dict(a=real(-5, 5), b=real(-5, 5), c=real(-5, 5), lo=real(-3, 3), hi=real(-3, 3)), real_check=True)
def rc_list(m, a, b, c, lo, hi):
    m.assume(lo <= hi)
    want = [_ok(m, x, lo, hi) for x in (a, b, c)]
    bad = len([x for x in want if not x])
    for kind, xs in (("list", [a, b, c]), ("array", m.asarray([a, b, c])), ("tuple", (a, b, c))):
        m.clear_events()
        r = m.code(U)("name", "formula", xs, lo, hi)
        m.ensure_eq("flags of a " + kind, m.aslist(r), want)
        m.ensure("one warning per value outside, " + kind, m.nwarn() == bad)


@lemma("range check of an array of any length: generic element", "C01", vars=dict(a=real(-5, 5), lo=real(-3, 3), hi=real(-3, 3)), real_check=True)
def rc_any(m, a, lo, hi):
    m.assume(lo <= hi)
    m.clear_events()
    r = m.code(U)("name", "formula", m.array(a), lo, hi)
    ok = _ok(m, a, lo, hi)
    m.ensure_eq("flag of the generic element", m.elem(r), ok)
    m.ensure("warning of the generic element", m.nwarn() == (0 if ok else 1))


@lemma("range check of numpy scalars, integers and booleans", "C01", vars=dict(v=Var(-6, 6, ("-6", False, "6", False), kind="int", sample=None)), real_check=True)
def rc_int(m, v):
    m.clear_events()
    r = m.code(U)("name", "formula", v, -2, 3)
    ok = _ok(m, v, -2, 3)
    m.ensure_eq("returned flags", m.aslist(r), [ok])
    m.ensure("one warning exactly when outside", m.nwarn() == (0 if ok else 1))
    if not m.symbolic:
        import numpy as np
        for t in (np.int32, np.int64, np.float32, np.float64):
            m.clear_events()
            r = m.code0(U)("name", "formula", t(v), -2, 3)
            m.ensure_eq("returned flags of " + t.__name__, m.aslist(r), [ok])
            m.ensure("one warning exactly when outside, " + t.__name__, m.nwarn() == (0 if ok else 1))
        r = m.code0(U)("name", "formula", np.array(float(v)), -2, 3)
        m.ensure_eq("returned flags of a 0-d array", m.aslist(r), [ok])
