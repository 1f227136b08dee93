"""Domains of the inputs by parameter name, and formula pieces shared by the contracts.
A domain gives the mathematical range every obligation is proved for (first arguments of
pos/nonneg/real/rng) and the interval concrete points are drawn from."""
from engine.core import domain, pos, nonneg, real, rng, Var

# waves and water levels
domain("Hm0 Hs H Hsi HD Hm0_deep Hs_i0", pos(0.5, 6.0))
domain("Hm0_HF Hm0_LF H2p", pos(0.2, 5.0))
domain("Hm0_swell", pos(0.1, 2.0))
domain("Tmm10 Tm Tp T Tmax Tpi Tmm10_HF", pos(3.0, 15.0))
domain("smm10 s0p s0m smm10_HF offshore_wave_steepness smm10_init smm10_lim", pos(0.004, 0.07))
domain("ksi_mm10 ksi_0p", pos(0.4, 14.0))
domain("h h_s d hacc ht", pos(1.0, 20.0))
domain("g", pos(1.6, 12.0))
domain("beta beta_1", real(0.0, 90.0))
domain("theta", real(0.0, 80.0))
domain("N_waves", pos(300.0, 9000.0))
domain("sigma", pos(0.2, 2.0))
domain("q", pos(1e-6, 0.05))
domain("q_diml", pos(1e-7, 0.05))
# structure
domain("Rc", pos(0.1, 8.0))
domain("Ac", pos(0.3, 6.0))
domain("cot_alpha cot_alpha_down cot_alpha_up cot_alpha_average cot_phi cot_alpha_armour_slope", pos(1.2, 7.0))
domain("m_foreshore_slope m m__", pos(0.005, 0.12))
domain("B_berm", pos(1.0, 12.0))
domain("db", real(-3.0, 4.0))
domain("L_berm", pos(5.0, 60.0))
domain("B B1 BL Bc Bt Bup Bwall Gc B_element hc tt tup Hwall", pos(0.5, 15.0))
domain("Fb", pos(0.1, 1.5))
domain("gamma_f gamma_f_Crest gamma gamma_v gamma_p gamma_star gamma_beta gamma_f_down gamma_f_up", rng(0, 1, 0.3, 1.0, ls=True))
domain("gamma_b", rng(0, 1, 0.4, 1.0, ls=True))
domain("P", rng(0, 1, 0.1, 0.6, ls=True))
domain("z2p z1p zXp", pos(0.5, 12.0))
domain("L", pos(10.0, 150.0))
domain("alpha_wall_deg", real(0.0, 100.0))
domain("cota_seabed", pos(8.0, 120.0))
# armour
domain("Dn50 Dn D", pos(0.2, 2.5))
domain("Dn50_core", pos(0.05, 0.6))
domain("M50 M", pos(50.0, 30000.0))
domain("M50_core", pos(1.0, 800.0))
domain("rho_rock rho_armour rho_core", pos(2100.0, 3200.0))
domain("rho_water", pos(990.0, 1060.0))
domain("rho_fill_above_SWL rho_fill_below_SWL", pos(1700.0, 2800.0))
domain("Delta", pos(0.9, 2.1))
domain("S", pos(1.0, 30.0))
domain("Nod", pos(0.05, 4.0))
domain("Ns", pos(0.5, 12.0))
domain("KD", pos(2.0, 28.0))
domain("alpha_Hs", pos(1.0, 1.5))
domain("ratio_H2p_Hs", pos(1.0, 1.5))
domain("damage_percentage", rng(0, 100))
domain("nv", rng(0, 1, 0.3, 0.6, hs=True))
domain("G", pos(0.5, 4.0))
domain("seabed_slope_perc perc_slope", nonneg(0.0, 15.0))
domain("muf tup_over_Bup", rng(0, 1, 0.3, 0.9, ls=True))
domain("c0 c1 c2 c3 c4 c5 c6 c7 C1 c c_pl c_s c_VGnew cFH cFV cFb cs", pos(0.1, 5.0))
domain("Hsi_over_h rel_depth", pos(0.1, 1.5))
domain("Rc_over_Hsi rel_freeboard", real(-2.0, 2.5))
domain("tolerance", pos(1e-6, 1e-2))


# ------------------------------------------------------------------ shared formula pieces
def absval(m, x):
    return x if x >= 0 else -x


def steepness(m, H, T, g=9.81):
    return 2 * m.pi * H / (g * T ** 2)


def iribarren(m, H, T, cot_alpha):
    return 1 / (cot_alpha * m.sqrt(steepness(m, H, T)))


def buoyant(m, rho_rock, rho_water):
    return rho_rock / rho_water - 1


def given(m, *xs):
    """none of the arguments is left out (NaN)"""
    return not any(m.isnan(x) for x in xs)
