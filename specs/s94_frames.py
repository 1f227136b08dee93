"""Frames (C19) of the iterative functions: the input arrays are not modified and nothing is kept for a later call.
(The functions with a conformance contract get theirs in engine/core.py.)"""
from engine.core import frames, pos, real
from specs_s60_rock import ET, JU, KB, BE, EX, RC_, heavier, ju_pre, CP_OPQ
from specs_s80_rear_toe import V7, VP, E1, TK, V7V, VPV, EC, EB, B7, BP, TV, HB_OPQ, e1_pre
from specs_s20_runup import ITER, T, IT_OPQ

TOL = pos(1e-6, 1e-3)

frames(ET + "calculate_nominal_rock_diameter_Dn50", ["Hs %s S Dn50_core" % BE],
       vars=dict(EX, tolerance=TOL, Cp_init=pos(0.3, 2)), pre=heavier, scalar=("tolerance",), opaque=CP_OPQ, scalars=False)
frames(JU + "calculate_significant_wave_height_Hs", ["S %s Dn50" % BE, "S %s M50" % BE, "S %s Dn50 c_pl g smm10_init tolerance" % BE], vars=dict(tolerance=TOL), pre=heavier, scalar=("tolerance",))
frames(KB + "calculate_nominal_rock_diameter_Dn50", ["Hs Rc rho_armour", "Hs Rc rho_armour Ns_init tolerance"], vars=dict(RC_, tolerance=TOL, Ns_init=pos(1, 4)), pre=heavier, scalar=("tolerance",))
frames(KB + "calculate_crest_freeboard_Rc", ["Hs rho_armour Dn50", "Hs rho_armour M50", "Hs rho_armour Dn50 Rc_Dn50_init tolerance"], vars=dict(tolerance=TOL, Rc_Dn50_init=real(-2, 1)), pre=heavier, scalar=("tolerance",))


def _above(m, Rc, Rc2_rear, **kw):
    m.assume(Rc > Rc2_rear)


frames(V7 + "calculate_maximum_significant_wave_height_Hs", ["S %s Dn50" % B7, "S %s M50 rho_rock" % B7], vars=V7V, pre=_above, opaque=HB_OPQ)
frames(VP + "calculate_maximum_significant_wave_height_Hs", ["S %s Dn50" % BP, "S %s M50" % BP], vars=VPV, pre=heavier, opaque=HB_OPQ)
frames(E1 + "calculate_significant_wave_height_Hs", ["Nod Dn50 %s" % EB], vars=EC, pre=e1_pre, scalars=False)
frames(ITER, ["Hm0 Tmm10 cot_alpha_down cot_alpha_up B_berm db gamma_f gamma_beta"], vars={}, scalar=tuple("Hm0 Tmm10 cot_alpha_down cot_alpha_up B_berm db gamma_f gamma_beta".split()), opaque=IT_OPQ)
