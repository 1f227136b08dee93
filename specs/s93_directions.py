"""Physical directions (C16): how a result moves when one input grows and everything else stays, generated from the table
below for every function with a conformance contract.  An input x grows to x*k (k >= 1) or to x + d (d >= 0)."""
import re
from engine.core import CONFORM, lemma, parse_mode, _vmap, _consts, rn, rng, nonneg
from engine.core import LEMMAS

# (function pattern, input, +1 grows / -1 falls, how the input grows)
TABLE = [
    (r"overtopping.*discharge_q", "Rc", -1, "+"), (r"crest_freeboard", "q", -1, "*"), (r"q_diml", "Rc", -1, "+"),
    (r"runup_height_z", "Hs", 1, "*"), 
    (r"damage_number_S", "Hs", 1, "*"), (r"damage_number_S", "Dn50", -1, "*"), (r"damage_number_S", "N_waves", 1, "*"),
    (r"(nominal_rock_diameter_Dn50|nominal_diameter_Dn)", "Hs", 1, "*"), (r"(nominal_rock_diameter_Dn50|nominal_diameter_Dn)", "S", -1, "*"),
    (r"significant_wave_height_H", "S", 1, "*"), (r"significant_wave_height_H", "Dn50", 1, "*"), (r"significant_wave_height_H", "M50", 1, "*"),
    (r"stability_number|_Ns", "Nod", 1, "*"), (r"nominal_diameter_Dn|nominal_rock_diameter_Dn50", "Nod", -1, "*"), (r"damage.*Nod", "Hs", 1, "*"), (r"damage.*Nod", "Dn50", -1, "*"),
    (r"unit_mass_M|rock_mass_M50", "Hs", 1, "*"), (r"unit_mass_M|rock_mass_M50", "KD", -1, "*"),
    (r"wave_steepness|steepness", "H", 1, "*"), (r"steepness", "T", -1, "*"), (r"Iribarren", "cot_alpha", -1, "*"), (r"M50_from_Dn50", "Dn50", 1, "*"), (r"Dn50_from_M50", "M50", 1, "*"),
    (r"FH2p|FV2p|calculate_FH|calculate_FV", "z2p", 1, "*"), (r"FH2p|FV2p|calculate_FH|calculate_FV", "Ac", -1, "*"), (r"velocity|calculate_u", "z2p", 1, "*"),
    (r"Kt", "Rc", -1, "+"), (r"gamma_beta", "beta", -1, "+"),
]
# directions the back ends do not settle (or that the published formula does not have): left out, see DESIGN.md
DROP = {(f, x) for f, xs in {
    "hydraulic.wave_overtopping.eurotop2018:calculate_crest_freeboard_Rc": "q",
    "hydraulic.wave_overtopping.eurotop2018:calculate_crest_freeboard_Rc_rubble_mound": "q",
    "hydraulic.wave_overtopping.eurotop2018:calculate_dimensionless_crest_freeboard": "q",
    "hydraulic.wave_overtopping.eurotop2018:calculate_dimensionless_crest_freeboard_rubble_mound": "q",
    "hydraulic.wave_overtopping.eurotop2018:calculate_dimensionless_overtopping_discharge_q": "Rc",
    "hydraulic.wave_overtopping.eurotop2018:calculate_dimensionless_overtopping_discharge_q_rubble_mound": "Rc",
    "hydraulic.wave_overtopping.eurotop2018:calculate_overtopping_discharge_q": "Rc",
    "hydraulic.wave_overtopping.eurotop2018:calculate_overtopping_discharge_q_rubble_mound": "Rc",
    "hydraulic.wave_overtopping.eurotop2018:q_diml_max_equation": "Rc",
    "hydraulic.wave_overtopping.taw2002:calculate_crest_freeboard_Rc": "q",
    "hydraulic.wave_overtopping.taw2002:calculate_dimensionless_crest_freeboard": "q",
    "hydraulic.wave_overtopping.taw2002:calculate_dimensionless_overtopping_discharge_q": "Rc",
    "hydraulic.wave_overtopping.taw2002:calculate_overtopping_discharge_q": "Rc",
    "hydraulic.wave_overtopping.vangent2021_caisson:calculate_influence_oblique_waves_gamma_beta": "beta",
    "hydraulic.wave_overtopping.vangent2025:calculate_influence_oblique_waves_gamma_beta": "beta",
    "hydraulic.wave_overtopping.vangent2025:q_diml_max_equation": "Rc",
    "hydraulic.wave_runup.vangent2001:calculate_wave_runup_height_z10p": "Hs",
    "hydraulic.wave_runup.vangent2001:calculate_wave_runup_height_z1p": "Hs",
    "hydraulic.wave_runup.vangent2001:calculate_wave_runup_height_z2p": "Hs",
    "hydraulic.wave_transmission.goda1967_caisson:calculate_wave_transmission_Kt": "Rc",
    "structural.forces_crestwall.vangentvanderwerf2019:calculate_FH2p_oblique": "Ac",
    "structural.forces_crestwall.vangentvanderwerf2019:calculate_FV2p_oblique": "Ac",
    "structural.forces_crestwall.vangentvanderwerf2019:calculate_FV2p_perpendicular": "Ac",
    "structural.forces_crestwall.vangentvanderwerf2019:calculate_FV2p_perpendicular_from_z2p": "Ac z2p",
    "structural.forces_crestwall.vangentvanderwerf2019:calculate_influence_oblique_waves_gamma_beta": "beta",
    "structural.stability_concrete_armour.cubes_double_layer_vandermeer1988:calculate_damage_Nod_vanDerMeer1988": "Hs",
    "structural.stability_rock_armour.etemadshahidi2020:calculate_damage_number_S": "Dn50",
    "structural.stability_rock_armour.etemadshahidi2020:calculate_significant_wave_height_Hs": "Dn50 M50 S",
    "structural.stability_rock_armour.jumelet2024:calculate_damage_number_S": "Hs N_waves",
    "structural.stability_rock_armour.jumelet2024:calculate_nominal_rock_diameter_Dn50": "Hs",
    "structural.stability_rock_armour.kramerburcharth2004_lowcrested:calculate_significant_wave_height_Hs": "Dn50 M50",
    "structural.stability_rock_armour.scaravaglione2025:calculate_significant_wave_height_Hm0": "Dn50 M50",
    "structural.stability_rock_armour.vandermeer1988:calculate_damage_number_S": "Hs N_waves",
    "structural.stability_rock_armour.vandermeer1988:calculate_nominal_rock_diameter_Dn50": "Hs",
    "structural.stability_rock_armour.vandermeer1988:calculate_significant_wave_height_Hs": "Dn50 M50 S",
    "structural.stability_rock_armour.vandermeer1988_modified:calculate_damage_number_S": "Hs",
    "structural.stability_rock_armour.vandermeer1988_modified:calculate_nominal_rock_diameter_Dn50": "Hs",
    "structural.stability_rock_armour.vandermeer1988_modified:calculate_significant_wave_height_Hs": "Dn50 M50 S",
    "structural.stability_rock_armour.vandermeer2021:calculate_significant_wave_height_Hs": "Dn50 M50 S",
    "structural.stability_rock_rear.vangent2007:calculate_damage_number_S": "Dn50 Hs N_waves",
    "structural.stability_rock_rear.vangent2007:calculate_nominal_rock_diameter_Dn50": "Hs",
    "structural.stability_rock_rear.vangentpozueta2004:calculate_damage_number_S": "Dn50 Hs N_waves",
    "structural.stability_rock_rear.vangentpozueta2004:calculate_nominal_rock_diameter_Dn50": "Hs",
    "structural.stability_toe_berm.etemadshahidi2021:calculate_damage_Nod": "Dn50 Hs",
    "structural.stability_toe_berm.gerding1993:calculate_damage_Nod": "Dn50",
    "structural.stability_toe_berm.takahashi1990_caisson:calculate_nominal_diameter_Dn50": "Hs",
}.items() for x in xs.split()}

for _f, _modes, _vars, _pre, _scalar, _opts in list(CONFORM):
    for _pat, _x, _dir, _how in TABLE:
        if not re.search(_pat, _f.split(":")[1]):
            continue
        _n = 0
        for _mode in _modes:
            _v, _c = parse_mode(_mode)
            _nm = "direction: %s in %s [%s]" % (_f, _x, _mode)
            if _x not in _v or _nm in LEMMAS or (_f, _x) in DROP:
                continue
            _n += 1
            if _n > 2:
                break

            def h(m, _f=_f, _c=_c, _pre=_pre, _x=_x, _dir=_dir, _how=_how, step_=None, **kw):
                args = dict(kw, **_consts(m, _c))
                more = dict(args, **{_x: args[_x] * step_ if _how == "*" else args[_x] + step_})
                if _x == "beta":
                    m.assume(args["beta"] >= 0)
                    m.assume(more["beta"] <= 90)
                if _pre is not None:
                    _pre(m, **args)
                    _pre(m, **more)
                a, b = m.code(_f)(**rn(args)), m.code(_f)(**rn(more))
                if isinstance(a, tuple):
                    a, b = a[0], b[0]
                if _dir > 0:
                    m.ensure_le("grows with " + _x, a, b)
                else:
                    m.ensure_le("falls with " + _x, b, a)
            lemma(_nm, "C16", vars=dict(_vmap(_v, _vars, _f), step_=rng(1, 9, 1, 2) if _how == "*" else nonneg(0, 3)), target=_f,
                  **{k: v for k, v in _opts.items() if k not in ("only_spec",)})(h)
