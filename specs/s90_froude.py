"""Froude similarity (C17): scaling every length by k, every time by sqrt(k), every mass by k^3 and every discharge by
k^1.5 -- gravity and densities unchanged -- scales the result as its dimension says; dimensionless results stay as
they are.  Generated for every function with a conformance contract whose inputs are covered by the table below."""
from engine.core import CONFORM, lemma, parse_mode, _vmap, _consts, rn, pos

EXP = {}
for _names, _e in (("Hm0 Hs H Hsi HD Hm0_deep Hs_i0 Hm0_HF Hm0_LF H2p Hm0_swell h h_s d hacc ht Rc Ac B_berm db L_berm B B1 BL Bc Bt Bup Bwall Gc B_element hc tt tup "
                    "Hwall Fb z2p z1p zXp L Dn50 Dn D Dn50_core Rc2_front Rc2_rear Rc_rear", 2),
                   ("Tmm10 Tm Tp T Tmax Tpi Tmm10_HF uXp", 1), ("q", 3), ("M50 M M50_core V", 6)):
    for _n in _names.split():
        EXP[_n] = _e

OUT = (("dimensionless", 0), ("diml", 0), ("Iribarren", 0), ("steepness", 0), ("influence", 0), ("factor", 0), ("gamma", 0), ("stability_number", 0), ("S_from_Nod", 0), ("Nod_from_S", 0), ("Delta", 0),
       ("damage", 0), ("KD", 0), ("Kt", 0), ("fraction", 0), ("permeability", 0), ("slope", 0), ("discharge_q", 3), ("freeboard", 2), ("runup_height", 2), ("setup_delta", 2), ("velocity", 1), ("uXp", 1),
       ("u1p", 1), ("zXp", 2), ("z1p", 2), ("M50", 6), ("mass_M", 6), ("volume_V", 6), ("Dn50", 2), ("Dn", 2), ("wave_height_H", 2), ("invert_for_Hs", 2), ("depth_above_toe", 2), ("berm_length", 2),
       ("FH", 4), ("FV", 4))


def out_exp(fname):
    f = fname.split(":")[1]
    if "crest_freeboard_discharge" in f and "dimensionless" not in f:
        return 2
    if f.startswith("calculate_unit_mass") or f.startswith("calculate_median_rock_mass"):
        return 6
    if f.startswith(("calculate_significant_wave_height", "calculate_wave_height")):
        return 2
    if f.startswith("calculate_unit_volume"):
        return 6
    if "M50_from" in f:
        return 6
    if "Dn50_from" in f:
        return 2
    for k, e in OUT:
        if k in f:
            return e
    return None


SKIP = ("iteration_procedure", "goda1985", "lookup_table")
ITERATED = {"B_berm", "db", "L_berm", "cot_alpha_up"}      # iterations with an absolute tolerance
OWN = []


def scaled(k, kw):
    return {n: (v * k ** EXP[n] if n in EXP else v) for n, v in kw.items()}


for _f, _modes, _vars, _pre, _scalar, _opts in list(CONFORM):
    _e = out_exp(_f)
    if _e is None or any(s in _f for s in SKIP):
        OWN.append(_f)
        continue
    _n = 0
    for _mode in _modes:
        _v, _c = parse_mode(_mode)
        if not any(x in EXP for x in _v) or (ITERATED & set(_v) and ("taw2002" in _f or "eurotop" in _f)):
            continue
        _n += 1
        if _n > 3:
            break

        def h(m, root_k, _f=_f, _c=_c, _pre=_pre, _e=_e, **kw):
            args = dict(kw, **_consts(m, _c))
            if _pre is not None:
                _pre(m, **args)
            a = m.code(_f)(**rn(args))
            b = m.code(_f)(**rn(scaled(root_k, args)))
            if not isinstance(a, tuple):
                a, b = (a,), (b,)
            for i in range(len(a)):
                x = a[i]
                if i:
                    m.ensure_eq("flag", b[i], x)
                    continue
                m.ensure_eq("scales with the length scale to the power %s/2" % _e, b[i], x * root_k ** _e, tol=1e-6)
        lemma("similarity: %s[%s]" % (_f, _mode), "C17", vars=dict(_vmap(_v, _vars, _f), root_k=pos(0.3, 3)), target=_f,
              **{k: v for k, v in _opts.items() if k not in ("opaque", "only_spec")})(h)

# ------------------------------------------------------------------ Goda (1985): several results of different dimension
from specs_s50_forces import G, GV, PF, ORDER, goda_pre, FV, bear_pre, IMP  # noqa: E402

GEXP = dict(FH=4, FU=4, MH=6, MU=6, p1=2, p2=2, p3=2, p4=2, hstar_c=2, pu=2, h_5Hs=2, etastar=2, L=2)
EXP.update(GEXP, Wup=4)


@lemma("similarity: Goda (1985) pressures and forces", "C17", vars=dict(_vmap((PF + " offshore_wave_steepness g").split(), GV, G), root_k=pos(0.3, 3)))
def g_sim(m, root_k, **kw):
    goda_pre(m, **kw)
    a = m.code(G + "calculate_pressures_and_forces")(**kw)
    b = m.code(G + "calculate_pressures_and_forces")(**scaled(root_k, kw))
    for i, k in enumerate(ORDER):
        if k == "impulsive_breaking":
            m.ensure_eq(k, b[i], a[i])
        else:
            m.ensure_eq(k, b[i], a[i] * root_k ** GEXP.get(k, 0), tol=1e-6)


@lemma("similarity: Goda (1985) weight, safety factors and bearing pressures", "C17",
       vars=dict(_vmap("FU FH Wup muf tup MH MU Bup hacc Rc rho_fill_below_SWL rho_fill_above_SWL rho_water".split(), FV, G), root_k=pos(0.3, 3)))
def g_sim2(m, root_k, FU, FH, Wup, muf, tup, MH, MU, Bup, hacc, Rc, rho_fill_below_SWL, rho_fill_above_SWL, rho_water):
    kw = dict(hacc=hacc, Rc=Rc, Bup=Bup, rho_fill_below_SWL=rho_fill_below_SWL, rho_water=rho_water, rho_fill_above_SWL=rho_fill_above_SWL)
    f = m.code(G + "calculate_Wup")
    m.ensure_eq("weight", f(**scaled(root_k, kw)), f(**kw) * root_k ** 4, tol=1e-6)
    kw = dict(FU=FU, FH=FH, Wup=Wup, muf=muf, tup=tup, MH=MH, MU=MU)
    f = m.code(G + "calculate_safety_factors")
    a, b = f(**kw), f(**scaled(root_k, kw))
    m.ensure_eq("sliding", b[0], a[0], tol=1e-6)
    m.ensure_eq("overturning", b[1], a[1], tol=1e-6)
    kw = dict(Wup=Wup, tup=tup, MH=MH, MU=MU, FU=FU, Bup=Bup)
    bear_pre(m, **kw)
    f = m.code(G + "calculate_bearing_pressures")
    a, b = f(**kw), f(**scaled(root_k, kw))
    for i, e in enumerate((2, 6, 4, 2)):
        m.ensure_eq("bearing %d" % i, b[i], a[i] * root_k ** e, tol=1e-6)
