"""Input files written for the overtopping models of Den Bieman et al. (2021) and Van Gent et al. (2007) -- C20."""
from engine.core import lemma, _vmap, _consts, parse_mode, real

XG = "hydraulic.wave_overtopping.denbieman2021:write_input_file_XGB_Overtopping"
NN = "hydraulic.wave_overtopping.vangent2007:write_input_file_NN_Overtopping"
FV = dict(tan_alpha_f=real(0, 0.5), tan_alpha_B=real(0, 0.5))
XG_COLS = "beta h Hm0 Tmm10 ht Bt db B_berm Rc Ac Gc cot_alpha_down cot_alpha_up gamma_f_down gamma_f_up tan_alpha_f".split()
XG_HEAD = ["b", "h", "Hm0 toe", "Tm-1,0 toe", "ht", "Bt", "hb", "B", "Rc", "Ac", "Gc", "cotad", "cotau", "gf_d", "gf_u", "tanaf"]
NN_COLS = "beta h Hm0 Tmm10 ht Bt gamma_f cot_alpha_down cot_alpha_up Rc B_berm db tan_alpha_B Ac Gc".split()

for _f, _cols, _kw, _name in ((XG, XG_COLS, dict(ext=".csv", sep=";", header=XG_HEAD, index=True, comments=""), "input_XGB_Overtopping"),
                              (NN, NN_COLS, dict(ext=".inp", sep=" ", header=None, index=False, comments="!*"), "input_NN_Overtopping")):
    for _case in ("arrays", "single", "whole number", "named"):
        _vars = [c for c in _cols if not (_case == "whole number" and c == "beta")]

        @lemma("exported file: %s [%s]" % (_f, _case), "C20", vars=_vmap(_vars, FV, _f), target=_f)
        def files(m, _f=_f, _cols=_cols, _kw=_kw, _case=_case, _name=_name, **kw):
            args = dict(kw, output_dir="out", file_name="case_1" if _case == "named" else _name)
            if _case == "whole number":
                args["beta"] = m.const("0")
            m.exported(_f, tuple(_cols) if _case in ("arrays", "named") else (), args, want=_cols, default_name=_case != "named", **_kw)
