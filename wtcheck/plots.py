"""The plot methods as analysis subjects."""
from __future__ import annotations

from . import vals as V
from .decide import NS
from .subjects import SUBJECTS, ser, spec, wh

WHE = "series:WaveHeights."
SEE = "series:Series."
SPE = "spectrum:Spectrum."

BGK = dict(plot_BG=True, water_depth=1.25, hm0=2.0, cota_slope=100.0)

# key: (entry, constructor, subject whose inputs are used, method, keyword arguments, queries made before)
PLOTS = {
    "wh.plot_exceedance": (WHE + "plot_exceedance_waveheight", wh, "wh.Hrms", {}, ()),
    "wh.plot_rayleigh": (WHE + "plot_exceedance_waveheight_Rayleigh", wh, "wh.Hrms", {}, ()),
    "wh.plot_rayleigh:normalized": (WHE + "plot_exceedance_waveheight_Rayleigh", wh, "wh.Hrms", {"normalize": True}, ()),
    "wh.plot_rayleigh:bg": (WHE + "plot_exceedance_waveheight_Rayleigh", wh, "wh.Hrms", BGK, ()),
    "wh.plot_rayleigh:bg,normalized": (WHE + "plot_exceedance_waveheight_Rayleigh", wh, "wh.Hrms", dict(BGK, normalize=True), ()),
    "wh.plot_hist": (WHE + "plot_hist_waveheight", wh, "wh.Hrms", {}, ()),
    "se.plot": (SEE + "plot", ser, "se.max", {}, ()),
    "se.plot:crossing": (SEE + "plot", ser, "se.max", {"plot_crossing": True}, ()),
    "se.plot_exceedance": (WHE + "plot_exceedance_waveheight", ser, "se.max", {}, ()),
    "se.plot_hist": (WHE + "plot_hist_waveheight", ser, "se.max", {}, ()),
    "sp.plot": (SPE + "plot", spec, "get_Tp:none", {}, ()),
    "sp.plot:periods": (SPE + "plot", spec, "get_Tp:none", {}, ("get_Tps", "get_Tmm10", "get_Tm02")),
    "sp.plot:all": (SPE + "plot", spec, "get_Tp:none", {}, ("get_Tps", "get_Tmm10", "get_Tm02", "get_Hm0", "get_Tp", "get_Tm01", "get_Hm0_HF", "get_Hm0_LF", "get_Tmm10_HF",
                                                            "get_Tmm10_LF", "get_s0p", "get_smm10", "get_smm10_HF", "get_Tps", "get_Tmm10", "get_Tm02")),
    "sp.plot:limits": (SPE + "plot", spec, "get_Tm02", {}, (("get_Tps", {}), ("get_Tmm10", {"fmin": "fmin", "fmax": "fmax"}), ("get_Tm01", {"fmin": "fmin"}),
                                                            ("get_Tm02", {"fmin": "fmin", "fmax": "fmax"}))),
    "sp.plot:other": (SPE + "plot", spec, "get_Tp:none", {}, ("get_Tm01", "get_Tp", "get_Tm02", "get_Hm0")),
    "sp.plot:noperiods": (SPE + "plot", spec, "get_Tp:none", {"plot_periods": False}, ("get_Tps", "get_Tmm10", "get_Tm02")),
    "sp.plot:xlim": (SPE + "plot", spec, "get_Tp:none", {"xlim": 2.0, "xlabel": "a", "ylabel": "b"}, ()),
}


def run_plot(w, x, key, before=None, **extra):
    entry, ctor, sub, kw, qs = PLOTS[key]
    o = ctor(w, x)
    for q in qs:
        q, ks = (q, {}) if isinstance(q, str) else q
        w.method(o, q, **{k: x[v] for k, v in ks.items()})
    if before:
        before(w, o)
    return w.method(o, entry.split(".")[-1], **dict(kw, **extra))


def plot_build(key):
    return SUBJECTS[PLOTS[key][2]].build()


def plot_vals(key, thorough=False):
    return SUBJECTS[PLOTS[key][2]].vals(thorough)
