"""The public entry points as analysis subjects: declared inputs, call, reference, valuations, physical dimensions.

Dimensions are (elevation, horizontal distance, time) exponents.
"""
from __future__ import annotations

import numpy as np

from . import vals as V
from .decide import NS
from .evalterm import same
from .interp import Unsupported

O, L1, X1, T1, F1 = (0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, -1)
S1 = (2, 0, 1)  # variance density


def dim(l=0, x=0, t=0):
    return (l, x, t)


class In:
    """One declared input."""

    def __init__(self, name, kind="num", dim=O, shape=("N",), dtype="float", role=None, domain=None, still=False, **kw):
        self.still = still  # derived valuations do not rescale it
        self.domain = domain  # interval for derived valuations only; not a fact the comparison may use
        self.name, self.kind, self.dim, self.shape, self.dtype, self.role, self.kw = name, kind, dim, shape, dtype, role, kw


class Subject:
    def __init__(self, key, entry, ins, call, vals, ref=None, outs=None, keep=(), cmp=None, tol=1e-7,
                 linear=(), shift=None, effects=(), lo=3, names=None, plot=False):
        self.key, self.entry, self.ins, self.call, self._vals, self.ref = key, entry, ins, call, vals, ref
        self.outs, self.keep, self.cmp, self.tol = outs, keep, cmp, tol
        self.linear, self.shift, self.effects, self.lo = linear, shift, effects, lo
        self.names = names
        self.plot = plot
        self.internal = ()  # parameter names; not part of the interface: no obligation if it is not there
        self.uniform = False  # only rescale all quantities of a dimension together (iterations that need a sensible start)

    def build(self, override=None, hook=None, size=None):
        """Build function; override: name -> dtype of arrays, hook(w, In, value) may replace a value, size(w) gives N."""
        def b(w):
            x = NS()
            sizes = {"N": size(w)} if size else {}
            for i in self.ins:
                if i.kind == "arr":
                    for s in i.shape:
                        if isinstance(s, str) and s not in sizes:
                            sizes[s] = w.int(s, lo=self.lo if s == "N" else 2)
            for i in self.ins:
                if i.kind == "arr":
                    shp = tuple(sizes.get(s, s) for s in i.shape)
                    dt = (override or {}).get(i.name, i.dtype)
                    v = w.arr(i.name, shp, dt, **i.kw)
                elif i.kind == "int":
                    v = sizes.get(i.name)
                    if v is None:
                        v = w.int(i.name, **i.kw)
                else:
                    v = w.num(i.name, **i.kw)
                x[i.name] = hook(w, i, v) if hook else v
            x["_sizes"] = sizes
            return x
        return b

    def vals(self, thorough=False):
        return self._vals(thorough)

    def inp(self, name):
        for i in self.ins:
            if i.name == name:
                return i


SUBJECTS = {}


def add(*a, **k):
    s = Subject(*a, **k)
    SUBJECTS[s.key] = s
    return s


# ------------------------------------------------------------------ valuation generators
def v_times(kinds=("noise", "wave", "ties", "offset", "tiny", "touch"), Ns=(8, 9, 12, 15), extra=None):
    def g(th):
        out = V.times(th, kinds, Ns)
        if extra:
            out = [dict(d, **e) for d in out for e in extra(d)]
        return out
    return g


def cplx(N, k):
    r = V.rs(700 + k)
    return V.dy(r.randn(N)) + 1j * V.dy(r.randn(N))


def v_fourier(Ns=(5, 6, 9, 12), two=False, extra=None, f0=0.0):
    def g(th):
        out = []
        for k, N in enumerate(V.sizes(Ns, (17, 20), th)):
            for df in (0.125, 0.5, 1.0):
                d = {"N": N, "f": f0 + df * np.arange(N), "X": cplx(N, 3 * k + int(8 * df))}
                if two:
                    d["Y"] = cplx(N, 50 + 3 * k + int(8 * df))
                    if df == 0.5:
                        # nearly the same signal
                        near = dict(d, Y=d["X"] * (1.5 + 2.0 ** -(4 + 2 * (k % 3)) * cplx(N, 90 + k)))
                        out += [dict(near, **e) for e in (extra(d) if extra else [{}])]
                for e in (extra(d) if extra else [{}]):
                    out.append(dict(d, **e))
        return out
    return g


def dfs(d):
    f = d["f"]
    df = f[1] - f[0]
    return [{"df": 0.0}, {"df": float(df)}, {"df": float(2.25 * df)}, {"df": float(3 * df)}, {"df": float(0.25 * df)},
            {"df": float(1.75 * df)}]


def dfs_t(d):
    t = d["t"]
    df = 1.0 / (len(t) * (t[1] - t[0]))
    return [{"df": 0.0}, {"df": float(1.1 * df)}, {"df": float(2.2 * df)}, {"df": float(1.8 * df)}, {"df": float(0.3 * df)}]


def bands(f):
    df = f[1] - f[0]
    n = len(f)
    mid = f[0] + df * (n // 2)
    out = [(f[0], f[-1]), (f[1], f[-2]), (f[1] + 0.25 * df, mid + 0.25 * df), (f[0] - df, f[-1] + df), (f[2], f[2]),
           (f[-1], f[-1] + df), (f[-1] + df, f[-1] + 2 * df), (f[0] - 2 * df, f[0] - df), (mid, f[-1] + df),
           (mid, f[-1]), (f[0] - df, mid), (f[0], f[1]), (f[2] + 0.25 * df, f[2] + 0.75 * df), (f[0] - df, f[0])]
    return [{"flow": float(a), "fhigh": float(b)} for a, b in out]


def bands_t(d):
    t = d["t"]
    n = len(t)
    df = 1.0 / (n * (t[1] - t[0]))
    m = n // 2
    out = [(0.3, 1.4), (0.3, m + 0.5), (-1.0, 1.6), (1.3, 2.7), (-0.5, m + 3), (m - 0.6, m + 0.2), (0.4, 0.7)]
    return [{"flow": float(a * df), "fhigh": float(b * df)} for a, b in out]


def v_spectra(extra=None, Ns=(9, 12, 17), f0s=(0.0, 0.125, 0.25), every=1, floor=0.125):
    def g(th):
        out = []
        k = 0
        for d in V.spectra(th, Ns, f0s, floor):
            for e in (extra(d, th) if extra else [{}]):
                k += 1
                if k % every == 0 or th:
                    out.append(dict(d, **e))
        return out
    return g


def lims(beyond=True, minpts=3):
    def g(d, th=False):
        f = d["f"]
        out = [{"fmin": a, "fmax": b} for a, b in V.limits(d)]
        if beyond:
            out += [{"fmin": a, "fmax": b} for a, b in V.beyond(d)]
        return out
    return g


def one_lim(which, beyond=True):
    def g(d, th=False):
        f = d["f"]
        df = f[1] - f[0]
        n = len(f)
        if which == "fmin":
            vs = [f[0], f[1], f[2], f[1] + 0.25 * df, f[n // 2] - 0.25 * df, f[n // 2]]
        else:
            vs = [f[-1], f[-2], f[n // 2] + 0.25 * df, f[n // 2 + 1], f[-2] - 0.25 * df]
            if beyond:
                vs += [1.5 * f[-1], 3.0 * f[-1]]
        return [{which: float(v)} for v in vs]
    return g


def no_lim(d, th=False):
    return [{}]


FA = In("f", "arr", F1, role="axis")
SA = In("S", "arr", S1, role="data", lo=0)
TA = In("t", "arr", T1, role="time")
XA = In("x", "arr", L1, role="data")
LO = In("fmin", "num", F1)
HI = In("fmax", "num", F1)

# ------------------------------------------------------------------ moments and parameters
MD = {-2: dim(2, 0, 2), -1: dim(2, 0, 1), 0: dim(2), 1: dim(2, 0, -1), 2: dim(2, 0, -2), 3: dim(2, 0, -3)}


def tail_ok(m):
    def g(d, th=False):
        return [e for e in lims()(d, th) if not (np.isinf(e["fmax"]) and m >= 4)]
    return g


for _m in (-2, -1, 0, 1, 2, 3):
    def _c(m):
        add("moment%d" % m, "core_wavefunctions:compute_moment", [FA, SA, LO, HI],
            lambda w, x: w.call("core_wavefunctions:compute_moment", x.f, x.S, m, x.fmin, x.fmax),
            v_spectra(tail_ok(m), every=5), lambda w, x: w.call("ref:moment", x.f, x.S, m, x.fmin, x.fmax),
            outs=[MD[m]], linear=("S",))
        add("moment%d:none" % m, "core_wavefunctions:compute_moment", [FA, SA],
            lambda w, x: w.call("core_wavefunctions:compute_moment", x.f, x.S, m),
            v_spectra(every=2), lambda w, x: w.call("ref:moment", x.f, x.S, m), outs=[MD[m]], linear=("S",))
        for lim in ("fmin", "fmax"):
            add("moment%d:%s" % (m, lim), "core_wavefunctions:compute_moment", [FA, SA, In(lim, "num", F1)],
                lambda w, x, lim=lim: w.call("core_wavefunctions:compute_moment", x.f, x.S, m, **{lim: x[lim]}),
                v_spectra(one_lim(lim), every=7), lambda w, x, lim=lim: w.call("ref:moment", x.f, x.S, m, **{lim: x[lim]}),
                outs=[MD[m]], linear=("S",))
    _c(_m)

def faint(g):
    """Also the same spectra with hardly any energy, at scales around every likely threshold on the wave height."""
    def h(th):
        out = g(th)
        return out + [dict(v, S=v["S"] * 4.0 ** -e) for v in out[:: max(1, len(out) // 3)][:3] for e in (4, 7, 10, 12, 14, 16, 17, 18, 19, 20, 21, 23, 26)]
    return h


PD = [L1, T1, T1, T1, T1, T1]
CP = "core_wavefunctions:compute_spectrum_params"
add("params", CP, [FA, SA, LO, HI], lambda w, x: w.call(CP, x.f, x.S, x.fmin, x.fmax),
    faint(v_spectra(lims(), f0s=(0.125, 0.25, 0.5), every=7)), lambda w, x: w.call("ref:params", x.f, x.S, x.fmin, x.fmax), outs=PD)
add("params:none", CP, [FA, SA], lambda w, x: w.call(CP, x.f, x.S), faint(v_spectra(f0s=(0.125, 0.25, 0.5), every=2)),
    lambda w, x: w.call("ref:params", x.f, x.S), outs=PD)
for _lim in ("fmin", "fmax"):
    add("params:" + _lim, CP, [FA, SA, In(_lim, "num", F1)],
        lambda w, x, lim=_lim: w.call(CP, x.f, x.S, **{lim: x[lim]}), v_spectra(one_lim(_lim), f0s=(0.125, 0.25), every=9),
        lambda w, x, lim=_lim: w.call("ref:params", x.f, x.S, **{lim: x[lim]}), outs=PD)
add("tpd", "core_wavefunctions:tpd", [FA, SA], lambda w, x: w.call("core_wavefunctions:tpd", x.f, x.S),
    v_spectra(f0s=(0.125, 0.25, 0.5)), lambda w, x: w.call("ref:tpd", x.f, x.S), outs=[T1])
add("tps", "core_wavefunctions:compute_tps", [FA, SA], lambda w, x: w.call("core_wavefunctions:compute_tps", x.f, x.S),
    lambda th: v_spectra(f0s=(0.125, 0.25, 0.5), Ns=(6, 9, 12))(th) + tps_small(),
    lambda w, x: w.call("ref:tps_core", x.f, x.S), outs=[T1], lo=1)


def tps_small():
    out = []
    for N, S in ((1, [2.0]), (2, [1.0, 3.0]), (2, [3.0, 1.0]), (2, [2.0, 2.0]), (3, [1.0, 3.0, 2.0]), (3, [3.0, 2.0, 0.0]),
                 (3, [0.0, 2.0, 3.0]), (3, [3.0, 1.0, 3.0]), (3, [3.0, 3.0, 1.0]), (3, [1.0, 3.0, 3.0]),
                 (3, [2.0, 2.0, 2.0]), (3, [4.0, 1.0, 0.5]), (3, [0.5, 1.0, 4.0]), (4, [2.0, 2.0, 2.0, 2.0]),
                 (4, [5.0, 1.0, 0.0, 0.0]), (4, [0.0, 0.0, 1.0, 5.0]), (5, [0.0, 1.0, 3.0, 2.0, 0.0]),
                 (5, [4.0, 2.0, 0.0, 1.0, 0.5]), (5, [0.5, 1.0, 0.0, 2.0, 4.0])):
        out.append({"N": N, "f": 0.25 + 0.125 * np.arange(N), "S": np.array(S)})
    return out


# ------------------------------------------------------------------ spectrum object
SP = "spectrum:Spectrum"


def spec(w, x):
    return w.call(SP, x.f, x.S)


def spec2(w, x):
    """A spectrum that has directions: its densities per frequency are the same."""
    return w.call(SP, x.f, x.S, w.call("ref:some_directions", x.f))


GET = {  # name: (reference, dimension, needs first frequency > 0, beyond-the-axis limits, first limit must bracket)
    "get_Hm0": ("hm0", L1), "get_Tmm10": ("tmm10", T1), "get_Tm01": ("tm01", T1), "get_Tm02": ("tm02", T1),
    "get_Tp": ("tp", T1), "get_Tps": ("tps", T1),
    "get_Hm0_HF": ("hm0_hf", L1), "get_Hm0_LF": ("hm0_lf", L1), "get_Tmm10_HF": ("tmm10_hf", T1),
    "get_Tmm10_LF": ("tmm10_lf", T1)}
for _n, (_r, _d) in GET.items():
    f0 = (0.125, 0.25, 0.5) if _n in ("get_Tp", "get_Tps") else (0.0, 0.125, 0.25)
    e = "spectrum:Spectrum." + _n
    add(_n, e, [FA, SA, LO, HI], lambda w, x, n=_n: w.method(spec(w, x), n, x.fmin, x.fmax),
        v_spectra(lims(), f0s=f0, every=9), lambda w, x, r=_r: w.call("ref:" + r, x.f, x.S, x.fmin, x.fmax), outs=[_d])
    add(_n + ":none", e, [FA, SA], lambda w, x, n=_n: w.method(spec(w, x), n),
        v_spectra(f0s=f0, every=3), lambda w, x, r=_r: w.call("ref:" + r, x.f, x.S), outs=[_d])
    add(_n + ":dirs", e, [FA, SA, LO, HI], lambda w, x, n=_n: w.method(spec2(w, x), n, x.fmin, x.fmax),
        v_spectra(lims(), f0s=f0[1:], every=31), lambda w, x, r=_r: w.call("ref:" + r, x.f, x.S, x.fmin, x.fmax), outs=[_d])
    for _lim in ("fmin", "fmax"):
        add(_n + ":" + _lim, e, [FA, SA, In(_lim, "num", F1)],
            lambda w, x, n=_n, lim=_lim: w.method(spec(w, x), n, **{lim: x[lim]}), v_spectra(one_lim(_lim), f0s=f0, every=10),
            lambda w, x, r=_r, lim=_lim: w.call("ref:" + r, x.f, x.S, **{lim: x[lim]}), outs=[_d])
GA = In("g", "num", dim(1, 0, -2), lo=0, lo_strict=True)


def with_g(gen, gs=(9.81, 1.625)):
    def g(d, th=False):
        return [dict(e, g=v) for i, e in enumerate(gen(d, th)) for v in (gs if i % 2 else gs[:1])]
    return g


for _n, _r in (("get_s0p", "s0p"), ("get_smm10", "smm10"), ("get_smm10_HF", "smm10_hf")):
    e = "spectrum:Spectrum." + _n
    add(_n, e, [FA, SA, LO, HI, GA], lambda w, x, n=_n: w.method(spec(w, x), n, x.fmin, x.fmax, x.g),
        v_spectra(with_g(lims()), f0s=(0.125, 0.25), every=11),
        lambda w, x, r=_r: w.call("ref:" + r, x.f, x.S, x.fmin, x.fmax, x.g), outs=[O])
    add(_n + ":dirs", e, [FA, SA, LO, HI, GA], lambda w, x, n=_n: w.method(spec2(w, x), n, x.fmin, x.fmax, x.g),
        v_spectra(with_g(lims()), f0s=(0.125, 0.25), every=31),
        lambda w, x, r=_r: w.call("ref:" + r, x.f, x.S, x.fmin, x.fmax, x.g), outs=[O])
    add(_n + ":none", e, [FA, SA], lambda w, x, n=_n: w.method(spec(w, x), n), v_spectra(f0s=(0.125, 0.25), every=3),
        lambda w, x, r=_r: w.call("ref:" + r, x.f, x.S), outs=None)
    add(_n + ":g", e, [FA, SA, GA], lambda w, x, n=_n: w.method(spec(w, x), n, g=x.g),
        v_spectra(with_g(no_lim, (4.5, 20.0)), f0s=(0.125, 0.25), every=5),
        lambda w, x, r=_r: w.call("ref:" + r, x.f, x.S, g=x.g), outs=[O])
    for _lim in ("fmin", "fmax"):
        add(_n + ":" + _lim, e, [FA, SA, In(_lim, "num", F1), GA],
            lambda w, x, n=_n, lim=_lim: w.method(spec(w, x), n, **{lim: x[lim], "g": x.g}),
            v_spectra(with_g(one_lim(_lim)), f0s=(0.125, 0.25), every=11),
            lambda w, x, r=_r, lim=_lim: w.call("ref:" + r, x.f, x.S, **{lim: x[lim], "g": x.g}), outs=[O])

# ------------------------------------------------------------------ parametric spectra
FP = In("fp", "num", F1, lo=0, lo_strict=True)
HM = In("hm0", "num", L1, lo=0, lo_strict=True)
GM = In("gam", "num", O, lo=0, lo_strict=True)


def v_jons(th):
    out = []
    for N in V.sizes((5, 8, 11), (20,), th):
        for f0 in (0.0, 0.0625, -0.125):
            for fp, h, g in ((0.1875, 2.0, 3.3), (0.3125, 1.5, 1.0), (0.25, 0.5, 7.0), (0.4375, 4.0, 2.0), (2.0, 1.0, 1.5)):
                out.append({"N": N, "f": f0 + 0.0625 * np.arange(N), "fp": fp, "hm0": h, "gam": g})
    return [d for d in out if d["f"][-1] >= 0.6 * d["fp"]] + [d for d in out if d["fp"] == 2.0][:0]


JS = "core_wavefunctions:create_spectrum_jonswap"
PMK = "core_wavefunctions:create_spectrum_piersonmoskowitz"
for _fn, _key, _g in ((JS, "jonswap", 3.3), (PMK, "pm", 1.0)):
    for _l in (0, 1):
        add("%s:%d" % (_key, _l), _fn, [FA, FP, HM, GM],
            lambda w, x, l=_l, fn=_fn: w.call(fn, x.f, x.fp, x.hm0, x.gam, l), v_jons,
            lambda w, x, l=_l: w.call("ref:jonswap", x.f, x.fp, x.hm0, x.gam, l), outs=[S1])
    add(_key, _fn, [FA, FP, HM], lambda w, x, fn=_fn: w.call(fn, x.f, x.fp, x.hm0), v_jons,
        lambda w, x, g=_g: w.call("ref:jonswap", x.f, x.fp, x.hm0, g), outs=[S1])
    _ob = _fn.replace("spectrum_", "spectrum_object_")

    def _parts(w, o):
        return w.box_tuple(w.attr(o, "f"), w.attr(o, "sVarDens"))
    for _l in (0, 1):
        add("%s_object:%d" % (_key, _l), _ob, [FA, FP, HM, GM],
            lambda w, x, l=_l, fn=_ob: (lambda o: (w.attr(o, "f"), w.attr(o, "sVarDens")))(
                w.call(fn, x.f, x.fp, x.hm0, x.gam, l)), v_jons,
            lambda w, x, l=_l: (x.f, w.call("ref:jonswap", x.f, x.fp, x.hm0, x.gam, l)), outs=[F1, S1])
    add("%s_object" % _key, _ob, [FA, FP, HM],
        lambda w, x, fn=_ob: (lambda o: (w.attr(o, "f"), w.attr(o, "sVarDens")))(w.call(fn, x.f, x.fp, x.hm0)), v_jons,
        lambda w, x, g=_g: (x.f, w.call("ref:jonswap", x.f, x.fp, x.hm0, g)), outs=[F1, S1])

# ------------------------------------------------------------------ Battjes & Groenendijk
BG = "core_wavefunctions:compute_BattjesGroenendijk_wave_height_distribution"


def v_bg(th):
    out = []
    for h in (1.0, 2.0, 3.0, 0.5):
        for d in (1.5, 2.5, 4.0, 0.75):
            for c, n in ((100.0, 1000), (250.0, 500), (30.0, 2000), (60.0, 40), (20.0, 3), (1000.0, 300), (8.0, 700)):
                s = h / 4
                q = (0.35 + 5.8 / c) * d / (s * (2.69 + 3.24 * s / d))
                if q > 0.3 and abs(q - 2.75) > 0.05:
                    out.append({"hm0": h, "nw": n, "d": d, "cota": c})
    for k, q in enumerate((0.45, 0.9, 1.3, 1.7, 2.05, 2.35, 2.6, 2.7, 2.85, 3.5)):
        # a given normalised transition height, for few and for many waves
        for n in (2, 12, 90, 150, 5000)[k % 2::2]:
            h, c = (1.0, 2.5)[k // 2 % 2], (40.0, 125.0)[k % 2]
            s, g = h / 4, 0.35 + 5.8 / c
            d = (2.69 * s * q + ((2.69 * s * q) ** 2 + 4 * g * q * s * 3.24 * s) ** 0.5) / (2 * g)
            out.append({"hm0": h, "nw": n, "d": d, "cota": c})
    return out if th else out[::2]


NW = In("nw", "int", O, lo=2)
DP = In("d", "num", L1, lo=0, lo_strict=True)
CT = In("cota", "num", O, lo=0, lo_strict=True)
add("bg", BG, [HM, NW, DP, CT], lambda w, x: w.call(BG, x.hm0, x.nw, x.d, x.cota), v_bg,
    lambda w, x: w.call("ref:battjes_groenendijk", x.hm0, x.nw, x.d, x.cota), outs=[L1, O], tol=2e-4).uniform = True
add("bg:default", BG, [HM, NW, DP], lambda w, x: w.call(BG, x.hm0, x.nw, x.d), lambda th: [d for d in v_bg(True) if d["cota"] == 250.0][:: (1 if th else 2)],
    lambda w, x: w.call("ref:battjes_groenendijk", x.hm0, x.nw, x.d), outs=[L1, O], tol=2e-4).uniform = True

# ------------------------------------------------------------------ dispersion
DI = "core_dispersion:disper"
WA = In("w", "arr", F1, role="data")
GX = In("g", "num", dim(0, 1, -2), lo=0, lo_strict=True)


def v_w(hs):
    def g(th):
        out = []
        for N in V.sizes((3, 4, 7), (12,), th):
            for k, h in enumerate(hs):
                for gg in (9.81, 4.0):
                    r = V.rs(800 + 7 * N + k)
                    w = V.dy(np.abs(r.randn(N)) * 2 + 0.125)
                    out.append({"N": N, "w": w, "h": h, "g": gg})
                    w2 = w.copy()
                    w2[1] = -w2[1]
                    w2[2] = 0.0
                    out.append({"N": N, "w": w2, "h": h, "g": gg})
                    out.append({"N": N, "w": w * 4, "h": h, "g": gg})
                    out.append({"N": N, "w": w / 16, "h": h, "g": gg})
                    out.append({"N": N, "w": np.sqrt(gg / abs(h) if np.isfinite(h) and h else gg) * 10.0 ** np.linspace(-1.5, 1.25, N), "h": h, "g": gg})
        return out
    return g


add("disper:finite", DI, [WA, In("h", "num", X1, domain=(0.05, 5000.0), lo=0, lo_strict=True, finite=True), GX],
    lambda w, x: w.call(DI, x.w, x.h, x.g), v_w((0.5, 3.0, 20.0, 150.0)), lambda w, x: w.call("ref:disper_finite", x.w, x.h, x.g),
    outs=[(0, -1, 0)], tol=1e-9)
add("disper:shallow", DI, [WA, In("h", "num", X1, hi=0, hi_strict=True, finite=True), GX],
    lambda w, x: w.call(DI, x.w, x.h, x.g), v_w((-0.5, -3.0, -20.0)), lambda w, x: w.call("ref:disper", x.w, x.h, x.g), outs=[(0, -1, 0)])
add("disper:deep", DI, [WA, GX], lambda w, x: w.call(DI, x.w, np.inf, x.g), v_w((0.0,)),
    lambda w, x: w.call("ref:disper", x.w, np.inf, x.g), outs=[(0, -1, 0)])
add("disper:any", DI, [WA, In("h", "num", X1)], lambda w, x: w.call(DI, x.w, x.h),
    lambda th: [{k: v for k, v in d.items() if k != "g"} for d in v_w((0.5, 3.0, -2.0, np.inf))(th) if d["g"] == 9.81],
    lambda w, x: w.call("ref:disper", x.w, x.h), outs=None)

# ------------------------------------------------------------------ Fourier transforms, filters, averaging
CS = "core_spectral:"
XF = In("X", "arr", L1, dtype="complex", role="data")
YF = In("Y", "arr", L1, dtype="complex", role="data")
DF = In("df", "num", F1, lo=0)
FLO = In("flow", "num", F1)
FHI = In("fhigh", "num", F1)
add("time2freq", CS + "time2freq", [TA, XA], lambda w, x: w.call(CS + "time2freq", x.t, x.x), v_times(),
    lambda w, x: w.call("ref:time2freq", x.t, x.x), outs=[F1, L1], linear=("x",))
add("time2freq_nyquist", CS + "time2freq_nyquist", [TA, XA], lambda w, x: w.call(CS + "time2freq_nyquist", x.t, x.x),
    v_times(), lambda w, x: w.call("ref:nyquist", x.t, x.x), outs=[F1, L1, None], linear=("x",))


def real_nyquist(p, q):
    """Equal unfolded transforms; the Nyquist component of an even number of samples is real, only its real part is fixed."""
    def part(v):
        if not (isinstance(v, tuple) and len(v) == 2):
            return v
        X = np.array(v[1], dtype=complex)
        if X.ndim == 1 and len(X) >= 2:
            X[len(X) // 2] = X[len(X) // 2].real
        return (v[0], X)
    return same(part(p), part(q))


for _o in (True, False):
    add("unfold:%s" % ("odd" if _o else "even"), CS + "unfold_spectrum", [FA, XF],
        lambda w, x, o=_o: w.call(CS + "unfold_spectrum", x.f, x.X, o), v_fourier(),
        lambda w, x, o=_o: w.call("ref:unfold", x.f, x.X, o), outs=[F1, L1], linear=("X",), cmp=None if _o else real_nyquist)
add("freq2time", CS + "freq2time", [XF], lambda w, x: w.call(CS + "freq2time", x.X),
    v_fourier(), lambda w, x: w.call("ref:freq2time", x.X), outs=[L1], linear=("X",))
add("bandfilter", CS + "applybandfilter", [FA, XF, FLO, FHI],
    lambda w, x: w.call(CS + "applybandfilter", x.f, x.X, x.flow, x.fhigh),
    lambda th: v_fourier(extra=lambda d: bands(d["f"]))(th) + v_fourier(Ns=(5, 8), extra=lambda d: bands(d["f"]), f0=0.25)(th),
    lambda w, x: w.call("ref:band", x.f, x.X, x.flow, x.fhigh), outs=[L1], linear=("X",))
add("bandpass", CS + "bandpassfilter", [TA, XA, FLO, FHI],
    lambda w, x: w.call(CS + "bandpassfilter", x.t, x.x, x.flow, x.fhigh), v_times(extra=bands_t, kinds=("noise", "wave")),
    lambda w, x: w.call("ref:bandpass", x.t, x.x, x.flow, x.fhigh), outs=[L1], linear=("x",))
add("average", CS + "frequency_averaging", [FA, SA, DF], lambda w, x: w.call(CS + "frequency_averaging", x.f, x.S, x.df),
    v_spectra(lambda d, th: dfs(d), Ns=(6, 9, 13), every=5), lambda w, x: w.call("ref:average", x.f, x.S, x.df), outs=[F1, S1],
    linear=("S",))
add("average:none", CS + "frequency_averaging", [FA, SA], lambda w, x: w.call(CS + "frequency_averaging", x.f, x.S),
    v_spectra(every=5), lambda w, x: w.call("ref:average", x.f, x.S), outs=[F1, S1], linear=("S",))
add("average:complex", CS + "frequency_averaging", [FA, XF, DF], lambda w, x: w.call(CS + "frequency_averaging", x.f, x.X, x.df),
    v_fourier(extra=dfs), lambda w, x: w.call("ref:average", x.f, x.X, x.df), outs=[F1, L1], linear=("X",))
add("coherence", CS + "coherence", [FA, XF, YF, DF], lambda w, x: w.call(CS + "coherence", x.f, x.X, x.Y, x.df),
    v_fourier(two=True, extra=dfs), lambda w, x: w.call("ref:coherence", x.f, x.X, x.Y, x.df), outs=[F1, O])
add("coherence:none", CS + "coherence", [FA, XF, YF], lambda w, x: w.call(CS + "coherence", x.f, x.X, x.Y),
    v_fourier(two=True), lambda w, x: w.call("ref:coherence", x.f, x.X, x.Y), outs=[F1, O])
add("spectrum_time", CS + "compute_spectrum_time_series", [TA, XA, DF],
    lambda w, x: w.call(CS + "compute_spectrum_time_series", x.t, x.x, x.df), v_times(extra=dfs_t, kinds=("noise", "wave")),
    lambda w, x: w.call("ref:spectrum_time", x.t, x.x, x.df), outs=[F1, S1])
add("spectrum_time:none", CS + "compute_spectrum_time_series", [TA, XA],
    lambda w, x: w.call(CS + "compute_spectrum_time_series", x.t, x.x), v_times(),
    lambda w, x: w.call("ref:spectrum_time", x.t, x.x), outs=[F1, S1])
NT = In("nt", "int", O, lo=1)
add("spectrum_freq", CS + "compute_spectrum_freq_series", [FA, XF, NT, DF],
    lambda w, x: w.call(CS + "compute_spectrum_freq_series", x.f, x.X, x.nt, x.df),
    v_fourier(extra=lambda d: [dict(e, nt=n) for e in dfs(d) for n in (2 * d["N"] - 2, 2 * d["N"] - 1)]),
    lambda w, x: w.call("ref:spectrum_freq", x.f, x.X, x.nt, x.df), outs=[F1, S1])
add("spectrum_freq:none", CS + "compute_spectrum_freq_series", [FA, XF, NT],
    lambda w, x: w.call(CS + "compute_spectrum_freq_series", x.f, x.X, x.nt),
    v_fourier(extra=lambda d: [dict(nt=n) for n in (2 * d["N"] - 2, 2 * d["N"] - 1)]),
    lambda w, x: w.call("ref:spectrum_freq", x.f, x.X, x.nt), outs=[F1, S1])


def v_syn(th):
    out = []
    k = 0
    for N, f0 in ((5, 0.0), (6, 0.25), (9, 0.125), (4, 0.5)):
        for t0, nt, dt in (((0.0, 8, 0.25), (10.0, 9, 0.5), (-1.0, 12, 0.25), (0.0, 7, 1.0), (-20.0, 8, 0.5)) if V.NS_OVERRIDE[0] is None else
                           tuple((0.5, n, 0.25) for n in V.NS_OVERRIDE[0])):
            k += 1
            f = f0 + 0.25 * np.arange(N)
            S = V.dy(np.abs(V.rs(900 + k).randn(N)) + 0.125)
            out.append({"N": N, "f": f, "S": S, "t0": t0, "t1": t0 + (nt - 1) * dt - 0.25 * dt, "dt": dt,
                        "seed": (0, 7, -1, 123, -2)[(k + k // 5) % 5]})
    return out


SYN = [FA, SA, In("t0", "num", T1), In("t1", "num", T1), In("dt", "num", T1, lo=0, lo_strict=True)]
SEED = In("seed", "int", O)
add("synthesis", CS + "spectrum2timeseries", SYN + [SEED],
    lambda w, x: w.call(CS + "spectrum2timeseries", x.f, x.S, x.t0, x.t1, x.dt, x.seed), v_syn,
    lambda w, x: w.call("ref:spectrum2timeseries", x.f, x.S, x.t0, x.t1, x.dt, x.seed), outs=[T1, L1])
add("synthesis:unseeded", CS + "spectrum2timeseries", SYN,
    lambda w, x: w.call(CS + "spectrum2timeseries", x.f, x.S, x.t0, x.t1, x.dt), v_syn,
    lambda w, x: w.call("ref:spectrum2timeseries", x.f, x.S, x.t0, x.t1, x.dt), outs=[T1, L1])


def tx(w, o):
    return w.attr(o, "time"), w.attr(o, "xTime")


add("synthesis_object", CS + "spectrum2timeseries_object", SYN + [SEED],
    lambda w, x: tx(w, w.call(CS + "spectrum2timeseries_object", x.f, x.S, x.t0, x.t1, x.dt, x.seed)), v_syn,
    lambda w, x: w.call("ref:spectrum2timeseries", x.f, x.S, x.t0, x.t1, x.dt, x.seed), outs=[T1, L1])
add("create_series:dirs", "spectrum:Spectrum.create_series", SYN,
    lambda w, x: tx(w, w.method(spec2(w, x), "create_series", x.t0, x.t1, x.dt)), lambda th: v_syn(th)[::4],
    lambda w, x: w.call("ref:spectrum2timeseries", x.f, x.S, x.t0, x.t1, x.dt), outs=[T1, L1])
add("create_series", "spectrum:Spectrum.create_series", SYN,
    lambda w, x: tx(w, w.method(spec(w, x), "create_series", x.t0, x.t1, x.dt)), v_syn,
    lambda w, x: w.call("ref:spectrum2timeseries", x.f, x.S, x.t0, x.t1, x.dt), outs=[T1, L1])


def v_welch(th):
    out = []
    for k, N in enumerate(V.sizes((40, 64, 51))):
        for npg, nov, nfft in ((0, 0, 0), (16, 0, 0), (16, 4, 0), (16, 0, 32), (20, 5, 40)):
            for dt in (0.5, 0.125):
                out.append({"N": N, "x": V.signal(N, 40 + k), "dt": dt, "npg": npg, "nov": nov, "nfft": nfft})
    return out


WW = CS + "compute_spectrum_welch_wrapper"
add("welch", WW, [XA, In("dt", "num", T1, lo=0, lo_strict=True), In("npg", "int", O, lo=0), In("nov", "int", O, lo=0), In("nfft", "int", O, lo=0)],
    lambda w, x: w.call(WW, x.x, x.dt, x.npg, x.nov, x.nfft), v_welch,
    lambda w, x: w.call("ref:welch_density", x.x, x.dt, x.npg, x.nov, x.nfft), outs=[F1, S1])
add("welch:none", WW, [XA, In("dt", "num", T1, lo=0, lo_strict=True)], lambda w, x: w.call(WW, x.x, x.dt),
    lambda th: [d for d in v_welch(th) if d["npg"] == 0], lambda w, x: w.call("ref:welch_density", x.x, x.dt), outs=[F1, S1])
for _wn in ("hann", "hamming", "boxcar"):
    add("welch:" + _wn, WW, [XA, In("dt", "num", T1, lo=0, lo_strict=True), In("npg", "int", O, lo=0)],
        lambda w, x, wn=_wn: w.call(WW, x.x, x.dt, x.npg, window_type=wn), v_welch,
        lambda w, x, wn=_wn: w.call("ref:welch_density", x.x, x.dt, x.npg, 0, 0, wn), outs=[F1, S1])

# ------------------------------------------------------------------ wave by wave analysis
CT_ = "core_time:"
HW = In("h", "arr", L1, role="data", lo=0)
TW = In("T", "arr", T1, role="data", lo=0)


def v_ws(extra=None, **kw):
    def g(th):
        return [dict(d, **e) for d in V.wavesets(th, **kw) for e in (extra(d) if extra else [{}])]
    return g


def fracs(d):
    n = d["N"]
    return [{"p": p} for p in (0.0, 0.125, 0.25, 0.3125, 0.5, 0.6875, 0.875, 1.0, 1 / 3)]


def percs(d):
    return [{"P": P} for P in (0.0, 0.5, 2.0, 6.25, 12.5, 25.0, 37.5, 50.0, 62.5, 90.0, 99.5, 100.0)]


def sorted_h(g):
    def q(th):
        out = []
        for d in g(th):
            o = np.argsort(-d["h"], kind="stable")
            out.append(dict(d, h=d["h"][o], T=d["T"][o]))
        return out
    return q


PF = In("p", "num", O, domain=(0.01, 1.0))
PP = In("P", "num", O, domain=(1.0, 100.0))
add("sort", CT_ + "sort_wave_params", [HW, TW], lambda w, x: w.call(CT_ + "sort_wave_params", x.h, x.T), v_ws(),
    lambda w, x: w.call("ref:sort_waves", x.h, x.T), outs=[L1, T1], lo=1)
add("highest", CT_ + "highest_waves_params", [HW, TW, PF], lambda w, x: w.call(CT_ + "highest_waves_params", x.h, x.T, x.p),
    sorted_h(v_ws(fracs)), lambda w, x: w.call("ref:highest", x.h, x.T, x.p), outs=[L1, T1], lo=1)
add("exceedance", CT_ + "exceedance_wave_height", [HW, PP], lambda w, x: w.call(CT_ + "exceedance_wave_height", x.h, x.P),
    sorted_h(v_ws(percs)), lambda w, x: w.call("ref:exceeded", x.h, x.P), outs=[L1], lo=1)
for _dir in ("up", "down"):
    add("crossing:" + _dir, CT_ + "determine_zero_crossing", [TA, XA],
        lambda w, x, d=_dir: w.call(CT_ + "determine_zero_crossing", x.t, x.x, d), v_times(kinds=("noise", "wave", "ties", "offset", "ties", "tiny", "touch", "touch")),
        lambda w, x, d=_dir: w.call("ref:zero_crossing", x.t, x.x, d == "up"), outs=[O, T1])
add("crossing", CT_ + "determine_zero_crossing", [TA, XA], lambda w, x: w.call(CT_ + "determine_zero_crossing", x.t, x.x), v_times(),
    lambda w, x: w.call("ref:zero_crossing", x.t, x.x, False), outs=[O, T1])


def v_waves(th):
    out = []
    for d in V.times(th, ("noise", "wave", "ties", "tiny")):
        t = d["t"]
        dt = t[1] - t[0]
        n = len(t)
        for tc in ([0.25, 2.75, n - 1.75], [0, 3, n - 1], [1.5, 3.25], [0.5, 1.5, 2.5, 5.25], [2.25, n - 1.25]):
            out.append(dict(d, tc=t[0] + dt * np.array(tc), M=len(tc)))
    return out


add("waves", CT_ + "determine_params_individual_waves", [In("tc", "arr", T1, shape=("M",), role="time"), TA, XA],
    lambda w, x: w.call(CT_ + "determine_params_individual_waves", x.tc, x.t, x.x), v_waves,
    lambda w, x: w.call("ref:waves", x.tc, x.t, x.x), outs=[L1, T1, L1, L1, T1, T1])

# ------------------------------------------------------------------ wave height object
WH = "series:WaveHeights"


def wh(w, x):
    return w.call(WH, x.h, x.T)


def whsub(name, meth, ref, ins=(), vals=None, outs=None, args=()):
    add("wh." + name, "series:WaveHeights." + meth, [HW, TW] + list(ins),
        lambda w, x: w.method(wh(w, x), meth, *[x[a] for a in args]), vals or v_ws(),
        ref, outs=outs, lo=1)


whsub("Hrms", "get_Hrms", lambda w, x: w.call("ref:hrms", x.h), outs=[L1])
whsub("Hmax", "get_Hmax", lambda w, x: w.call("ref:hmax", x.h), outs=[L1])
whsub("Hs", "get_Hs", lambda w, x: w.call("ref:highest_third", x.h, x.T), outs=[L1, T1])
whsub("H2p", "get_H2p_Rayleigh", lambda w, x: w.call("ref:h2p", x.h, x.T), outs=[L1])
whsub("exceedance", "get_exceedance_waveheight", lambda w, x: w.call("ref:exceeded_of", x.h, x.T, x.P), [PP], v_ws(percs), [L1], ["P"])
whsub("highest", "highest_waves", lambda w, x: w.call("ref:highest_of", x.h, x.T, x.p), [PF], v_ws(fracs), [L1, T1], ["p"])


def wh_sort(w, x):
    o = wh(w, x)
    w.method(o, "sort")
    return w.attr(o, "hwave"), w.attr(o, "twave")


add("wh.sort", "series:WaveHeights.sort", [HW, TW], wh_sort, v_ws(), lambda w, x: w.call("ref:sort_waves", x.h, x.T),
    outs=[L1, T1], lo=1)
add("wh.data", "series:WaveHeights", [HW, TW],
    lambda w, x: (lambda o: (w.attr(o, "hwave"), w.attr(o, "twave"), w.attr(o, "nwave")))(wh(w, x)), v_ws(),
    lambda w, x: (x.h, x.T, w.call("ref:length", x.h)), outs=[L1, T1, O], lo=1)

# ------------------------------------------------------------------ series object
SE = "series:Series"


def ser(w, x):
    return w.call(SE, x.t, x.x)


def sesub(name, meth, ref, ins=(), vals=None, outs=None, args=(), kw=None, post=None, linear=()):
    add("se." + name, "series:Series." + meth, [TA, XA] + list(ins),
        lambda w, x: (post or (lambda w, v: v))(w, w.method(ser(w, x), meth, *[x[a] for a in args], **(kw or {}))),
        vals or v_times(), ref, outs=outs, linear=linear)


for _n, _r in (("max", "largest"), ("min", "smallest"), ("mean", "mean")):
    sesub(_n, _n, lambda w, x, r=_r: w.call("ref:" + r, x.x), outs=[L1])
sesub("var", "var", lambda w, x: w.call("ref:variance", x.x), outs=[dim(2)])
sesub("skewness", "get_skewness", lambda w, x: w.call("ref:skewness", x.x), outs=[O])
sesub("asymmetry", "get_asymmetry", lambda w, x: w.call("ref:asymmetry", x.x), outs=[O])
sesub("crossing", "get_crossing", lambda w, x: w.call("ref:zero_crossing", x.t, x.x, False), outs=[O, T1])
for _dir in ("up", "down"):
    sesub("crossing:" + _dir, "get_crossing", lambda w, x, d=_dir: w.call("ref:zero_crossing", x.t, x.x, d == "up"),
          outs=[O, T1], kw={"typeCross": _dir})
sesub("fourier", "get_fourier_comp", lambda w, x: w.call("ref:nyquist", x.t, x.x), outs=[F1, L1, None], linear=("x",))
sesub("bandpass", "get_bandpassfilter", lambda w, x: (x.t, w.call("ref:bandpass", x.t, x.x, x.flow, x.fhigh)), [FLO, FHI],
      v_times(extra=bands_t, kinds=("noise", "wave"), Ns=(8, 9, 12)), [T1, L1], ["flow", "fhigh"], post=tx)


def fs(w, o):
    return w.attr(o, "f"), w.attr(o, "sVarDens")


def dfs_t1(d):
    return [e for e in dfs_t(d) if e["df"] != 0.0 or True]


sesub("spectrum_raw", "get_spectrum_raw", lambda w, x: w.call("ref:spectrum_time", x.t, x.x, x.df), [DF],
      lambda th: v_times(extra=dfs_t, kinds=("noise", "wave"), Ns=(12, 15, 16))(th) +
      [dict(d, t=d["t"] * 64, df=0.0) for d in V.times(th, ("noise",), (15, 16))], [F1, S1], ["df"], post=fs)
sesub("spectrum_raw:default", "get_spectrum_raw", lambda w, x: w.call("ref:spectrum_time", x.t, x.x, 0.01),
      outs=None, post=fs, vals=lambda th: [dict(d, t=d["t"] * 16) for d in V.times(th, ("noise",), (16, 33, 40))])


def v_sewelch(th):
    out = []
    for k, N in enumerate(V.sizes((64, 81))):
        for dt in (0.5, 1.0):
            for df in (0.0625, 0.11, 0.09, 0.075):
                out.append({"N": N, "t": dt * np.arange(N), "x": V.signal(N, 60 + k), "df": df, "nfft": 64,
                            "npg": 20, "nov": 6})
    return out


sesub("spectrum:df", "get_spectrum", lambda w, x: w.call("ref:welch_resolution", x.x, w.call("ref:step", x.t), x.df), [DF],
      v_sewelch, None, kw=None, post=fs)
SUBJECTS["se.spectrum:df"].call = lambda w, x: fs(w, w.method(ser(w, x), "get_spectrum", dfDesired=x.df))
sesub("spectrum:nfft", "get_spectrum",
      lambda w, x: w.call("ref:welch_resolution", x.x, w.call("ref:step", x.t), x.df, x.nfft, "hamming"),
      [DF, In("nfft", "int", O, lo=0)], v_sewelch, None, post=fs)
SUBJECTS["se.spectrum:nfft"].call = lambda w, x: fs(w, w.method(ser(w, x), "get_spectrum", nfft=x.nfft, windows_type="hamming", dfDesired=x.df))
sesub("spectrum:seg", "get_spectrum",
      lambda w, x: w.call("ref:welch_density", x.x, w.call("ref:step", x.t), x.npg, x.nov, x.nfft),
      [In("npg", "int", O, lo=0), In("nov", "int", O, lo=0), In("nfft", "int", O, lo=0)], v_sewelch, None, post=fs)
SUBJECTS["se.spectrum:seg"].call = lambda w, x: fs(w, w.method(ser(w, x), "get_spectrum", nperseg=x.npg, noverlap=x.nov, nfft=x.nfft, use_dfDesired=False))
sesub("spectrum:default", "get_spectrum", lambda w, x: w.call("ref:welch_resolution", x.x, w.call("ref:step", x.t), 0.01),
      (), lambda th: [{"N": N, "t": 2.0 * np.arange(N), "x": V.signal(N, 61)} for N in (120, 151)], None, post=fs)
sesub("spectrum:noseg", "get_spectrum", lambda w, x: w.call("ref:welch_density", x.x, w.call("ref:step", x.t), 256),
      (), lambda th: [{"N": N, "t": 2.0 * np.arange(N), "x": V.signal(N, 61)} for N in (300, 520)], None, kw={"use_dfDesired": False}, post=fs)


def se_data(w, x):
    o = ser(w, x)
    return tuple(w.attr(o, a) for a in ("time", "xTime", "dt", "nt", "hwave", "twave", "tCross", "nwave"))


def se_data_ref(w, x):
    (a) = w.call("ref:series_data", x.t, x.x)
    return a


add("se.data", SE, [TA, XA], se_data, v_times(), se_data_ref, outs=[T1, L1, T1, O, L1, T1, T1, O])
FC, HMIN = In("fc", "num", F1, lo=0), In("hm", "num", L1)


def reanalyses(d):
    n, dt = len(d["t"]), d["t"][1] - d["t"][0]
    hs = sorted({0.0, 0.5, 1.75, float(np.max(d["x"]) - np.min(d["x"])), 100.0})
    return [{"fc": k / (n * dt), "hm": h} for k in (0.0, 1.0, 2.5) for h in hs]


def se_waves(up):
    def call(w, x):
        o = ser(w, x)
        v = w.method(o, "_determine_individual_waves", typeCross="up" if up else "down", fcutoff=x.fc, minimum_wave=x.hm)
        if v.op not in ("tuple", "list") or len(v.args) < 6:
            raise Unsupported("an internal function with another result")
        return tuple(v.args[:6]) + tuple(w.attr(o, a) for a in ("hwave", "twave", "nwave"))
    return call


for _up in (False, True):
    add("se._waves:" + ("up" if _up else "down"), "series:Series._determine_individual_waves", [TA, XA, FC, HMIN], se_waves(_up),
        v_times(kinds=("noise", "ties"), Ns=(9, 12), extra=reanalyses), lambda w, x, u=_up: w.call("ref:reanalysed", x.t, x.x, u, x.fc, x.hm),
        outs=[L1, T1, L1, L1, T1, T1, L1, T1, O]).internal = ("typeCross", "fcutoff", "minimum_wave")


def inherited(name, meth, ref, ins=(), args=(), outs=None, extra=None):
    sesub("wh." + name, meth, ref, list(ins), v_times(kinds=("noise", "wave"), Ns=(12, 15, 21), extra=extra), outs, list(args))
    SUBJECTS["se.wh." + name].entry = "series:WaveHeights." + meth


inherited("Hrms", "get_Hrms", lambda w, x: w.call("ref:of_series_hrms", x.t, x.x), outs=[L1])
inherited("Hmax", "get_Hmax", lambda w, x: w.call("ref:of_series_hmax", x.t, x.x), outs=[L1])
inherited("Hs", "get_Hs", lambda w, x: w.call("ref:of_series_third", x.t, x.x), outs=[L1, T1])
inherited("H2p", "get_H2p_Rayleigh", lambda w, x: w.call("ref:of_series_h2p", x.t, x.x), outs=[L1])
inherited("highest", "highest_waves", lambda w, x: w.call("ref:of_series_highest", x.t, x.x, x.p), [PF], ["p"], [L1, T1],
          lambda d: [{"p": 0.25}, {"p": 0.625}, {"p": 1.0}])
inherited("exceedance", "get_exceedance_waveheight", lambda w, x: w.call("ref:of_series_exceeded", x.t, x.x, x.P), [PP], ["P"],
          [L1], lambda d: [{"P": 25.0}, {"P": 62.5}, {"P": 100.0}])

for _k in ("crossing", "crossing:up", "crossing:down", "se.crossing", "se.crossing:up", "se.crossing:down"):
    SUBJECTS[_k].lo = 2

# ------------------------------------------------------------------ wave decomposition
ZS = "core_wave_decomposition:decompose_linear_ZS"


def layout(nl):
    return {2: [0.0, 1.25], 3: [0.5, 1.5, 3.25], 4: [-2.0, -1.25, 0.5, 2.75], 8: [-2.0, -1.25, 0.5, 2.75, 3.25, 4.5, 6.0, 6.75]}[nl]


def cyc(ws, nl):
    return np.array([ws[q % 4] for q in range(nl)])


def v_zs(nl, detlim=False):
    def g(th):
        out = []
        for k, N in enumerate(V.sizes((6, 7, 10), (13,), th)):
            for j, h in enumerate((1.0, 3.0, 12.0)):
                r = V.rs(1000 + 10 * k + j)
                wl = [np.ones(nl), cyc([1.0, 0.75, 0.5, 1.0], nl), cyc([0.5, 1.0, 0.25, 0.0], nl)][j]
                for e in ([{"detlim": v} for v in (0.125, 0.5, 0.0)] if detlim else [{}]):
                    dt = (0.25, 0.5, 0.75)[(k + j) % 3]
                    out.append(dict({"N": N, "t": (0.0, 2.0, -4.0)[j] + dt * np.arange(N), "x": V.dy(r.randn(N, nl)),
                                     "h": h, "xl": np.array(layout(nl)), "wl": wl}, **e))
                    if nl > 2 and j == 2:
                        # a gauge that is switched off
                        out.append(dict(out[-1], wl=cyc([0.0, 0.75, 1.0, 0.5], nl)))
        return out
    return g


def zs_ins(nl):
    return [In("t", "arr", T1, role="time", still=True), In("x", "arr", L1, shape=("N", nl), role="data"),
            In("h", "num", X1, domain=(0.05, 5000.0), still=True, lo=0, lo_strict=True, finite=True),
            In("xl", "arr", X1, shape=(nl,), role="place", still=True), In("wl", "arr", O, shape=(nl,), lo=0)]


DL = In("detlim", "num", O)
for _nl in (2, 3, 4):
    add("zs%d" % _nl, ZS, zs_ins(_nl), lambda w, x: w.call(ZS, x.t, x.x, x.h, x.xl, x.wl), v_zs(_nl),
        lambda w, x: w.call("ref:decompose", x.t, x.x, x.h, x.xl, x.wl), outs=None, linear=("x",))
    add("zs%d:lim" % _nl, ZS, zs_ins(_nl) + [DL], lambda w, x: w.call(ZS, x.t, x.x, x.h, x.xl, x.wl, x.detlim), v_zs(_nl, True),
        lambda w, x: w.call("ref:decompose", x.t, x.x, x.h, x.xl, x.wl, x.detlim), outs=None, linear=("x",))


# a long row of gauges
add("many_gauges", ZS, zs_ins(8), lambda w, x: w.call(ZS, x.t, x.x, x.h, x.xl, x.wl), v_zs(8),
    lambda w, x: w.call("ref:decompose", x.t, x.x, x.h, x.xl, x.wl), outs=None)


def zs_series(w, x):
    s1, s2, s3 = (w.call(SE, x.t, w.call("ref:column", x.x, i)) for i in range(3))
    r = w.call(ZS + "_series", w.lst("series", (s1, s2, s3)), x.h, x.xl, x.wl, x.detlim)
    a, b = w.unpack2(r)
    return tx(w, a) + tx(w, b)


add("zs_series", ZS + "_series", zs_ins(3) + [DL], zs_series, v_zs(3, True),
    lambda w, x: (lambda r: (x.t, r[0], x.t, r[1]))(w.unpack2(w.call("ref:decompose", x.t, x.x, x.h, x.xl, x.wl, x.detlim))),
    outs=None)
