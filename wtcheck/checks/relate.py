"""Relational properties: two programs over the same entry points have the same value graph."""
from __future__ import annotations

import numpy as np

from .. import vals as V
from ..decide import NS, Run
from ..ctx import TooBig
from ..guided import guard_literals
from ..homog import ANY, degrees, shifts
from ..engine import plan, select, task
from ..ir import C, Node, mk, sym
from ..plots import PLOTS
from ..subjects import (F1, FA, L1, O, SA, SUBJECTS, T1, TA, XA, In, lims, one_lim, ser, spec, v_spectra, wh, WH, SE, SP, fs, tx,
                        bands_t, dfs_t)
from .conf import by_definition, GVN, conf

# ------------------------------------------------------------------ C02
RULE2 = ("relational value-graph comparison over histories: constructor; m; q and constructor; q yield the same graph for every pair of "
         "public methods m, q (thorough: also triples)")
LIM1 = {"fmin": mk("sym", "a1"), "fmax": mk("sym", "b1")}
LIM2 = {"fmin": mk("sym", "a2"), "fmax": mk("sym", "b2")}
SPQ = ("get_Hm0", "get_Hm0_HF", "get_Hm0_LF", "get_Tps", "get_Tp", "get_Tmm10", "get_Tmm10_HF", "get_Tmm10_LF", "get_Tm01", "get_Tm02",
       "get_s0p", "get_smm10", "get_smm10_HF")


def flat(w, v):
    """Observable part of a result: objects give their data."""
    if v.op == "obj":
        out = []
        for a in ("time", "xTime", "f", "sVarDens", "hwave", "twave"):
            q = w.st.objs[v.args[0]].get(a)
            if q is not None:
                out.append(q)
        return mk("tuple", *out)
    if v.op == "tuple":
        return mk("tuple", *[flat(w, q) for q in v.args])
    return v


METHODS = {
    "spectrum": {**{q: ((), {}) for q in SPQ}, "plot": ((), {}), "create_series": ((0.0, 8.0, 1.0), {})},
    "waves": {"sort": ((), {}), "get_Hrms": ((), {}), "get_Hmax": ((), {}), "get_Hs": ((), {}), "get_H2p_Rayleigh": ((), {}),
              "get_exceedance_waveheight": (("P",), {}), "highest_waves": (("p",), {}),
              "plot_exceedance_waveheight": ((), {}), "plot_exceedance_waveheight_Rayleigh": ((), {}),
              "plot_exceedance_waveheight_Rayleigh:n": ((), {"normalize": True}), "plot_hist_waveheight": ((), {})},
    "series": {"get_crossing": ((), {}), "get_crossing:up": (("up",), {}), "get_skewness": ((), {}), "get_asymmetry": ((), {}),
               "get_spectrum": ((), {"use_dfDesired": False}), "get_spectrum_raw": ((), {"dfDesired": 0.25}), "max": ((), {}), "min": ((), {}),
               "mean": ((), {}), "var": ((), {}), "get_bandpassfilter": ((0.0625, 0.375), {}), "get_fourier_comp": ((), {}), "plot": ((), {}),
               "plot:c": ((), {"plot_crossing": True}),
               "sort": ((), {}), "get_Hrms": ((), {}), "get_Hmax": ((), {}), "get_Hs": ((), {}), "get_H2p_Rayleigh": ((), {}),
               "get_exceedance_waveheight": (("P",), {}), "highest_waves": (("p",), {}),
               "plot_exceedance_waveheight": ((), {}), "plot_hist_waveheight": ((), {})},
}
CTOR = {"spectrum": spec, "waves": wh, "series": ser}
BASE = {"spectrum": "get_Tp:none", "waves": "wh.Hrms", "series": "se.max"}
CLS = {"spectrum": SP, "waves": WH, "series": SE}


def do(w, o, kind, m, var):
    """Call method m; var selects the arguments: 0 none, 1 / 2 the first / second set of limits."""
    if kind == "spectrum" and m in SPQ and var:
        return w.method(o, m, **(LIM1 if var == 1 else LIM2))
    a, kw = METHODS[kind][m]
    a = [mk("sym", q + str(var)) if q in ("P", "p") else q for q in a]
    return w.method(o, m.split(":")[0], *a, **kw)


def hist_build(kind):
    s = SUBJECTS[BASE[kind]]

    def b(w):
        x = s.build()(w)
        for n in ("a1", "b1", "a2", "b2", "P0", "P1", "P2", "p0", "p1", "p2"):
            w.num(n)
        return x
    return b


_HV = {}


def hist_vals(kind, thorough):
    k = (kind, thorough)
    if k not in _HV:
        out = []
        if kind == "spectrum":
            for d in v_spectra(f0s=(0.125, 0.25))(thorough)[:: 4 if not thorough else 2]:
                f = d["f"]
                n = len(f)
                df = f[1] - f[0]
                for a1, b1, a2, b2 in ((f[1], f[n // 2 + 1], f[0], f[-2]), (f[n // 2 - 1], f[-1] * 1.5, f[2], f[-1]),
                                       (f[0], f[n // 2], f[n // 2 - 2], f[-1]), (f[2], f[-3], f[2] + df / 1024, f[-3]),
                                       (f[1], f[-3], f[1], f[-3] - df / 1024)):
                    out.append(dict(d, a1=float(a1), b1=float(b1), a2=float(a2), b2=float(b2)))
        elif kind == "waves":
            for k2, d in enumerate(V.wavesets(thorough)):
                out.append(dict(d, P0=50.0, p0=0.5, P1=(12.5, 100.0, 62.5)[k2 % 3], p1=(0.25, 1.0, 0.625)[k2 % 3], P2=37.5, p2=0.375))
            for k2, (N, a, b) in enumerate(((64, 37.875, 37.0), (64, 36.625, 37.375), (160, 12.5, 13.25), (640, 25.0625, 24.9375))):
                # two questions that are nearly the same
                h = 0.25 * np.arange(1.0, N + 1)[np.argsort(np.sin(7.0 * np.arange(N) + k2))]
                out.append(dict(N=N, h=h, T=3 + 0.0625 * np.argsort(np.cos(5.0 * np.arange(N))), P0=50.0, p0=0.5, P1=a, P2=b, p1=a / 100, p2=b / 100))
        else:
            more = [{"N": len(q), "t": 0.5 * np.arange(len(q)), "x": np.array(q, float)} for q in (
                [-1, 1, 2, 1, -1, -2, 1, 3, 1, -1, -1, 2], [1, -1, -2, 1, 1, -1, -1.5, 2, 1, -1, 2, -3], [-1, 2, -2, 1, -1, 3, -3, 1, 0.5, -0.5, 1, 1])]
            for k2, d in enumerate(V.times(thorough, ("noise", "wave"), (12, 15, 21)) + more):
                out.append(dict(d, P0=50.0, p0=0.5, P1=(25.0, 100.0, 62.5)[k2 % 3], p1=(0.25, 1.0, 0.625)[k2 % 3], P2=37.5, p2=0.375))
        _HV[k] = out
    return _HV[k]


@task
def c02_history(ck, kind, ms, q, vq, thorough):
    """ms: sequence of (method, variant) before the query q."""
    def after(w, x):
        o = CTOR[kind](w, x)
        for m, v in ms:
            do(w, o, kind, m, v)
        return flat(w, do(w, o, kind, q, vq))

    def fresh(w, x):
        o = CTOR[kind](w, x)
        return flat(w, do(w, o, kind, q, vq))
    name = "%s: %s after %s" % (kind, q + (":limits" if vq and q in SPQ else ""), ", ".join(
        m + (":limits" if v and m in SPQ else "") for m, v in ms))
    mm = q.split(":")[0]
    entry = "%s.%s" % (CLS[kind], mm)
    vals = hist_vals(kind, thorough)
    if len(ms) > 1:
        vals = vals[::3]
    ck.conform(name, entry, hist_build(kind), after, fresh, vals, rule=RULE2)


@task
def c02_reanalysis(ck, ms, q, thorough):
    """Queries before a new analysis of the individual waves do not matter after it."""
    s = SUBJECTS["se._waves:down"]
    if not ck.exists(s.entry, s.internal):
        return

    def fresh(w, x):
        o = ser(w, x)
        w.method(o, "_determine_individual_waves", typeCross="up")
        return flat(w, do(w, o, "series", q, 2))

    def after(w, x):
        o = ser(w, x)
        for m, v in ms:
            do(w, o, "series", m, v)
        w.method(o, "_determine_individual_waves", typeCross="up")
        return flat(w, do(w, o, "series", q, 2))
    ck.conform("series: %s after %s and a new wave analysis" % (q, ", ".join(m for m, v in ms)), "%s.%s" % (SE, q.split(":")[0]), hist_build("series"),
               after, fresh, hist_vals("series", thorough), rule=RULE2)


@task
def c02_crossing_again(ck, arg, again, thorough):
    """The crossings of the record are those of the record, whatever individual waves were last determined."""
    s = SUBJECTS["se._waves:down"]
    if not ck.exists(s.entry, s.internal):
        return
    kw = {"typeCross": arg} if arg else {}

    def fresh(w, x):
        return w.method(ser(w, x), "get_crossing", **kw)

    def after(w, x):
        o = ser(w, x)
        w.method(o, "_determine_individual_waves", **again)
        return w.method(o, "get_crossing", **kw)
    ck.conform("series: crossings (%s) after a wave analysis with %s" % (arg or "default", again), SE + ".get_crossing", hist_build("series"),
               after, fresh, hist_vals("series", thorough), rule=RULE2)


CROSS_AGAIN = [(a, b) for a in ("", "down", "up") for b in ({"typeCross": "up"}, {"typeCross": "down"}, {"minimum_wave": 1.0}, {"fcutoff": 0.0625})]
WAVEQ = ("get_Hs", "get_exceedance_waveheight", "highest_waves", "get_Hmax", "get_H2p_Rayleigh")
NUMERIC = lambda k: [m for m in METHODS[k] if not m.startswith(("plot", "sort", "create"))]  # noqa: E731
HEAVY = {"get_smm10_HF", "get_Hm0_HF", "get_Tmm10_HF", "get_Hm0_LF", "get_Tmm10_LF"}


@plan("C02", RULE2, "value-graph conformance of the joint sort with a stable joint permutation by descending height")
def c02(tier):
    th = tier == "thorough"
    jobs = [("conform", (k, th)) for k in ("sort", "wh.sort", "se.data", "wh.data")]
    for q in NUMERIC("spectrum"):
        for m in METHODS["spectrum"]:
            lm = m in SPQ
            jobs.append(("c02_history", ("spectrum", ((m, 1 if lm else 0),), q, 0, th)))
            jobs.append(("c02_history", ("spectrum", ((m, 1 if lm else 0),), q, 2, th)))
            if lm:
                jobs.append(("c02_history", ("spectrum", ((m, 0),), q, 2, th)))
        if th:
            for m in SPQ:
                for m2 in SPQ:
                    if m != m2 and m not in HEAVY and m2 not in HEAVY:
                        jobs.append(("c02_history", ("spectrum", ((m, 1), (m2, 0)), q, 0, th)))
    jobs += [("c02_crossing_again", (a, b, th)) for a, b in CROSS_AGAIN]
    for q in WAVEQ:
        for m in WAVEQ + ("sort", "plot_exceedance_waveheight"):
            jobs.append(("c02_reanalysis", (((m, 1),), q, th)))
    for kind in ("waves", "series"):
        for q in NUMERIC(kind):
            for m in METHODS[kind]:
                jobs.append(("c02_history", (kind, ((m, 1),), q, 2, th)))
            if th and kind == "waves":
                for m in METHODS[kind]:
                    for m2 in METHODS[kind]:
                        jobs.append(("c02_history", (kind, ((m, 1), (m2, 0)), q, 2, th)))
    return jobs


# ------------------------------------------------------------------ C04
RULE4 = ("shift inference: how every node of the graph moves with the axis (a type claimed only if it holds for all data); otherwise relational value-graph comparison: the graph for t + d (gauges at x + d) equals the graph for t (x), with d added to the results "
         "that are points of time")
# which results shift with the time axis
TSHIFT = {"crossing": (0, 1), "crossing:up": (0, 1), "crossing:down": (0, 1), "waves": (0, 0, 0, 0, 1, 1), "se.data": (1, 0, 0, 0, 0, 0, 1, 0),
          "se.crossing": (0, 1), "se.crossing:up": (0, 1), "se.crossing:down": (0, 1), "se.bandpass": (1, 0), "zs_series": (1, 0, 1, 0),
          "se._waves:down": (0, 0, 0, 0, 1, 1, 0, 0, 0), "se._waves:up": (0, 0, 0, 0, 1, 1, 0, 0, 0)}


def moved(role, by):
    def hook(w, i, v):
        if i.role == role:
            return w.box(mk("add", w.raw(v), by))
        return v
    return hook


def with_delta(s):
    b0 = s.build()

    def b(w):
        x = b0(w)
        w.num("delta")
        return x
    return b


def hooked(s, hook):
    def prog(w, x):
        y = NS(x)
        for i in s.ins:
            if i.name in y:
                y[i.name] = hook(w, i, x[i.name])
        return s.call(w, y)
    return prog


def shifted(w, v, mask):
    """Adds delta to the marked results."""
    if isinstance(v, Node) and v.op == "tuple":
        v = v.args
    d = mk("sym", "delta")
    if isinstance(v, tuple):
        return tuple(mk("add", w.raw(q), d) if m else w.raw(q) for q, m in zip(v, mask))
    return mk("add", w.raw(v), d) if mask and mask[0] else w.raw(v)


def by_shift(ck, s, role, mask):
    """Shift inference over the extracted graph proves the relation for all data and all shifts."""
    def proof():
        r = Run(s.build(), s.call, pkg=ck.pkg)
        if r.error or r.dead:
            return None
        try:
            got, one, g = shifts(r, [i.name for i in s.ins if i.role == role])
        except (TooBig, RecursionError):
            return None
        if all(t == ANY or (t is one if k < len(mask) and mask[k] else t == 0) for k, t in enumerate(got)):
            return "shift inference, %d nodes typed" % len(g.memo)
        return None
    return proof


@task
def c04_shift(ck, key, role, thorough):
    s = SUBJECTS[key]
    mask = TSHIFT.get(key, ()) if role == "time" else ()
    ds = (16.0, -3.5, 2.0 ** 22 + 0.5) if role == "time" else (2.5, -1.25, 2.0 ** 22 + 0.25)

    def ref(w, x):
        v = s.call(w, x)
        if isinstance(v, Node) and v.op == "tuple":
            v = v.args
        if not mask:
            return v
        return shifted(w, v, mask)
    vals = [dict(v, delta=ds[k % 3]) for k, v in enumerate(s.vals(thorough))]
    ck.conform("%s: shifted %s" % (key, "time axis" if role == "time" else "gauges"), s.entry, with_delta(s),
               hooked(s, moved(role, mk("sym", "delta"))), ref, vals, rule=RULE4, tol=1e-6, proof=by_shift(ck, s, role, mask),
               s=s, lits=guard_literals)


@plan("C04", RULE4)
def c04(tier):
    th = tier == "thorough"
    jobs = []
    for k, s in SUBJECTS.items():
        if any(i.role == "time" for i in s.ins):
            jobs.append(("c04_shift", (k, "time", th)))
        if any(i.role == "place" for i in s.ins):
            jobs.append(("c04_shift", (k, "place", th)))
    return jobs


# ------------------------------------------------------------------ C05
RULE5 = ("degree inference: linearity, homogeneity and parity of every node in the data; otherwise relational value-graph comparison: the graph for a x + b y equals a times the graph for x plus b times the graph for y; spectral "
         "estimates for a x equal a^2 times those for x; the frequency axis does not change")
# results that are axes (not scaled)
AXES = {"time2freq": (0,), "time2freq_nyquist": (0, 2), "unfold:odd": (0,), "unfold:even": (0,), "average": (0,), "average:none": (0,),
        "average:complex": (0,), "se.fourier": (0, 2)}


def lin_build(s, names):
    b0 = s.build()

    def b(w):
        x = b0(w)
        for n in names:
            i = s.inp(n)
            shp = tuple(x["_sizes"].get(q, q) for q in i.shape)
            x[n + "2"] = w.arr(n + "2", shp, i.dtype)
        w.num("al")
        w.num("be")
        return x
    return b


def lin_vals(s, names, thorough):
    out = []
    for k, v in enumerate(s.vals(thorough)):
        d = dict(v, al=(2.0, -0.5, 3.0)[k % 3], be=(0.75, 1.5, -1.25)[k % 3])
        for n in names:
            d[n + "2"] = np.roll(v[n], 3, axis=0)[::-1] * 0.5
        out.append(d)
        if k >= 24:
            continue
        # a strong regular wave together with a weak irregular one
        e = dict(d)
        for n in names:
            x = np.asarray(v[n])
            m = x.shape[0]
            c = np.arange(m) * (2.0 * np.pi * (1 + k % 2) / max(m, 1))
            if x.dtype.kind == "c":
                y = np.where(np.arange(m) == min(2, m - 1), 1.0 + 0.5j, 0.0)
            elif x.ndim == 1:
                y = np.cos(c) if k % 3 else np.ones(m)
            else:
                kw = wavenumber((1 + k % 2) / (m * float(v["t"][1] - v["t"][0])), float(v["h"])) if "h" in v and "t" in v else 1.0
                y = np.cos(c[:, None] - kw * np.asarray(v.get("xl", np.zeros(x.shape[1])))[None, :])
            e[n] = y
            e[n + "2"] = x * 2.0 ** -10
        out.append(e)
    return out


def wavenumber(f, h):
    """Linear dispersion by bisection; only used to choose inputs."""
    a, b, w2 = 0.0, 1e4, (2.0 * np.pi * f) ** 2
    for _ in range(200):
        c = (a + b) / 2
        a, b = (c, b) if 9.81 * c * np.tanh(c * h) < w2 else (a, c)
    return a


def comp(v):
    if isinstance(v, Node) and v.op == "tuple":
        return v.args
    return v if isinstance(v, tuple) else (v,)


def by_degree(ck, s, names, mode, want):
    """Degree inference over the extracted graph proves the relation for all data."""
    def proof():
        r = Run(s.build(), s.call, pkg=ck.pkg)
        if r.error or r.dead:
            return None
        try:
            got, _, g = degrees(r, {n: 1 for n in names}, mode)
        except (TooBig, RecursionError):
            return None
        if all(g.flat(t) == ANY or g.flat(t) == w for t, w in zip(got, want)):
            return "degree inference (%s), %d nodes typed" % (mode, len(g.memo))
        return None
    return proof


@task
def c05_linear(ck, key, thorough):
    s = SUBJECTS[key]
    names = s.linear
    ax = AXES.get(key, ())
    al, be = mk("sym", "al"), mk("sym", "be")

    def lhs(w, x):
        y = NS(x)
        for n in names:
            y[n] = w.box(mk("add", mk("mul", al, w.raw(x[n])), mk("mul", be, w.raw(x[n + "2"]))))
        return tuple(w.raw(q) for q in comp(s.call(w, y)))

    def rhs(w, x):
        p = [w.raw(q) for q in comp(s.call(w, x))]
        y = NS(x)
        for n in names:
            y[n] = x[n + "2"]
        q = [w.raw(z) for z in comp(s.call(w, y))]
        return tuple(a if i in ax else mk("add", mk("mul", al, a), mk("mul", be, b)) for i, (a, b) in enumerate(zip(p, q)))
    ck.conform(key + ": superposition", s.entry, lin_build(s, names), lhs, rhs, lin_vals(s, names, thorough), rule=RULE5, tol=1e-6,
               proof=by_degree(ck, s, names, "linear", [0 if i in ax else 1 for i in range(99)]),
               s=NS(s.__dict__, ins=s.ins + [In(n + "2", "arr", s.inp(n).dim, shape=s.inp(n).shape) for n in names]), lits=guard_literals)


# spectral estimates: (signals, exponent per result)
QUAD = {"spectrum_time": (("x",), (0, 2)), "spectrum_time:none": (("x",), (0, 2)), "spectrum_freq": (("X",), (0, 2)),
        "spectrum_freq:none": (("X",), (0, 2)), "se.spectrum_raw": (("x",), (0, 2)), "welch": (("x",), (0, 2)),
        "welch:hamming": (("x",), (0, 2)), "se.spectrum:df": (("x",), (0, 2)), "se.spectrum:nfft": (("x",), (0, 2)),
        "se.spectrum:seg": (("x",), (0, 2)), "se.spectrum_raw:default": (("x",), (0, 2)), "se.spectrum:default": (("x",), (0, 2)),
        "coherence": (("X", "Y"), (0, 0)), "coherence:none": (("X", "Y"), (0, 0)), "zs2": (("x",), (1, 1)), "zs3:lim": (("x",), (1, 1)),
        "bandpass": (("x",), (1,)), "bandfilter": (("X",), (1,)), "time2freq": (("x",), (0, 1)), "se.skewness": (("x",), (0,)),
        "se.asymmetry": (("x",), (0,)), "moment0": (("S",), (1,)), "moment-1": (("S",), (1,)), "average": (("S",), (0, 1))}


@task
def c05_scale(ck, key, factor, thorough):
    s = SUBJECTS[key]
    names, ex = QUAD[key]
    lam = C(factor)

    def lhs(w, x):
        y = NS(x)
        for n in names:
            y[n] = w.box(mk("mul", lam, w.raw(x[n])))
        return tuple(w.raw(q) for q in comp(s.call(w, y)))

    def rhs(w, x):
        return tuple(w.raw(q) if e == 0 else mk("mul", C(factor ** e), w.raw(q)) for q, e in zip(comp(s.call(w, x)), ex))
    ck.conform("%s: amplitude times %s" % (key, factor), s.entry, s.build(), lhs, rhs, s.vals(thorough), rule=RULE5, tol=1e-6,
               proof=by_definition(ck, s, "above the floor on the spectra the factor cancels") if key.startswith("coherence") else
               by_degree(ck, s, names, "negative" if factor < 0 else "positive", ex if factor > 0 else [e % 2 for e in ex]),
               s=None if key.startswith("coherence") else s, lits=guard_literals)


@plan("C05", RULE5)
def c05(tier):
    th = tier == "thorough"
    jobs = [("c05_linear", (k, th)) for k, s in SUBJECTS.items() if s.linear]
    for k in QUAD:
        for f in (0.125, 64, -1) if k[:3] not in ("se.", "mom", "ave") else (0.125, 64):
            if f == -1 and k == "se.skewness":
                continue
            jobs.append(("c05_scale", (k, f, th)))
    return jobs
