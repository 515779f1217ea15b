"""Alignment (C12), coherence (C16), energy (C19), front ends (C20), containers (C22), empty records (C26)."""
from __future__ import annotations

from fractions import Fraction

import numpy as np

from .. import vals as V
from ..ctx import TooBig
from ..decide import NS, Run, brief
from ..engine import plan, select, task
from ..ir import C, Node, mk, show, sym, walk
from ..reps import rank, same_for_integers
from ..subjects import (BG, CP, CS, CT_, JS, PMK, SUBJECTS, SE, SP, WH, WW, ZS, cplx, fs, lims, ser, spec, tx, wh)
from .conf import by_definition, GVN, conf, lim_args
from .relate import comp, NUMERIC, METHODS, do, CROSS_AGAIN
from ..evalterm import Ev, Fails, Undecided, same
from .effects import place

# ------------------------------------------------------------------ C12
RULE12 = ("shape inference on the value graph for N = 2K and N = 2K+1: the length of every result equals the documented function of the input "
          "lengths, and results returned together have equal length")
ARRAYS = {  # subject: indices of array results
    "time2freq": (0, 1), "time2freq_nyquist": (0, 1), "unfold:odd": (0, 1), "unfold:even": (0, 1), "freq2time": (0,), "bandfilter": (0,),
    "bandpass": (0,), "average": (0, 1), "average:none": (0, 1), "average:complex": (0, 1), "coherence": (0, 1), "coherence:none": (0, 1),
    "spectrum_time": (0, 1), "spectrum_time:none": (0, 1), "spectrum_freq": (0, 1), "spectrum_freq:none": (0, 1), "synthesis": (0, 1),
    "synthesis_object": (0, 1), "create_series": (0, 1), "create_series:dirs": (0, 1), "sort": (0, 1), "wh.sort": (0, 1), "wh.data": (0, 1), "waves": (0, 1, 2, 3, 4, 5),
    "se.data": (0, 1, 4, 5), "se.fourier": (0, 1), "se.bandpass": (0, 1), "se.spectrum_raw": (0, 1), "zs2": (0, 1), "zs3": (0, 1),
    "zs4": (0, 1), "zs_series": (0, 1, 2, 3), "jonswap:0": (0,), "jonswap:1": (0,), "pm:0": (0,), "jonswap_object:0": (0, 1),
    "pm_object:1": (0, 1), "welch": (0, 1), "se.spectrum:df": (0, 1), "disper:finite": (0,), "disper:shallow": (0,), "disper:deep": (0,),
}
VARYING = {"crossing:up": 1, "crossing:down": 1, "se.crossing": 1}
EQUAL = {"time2freq": 2, "time2freq_nyquist": 2, "unfold:odd": 2, "unfold:even": 2, "average": 2, "average:none": 2, "average:complex": 2,
         "coherence": 2, "coherence:none": 2, "spectrum_time": 2, "spectrum_time:none": 2, "spectrum_freq": 2, "spectrum_freq:none": 2,
         "synthesis": 2, "synthesis_object": 2, "create_series": 2, "create_series:dirs": 2, "sort": 2, "wh.sort": 2, "wh.data": 2, "waves": 6, "se._waves:down": 8, "se._waves:up": 8, "se.fourier": 2,
         "se.bandpass": 2, "se.spectrum_raw": 2, "zs2": 2, "zs3": 2, "zs_series": 4, "jonswap_object:0": 2, "pm_object:1": 2, "welch": 2,
         "se.spectrum:df": 2, "se.spectrum:seg": 2, "se.spectrum:default": 2, "zs3:lim": 2}


def parity(s, thorough, odd):
    out = []
    for v in s.vals(thorough):
        if v["N"] % 2 == odd:
            out.append(dict(v, K=v["N"] // 2))
    return out


def sized(odd):
    def f(w):
        K = w.int("K", lo=2)
        n = mk("mul", C(2), K)
        return mk("add", n, C(1)) if odd else n
    return f


def lens(w, v, idx):
    c = comp(v)
    return tuple(mk("len", w.raw(c[i])) for i in idx)


@task
def c12_length(ck, key, odd, thorough):
    s = SUBJECTS[key]
    idx = ARRAYS[key]
    ck.conform("%s: lengths for %s N" % (key, "odd" if odd else "even"), s.entry, s.build(size=sized(odd)),
               lambda w, x: lens(w, s.call(w, x), idx), lambda w, x: lens(w, s.ref(w, x), idx), parity(s, thorough, odd), rule=RULE12)


@task
def c12_equal(ck, key, odd, thorough):
    s = SUBJECTS[key]
    n = EQUAL[key]

    def a(w, x):
        c = comp(s.call(w, x))
        return tuple(mk("len", w.raw(q)) for q in c[:n - 1])

    def b(w, x):
        c = comp(s.call(w, x))
        return tuple(mk("len", w.raw(q)) for q in c[1:n])
    if odd is None:
        ck.conform("%s: results of equal length" % key, s.entry, s.build(), a, b, s.vals(thorough), rule=RULE12)
    else:
        ck.conform("%s: results of equal length for %s N" % (key, "odd" if odd else "even"), s.entry, s.build(size=sized(odd)), a, b,
                   parity(s, thorough, odd), rule=RULE12)


@task
def c12_crossings(ck, key, thorough):
    """nWave is the number of crossing times minus one."""
    s = SUBJECTS[key]

    def a(w, x):
        return w.raw(comp(s.call(w, x))[0])

    def b(w, x):
        n = mk("len", w.raw(comp(s.call(w, x))[1]))
        return mk("max2", mk("add", n, C(-1)), C(0))
    ck.conform("%s: count belongs to the crossing times" % key, s.entry, s.build(), a, b, s.vals(thorough), rule=RULE12)


@task
def c12_counts(ck, key, thorough):
    """Stored counts equal the lengths of the stored arrays."""
    s = SUBJECTS[key]

    def obj(w, x):
        o = {"wh.data": wh, "se.data": ser, "get_Tp:none": spec}[key](w, x)
        at = {"wh.data": (("nwave", "hwave"), ("nwave", "twave")), "se.data": (("nt", "time"), ("nt", "xTime"), ("nwave", "hwave"), ("nwave", "twave")),
              "get_Tp:none": (("nf", "f"), ("nf", "sVarDens"))}[key]
        return o, at

    def a(w, x):
        o, at = obj(w, x)
        return tuple(w.raw(w.attr(o, p)) for p, q in at)

    def b(w, x):
        o, at = obj(w, x)
        return tuple(mk("len", w.raw(w.attr(o, q))) for p, q in at)
    e = {"wh.data": WH, "se.data": SE, "get_Tp:none": SP}[key]
    ck.conform("%s: stored counts" % e, e, s.build(), a, b, s.vals(thorough), rule=RULE12)


def hangs(run):
    """A cut-off to whole numbers in the graph of a value that is a whole number but for the rounding of its computation."""
    ctx, seen, todo = run.w.ctx, set(), [run.value]
    while todo:
        n = todo.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        todo += [a for a in n.args if isinstance(a, Node)]
        if n.op in ("floor", "ceil", "trunc", "int", "floordiv"):
            r = mk("div", *n.args) if n.op == "floordiv" else n.args[0]
            try:
                if fractional(ctx, r):
                    q = ctx.whole(r)
                    if q is not None:
                        return n.op, q
            except TooBig:
                continue
    return None


def fractional(ctx, r):
    """Is the whole number the product or quotient of values that are not?"""
    if r.op in ("floor", "ceil", "trunc", "int", "round", "len"):
        return False
    if r.op in ("div", "mul"):
        return any(a.op != "const" and not ctx.is_int(ctx.canon(a)) or fractional(ctx, a) for a in r.args)
    return r.op in ("add", "sub", "neg", "max2", "min2") and any(fractional(ctx, a) for a in r.args)


@task
def c12_rounding(ck, key, odd):
    """No length hangs on the rounding of a quotient that is a whole number."""
    s = SUBJECTS[key]
    run = Run(s.build() if odd is None else s.build(size=sized(odd)), lambda w, x: s.call(w, x), pkg=ck.pkg)
    name = "%s: lengths do not depend on rounding%s" % (key, "" if odd is None else " (%s N)" % ("odd" if odd else "even"))
    hit = [e for e in run.w.ip.events if e.kind == "arange"]
    if hit:
        return ck.record(name, "violated", ck.where(s.entry), RULE12, {"why": "arange at %s:%s in %s up to a multiple of its step: (stop - start) / step is the whole number %s, "
                         "whose rounding decides whether there is one element more" % (hit[0].where[0], hit[0].where[2], hit[0].where[1], show(hit[0].info["n"])[:80])})
    cut = None if run.error else hangs(run)
    if cut is not None:
        return ck.record(name, "violated", ck.where(s.entry), RULE12, {"why": "%s of a quotient that is the whole number %s: its rounding decides by one" % (cut[0], show(cut[1])[:80])})
    ck.record(name, "undecided" if run.error else "discharged", ck.where(s.entry), RULE12, {"why": run.error} if run.error else {})


@plan("C12", RULE12, "index alignment of results computed together is part of the conformance of their values (same reference index)")
def c12(tier):
    th = tier == "thorough"
    jobs = []
    for k in ARRAYS:
        for odd in (0, 1):
            if parity(SUBJECTS[k], th, odd):
                jobs.append(("c12_length", (k, odd, th)))
    for k in EQUAL:
        jobs.append(("c12_equal", (k, None, th)))
        if k in ("synthesis", "time2freq_nyquist", "se.fourier", "zs3", "spectrum_time"):
            for odd in (0, 1):
                jobs.append(("c12_equal", (k, odd, th)))
    jobs += [("c12_rounding", (k, odd)) for k in ARRAYS for odd in (None, 0, 1) if odd is None or parity(SUBJECTS[k], th, odd)]
    jobs += [("c12_crossings", (k, th)) for k in VARYING]
    jobs += [("c12_counts", (k, th)) for k in ("wh.data", "se.data", "get_Tp:none")]
    jobs += conf(["time2freq_nyquist", "average", "sort", "wh.sort", "waves", "se.data", "se._waves:*", "unfold:*", "synthesis", "welch"], th)
    return jobs


# ------------------------------------------------------------------ C16
RULE16 = "relational value-graph comparison: symmetry, value one for identical signals, upper bound one"


LEMMA16 = {
    "symmetric": "|sum x conj(y)| = |sum y conj(x)|, and the denominator is symmetric",
    "self": "sum x conj(x) = sum |x|^2, so the quotient is one wherever the mean square is not below the floor",
    "multiple": "a factor c scales the squared cross term and the product of the squared sums by |c|^2 alike",
    "at most one": "Cauchy-Schwarz inequality, and the floor only enlarges the denominator",
}


@task
def c16_relation(ck, what, key, thorough):
    s = SUBJECTS[key]
    ex = ("df",) if s.inp("df") else ()

    def co(w, x, a, b):
        return comp(w.call(CS + "coherence", x.f, x[a], x[b], *[x[k] for k in ex]))
    if what == "symmetric":
        p, q = (lambda w, x: co(w, x, "X", "Y")), (lambda w, x: co(w, x, "Y", "X"))
    elif what == "self":
        p = lambda w, x: w.raw(co(w, x, "X", "X")[1])  # noqa: E731
        q = lambda w, x: mk("add", C(1), mk("mul", C(0), w.raw(x.f if key.endswith("none") else co(w, x, "X", "X")[0])))  # noqa: E731
    elif what == "multiple":
        def p(w, x):
            y = NS(x, Y=w.box(mk("mul", C(-2.5), w.raw(x.X))))
            return w.raw(co(w, y, "X", "Y")[1])
        q = lambda w, x: mk("add", C(1), mk("mul", C(0), w.raw(x.f if key.endswith("none") else co(w, x, "X", "X")[0])))  # noqa: E731
    elif what == "at most one":
        p = lambda w, x: mk("max2", w.raw(co(w, x, "X", "Y")[1]), C(1 + 1e-9))  # noqa: E731
        q = lambda w, x: mk("add", mk("mul", C(0), w.raw(co(w, x, "X", "Y")[1])), C(1 + 1e-9))  # noqa: E731
    else:  # real
        p = lambda w, x: mk("imag", w.raw(co(w, x, "X", "Y")[1]))  # noqa: E731
        q = lambda w, x: mk("mul", C(0), w.raw(co(w, x, "X", "Y")[0]))  # noqa: E731
    ck.conform("%s: %s" % (key, what), s.entry, s.build(), p, q, s.vals(thorough), rule=RULE16,
               proof=by_definition(ck, s, LEMMA16[what]) if what in LEMMA16 else None)


@task
def c16_columns(ck, thorough):
    """Column vectors give the same coherence as vectors."""
    s = SUBJECTS["coherence"]
    c22_variant(ck, "coherence", "column", thorough)


@plan("C16", GVN, RULE16)
def c16(tier):
    th = tier == "thorough"
    jobs = conf(["coherence*", "average*"], th)
    for k in ("coherence", "coherence:none"):
        for wt in ("symmetric", "self", "multiple", "at most one", "real"):
            jobs.append(("c16_relation", (wt, k, th)))
    return jobs


# ------------------------------------------------------------------ C19
RULE19 = "relational value-graph comparison: the wave height of the returned spectrum over the requested range is the requested one"


@task
def c19_energy(ck, fn, l, obj, thorough):
    s = SUBJECTS["jonswap:%d" % l]

    def a(w, x):
        if obj:
            o = w.call(fn.replace("spectrum_", "spectrum_object_"), x.f, x.fp, x.hm0, x.gam, l)
            S = w.attr(o, "sVarDens")
        else:
            S = w.call(fn, x.f, x.fp, x.hm0, x.gam, l)
        if l == 0:
            return w.call("ref:hm0", x.f, S)
        return w.call("ref:hm0", x.f, S, w.call("ref:first_of", x.f), np.inf)
    ck.conform("%s%s: energy over the %s" % (fn, " (object)" if obj else "", "axis" if l == 0 else "axis and tail"), fn, s.build(), a,
               lambda w, x: mk("mul", x.hm0, C(1)), s.vals(thorough), rule=RULE19,
               proof=by_definition(ck, SUBJECTS["%s%s:%d" % ("jonswap" if fn == JS else "pm", "_object" if obj else "", l)],
                                   "the moment is linear in the density, so k E with k = (Hm0/4)^2/m0(E) has m0 = (Hm0/4)^2"))


@plan("C19", GVN, RULE19)
def c19(tier):
    th = tier == "thorough"
    jobs = conf(["jonswap*", "pm*", "spectrum_time*", "spectrum_freq*", "se.spectrum_raw*", "synthesis*", "create_series*"], th)
    for fn in (JS, PMK):
        for l in (0, 1):
            for o in (False, True):
                jobs.append(("c19_energy", (fn, l, o, th)))
    return jobs


# ------------------------------------------------------------------ C20
RULE20 = ("relational value-graph comparison: the graph of the method or wrapper equals the graph of the core function applied to the object's "
          "own data and the caller's arguments")
F13 = C(Fraction(1, 3))
M = lambda name: (lambda w, x, s: s.call(w, x))  # noqa: E731


def two(w, v, n=2):
    return w.unpack2(v, n)


def params_part(i):
    return lambda w, x, s: comp(w.call(CP, x.f, x.S, **lim_args(x)))[i]


def sorted_core(w, x):
    return comp(w.call(CT_ + "sort_wave_params", x.h, x.T))


def waves_core(w, x):
    c = comp(w.call(CT_ + "determine_zero_crossing", x.t, x.x, "down"))
    return comp(w.call(CT_ + "determine_params_individual_waves", c[1], x.t, x.x)) + (c[1],)


def wp(w, x):
    q = waves_core(w, x)
    return NS(x, h=q[0], T=q[1])


def smom(n, w, x, lo=None, hi=None):
    d = {}
    if lo is not None:
        d["fmin"] = lo
    if hi is not None:
        d["fmax"] = hi
    return w.raw(w.call("core_wavefunctions:compute_moment", x.f, x.S, n, **d))


FRONT = {  # name: (subject giving inputs and the front end, program of the core)
    "WaveHeights.sort": ("wh.sort", lambda w, x, s: sorted_core(w, x)),
    "WaveHeights.highest_waves": ("wh.highest", lambda w, x, s: comp(w.call(CT_ + "highest_waves_params", *sorted_core(w, x), x.p))),
    "WaveHeights.get_Hs": ("wh.Hs", lambda w, x, s: comp(w.call(CT_ + "highest_waves_params", *sorted_core(w, x), F13))),
    "WaveHeights.get_exceedance_waveheight": ("wh.exceedance", lambda w, x, s: w.call(CT_ + "exceedance_wave_height", sorted_core(w, x)[0], x.P)),
    "Series.highest_waves": ("se.wh.highest", lambda w, x, s: comp(w.call(CT_ + "highest_waves_params", *sorted_core(w, wp(w, x)), x.p))),
    "Series.get_exceedance_waveheight": ("se.wh.exceedance", lambda w, x, s: w.call(CT_ + "exceedance_wave_height", sorted_core(w, wp(w, x))[0], x.P)),
    "Series.get_Hs": ("se.wh.Hs", lambda w, x, s: comp(w.call(CT_ + "highest_waves_params", *sorted_core(w, wp(w, x)), F13))),
    "Series.get_crossing": ("se.crossing", lambda w, x, s: comp(w.call(CT_ + "determine_zero_crossing", x.t, x.x))),
    "Series.get_crossing(up)": ("se.crossing:up", lambda w, x, s: comp(w.call(CT_ + "determine_zero_crossing", x.t, x.x, "up"))),
    "Series.get_crossing(down)": ("se.crossing:down", lambda w, x, s: comp(w.call(CT_ + "determine_zero_crossing", x.t, x.x, "down"))),
    "Series.get_fourier_comp": ("se.fourier", lambda w, x, s: comp(w.call(CS + "time2freq_nyquist", x.t, x.x))),
    "Series.get_bandpassfilter": ("se.bandpass", lambda w, x, s: (x.t, w.call(CS + "bandpassfilter", x.t, x.x, x.flow, x.fhigh))),
    "Series.get_spectrum_raw": ("se.spectrum_raw", lambda w, x, s: comp(w.call(CS + "compute_spectrum_time_series", x.t, x.x, x.df))),
    "Series.get_spectrum_raw()": ("se.spectrum_raw:default", lambda w, x, s: comp(w.call(CS + "compute_spectrum_time_series", x.t, x.x, 0.01))),
    "Series.get_spectrum(segments)": ("se.spectrum:seg", lambda w, x, s: comp(w.call(WW, x.x, w.call("ref:step", x.t), x.npg, x.nov, x.nfft))),
    "Series.get_spectrum(no resolution)": ("se.spectrum:noseg", lambda w, x, s: comp(w.call(WW, x.x, w.call("ref:step", x.t), 256))),
    "Series (waves)": ("se.data", lambda w, x, s: (lambda q: (x.t, x.x, w.call("ref:step", x.t), w.call("ref:length", x.t), q[0], q[1], q[6],
                                                              w.call("ref:length", q[0])))(waves_core(w, x))),
    "Spectrum.get_Hm0": ("get_Hm0", params_part(0)), "Spectrum.get_Tp": ("get_Tp", params_part(1)), "Spectrum.get_Tps": ("get_Tps", params_part(2)),
    "Spectrum.get_Tmm10": ("get_Tmm10", params_part(3)), "Spectrum.get_Tm01": ("get_Tm01", params_part(4)),
    "Spectrum.get_Tm02": ("get_Tm02", params_part(5)),
    "Spectrum.get_Hm0()": ("get_Hm0:none", params_part(0)), "Spectrum.get_Tp()": ("get_Tp:none", params_part(1)),
    "Spectrum.get_Tps()": ("get_Tps:none", params_part(2)), "Spectrum.get_Tmm10()": ("get_Tmm10:none", params_part(3)),
    "Spectrum.get_Tm01()": ("get_Tm01:none", params_part(4)), "Spectrum.get_Tm02()": ("get_Tm02:none", params_part(5)),
    "Spectrum.create_series": ("create_series", lambda w, x, s: comp(w.call(CS + "spectrum2timeseries", x.f, x.S, x.t0, x.t1, x.dt))),
    "spectrum2timeseries_object": ("synthesis_object", lambda w, x, s: comp(w.call(CS + "spectrum2timeseries", x.f, x.S, x.t0, x.t1, x.dt, x.seed))),
    "create_spectrum_object_jonswap(0)": ("jonswap_object:0", lambda w, x, s: (x.f, w.call(JS, x.f, x.fp, x.hm0, x.gam, 0))),
    "create_spectrum_object_jonswap(1)": ("jonswap_object:1", lambda w, x, s: (x.f, w.call(JS, x.f, x.fp, x.hm0, x.gam, 1))),
    "create_spectrum_object_jonswap()": ("jonswap_object", lambda w, x, s: (x.f, w.call(JS, x.f, x.fp, x.hm0))),
    "create_spectrum_object_piersonmoskowitz(0)": ("pm_object:0", lambda w, x, s: (x.f, w.call(PMK, x.f, x.fp, x.hm0, x.gam, 0))),
    "create_spectrum_object_piersonmoskowitz(1)": ("pm_object:1", lambda w, x, s: (x.f, w.call(PMK, x.f, x.fp, x.hm0, x.gam, 1))),
    "create_spectrum_object_piersonmoskowitz()": ("pm_object", lambda w, x, s: (x.f, w.call(PMK, x.f, x.fp, x.hm0))),
    "create_spectrum_piersonmoskowitz()": ("pm", lambda w, x, s: w.call(JS, x.f, x.fp, x.hm0, 1.0)),
    "create_spectrum_piersonmoskowitz(1)": ("pm:1", lambda w, x, s: w.call(JS, x.f, x.fp, x.hm0, x.gam, 1)),
    "decompose_linear_ZS_series": ("zs_series", lambda w, x, s: (lambda q: (x.t, q[0], x.t, q[1]))(comp(w.call(ZS, x.t, x.x, x.h, x.xl, x.wl, x.detlim)))),
}


@task
def c20_front(ck, name, thorough):
    key, core = FRONT[name]
    s = SUBJECTS[key]
    ck.conform("%s = core" % name, s.entry, s.build(), s.call, lambda w, x: core(w, x, s), s.vals(thorough), rule=RULE20)


@task
def c20_seeds(ck, thorough):
    """The wrapper seeds the generator exactly when the core function does, with the same number."""
    key = "synthesis_object"
    s = SUBJECTS[key]
    a = Run(s.build(), s.call, pkg=ck.pkg)
    b = Run(s.build(), lambda w, x: w.call(CS + "spectrum2timeseries", x.f, x.S, x.t0, x.t1, x.dt, x.seed), pkg=ck.pkg)
    ck.absorb(a)
    ck.absorb(b)
    name, cons = "seeding of %s = core" % key, ck.where(s.entry)
    if a.error or b.error:
        return ck.record(name, "undecided", cons, RULE20, {"why": a.error or b.error})
    bad, n, und = [], 0, None
    for v in s.vals(thorough)[::1 if thorough else 4]:
        for sd in (0, 1, 5, -1, -2, 2**31 + 7):
            ev = Ev(dict(v, seed=sd))
            try:
                p, q = [[float(ev(r.w.raw(e.info["arg"]))) for e in r.events if e.kind == "seed" and ev.holds(e.pc)] for r in (a, b)]
            except (Undecided, Fails, TypeError, ValueError) as e:
                und = str(e)
                continue
            n += 1
            if p != q:
                at = [e for e in b.events + a.events if e.kind == "seed"]
                bad.append({"seed": sd, "the wrapper seeds with": p, "the core function with": q, "at": place(at[0]) if at else ""})
    ck.record(name, "violated" if bad else "not separated" if n else "undecided", cons, RULE20,
              {"findings": bad[:2]} if bad else {"valuations": n, "open": und})


@task
def c20_default(ck, name, thorough):
    key, a, b = DEFAULTS[name]
    s = SUBJECTS[key]
    ck.conform("default of " + name, s.entry, s.build(), a, b, s.vals(thorough), rule=RULE20 + "; defaults mean the same as their documented values")


def mth(ctor, m, *a, **k):
    return lambda w, x: w.method(ctor(w, x), m, *[x[q] if isinstance(q, str) and q in x else q for q in a],
                                 **{n: (x[v] if isinstance(v, str) and v in x else v) for n, v in k.items()})


def parts(f, g):
    return lambda w, x: f(w, g(w, x))


def fun(fn, *a, **k):
    return lambda w, x: comp_or(w.call(fn, *[x[q] if isinstance(q, str) and q in x else q for q in a],
                                       **{n: (x[v] if isinstance(v, str) and v in x else v) for n, v in k.items()}))


def comp_or(v):
    return v.args if v.op == "tuple" else v


DEFAULTS = {
    "get_Hm0 limits": ("get_Hm0:none", mth(spec, "get_Hm0"), mth(spec, "get_Hm0", -1.0, -1.0)),
    "get_Tps limits": ("get_Tps:none", mth(spec, "get_Tps"), mth(spec, "get_Tps", -1.0, -1.0)),
    "get_Tp limits": ("get_Tp:none", mth(spec, "get_Tp"), mth(spec, "get_Tp", -1.0, -1.0)),
    "get_s0p gravity": ("get_s0p:none", mth(spec, "get_s0p"), mth(spec, "get_s0p", g=9.81)),
    "get_smm10 gravity": ("get_smm10:none", mth(spec, "get_smm10"), mth(spec, "get_smm10", g=9.81)),
    "get_smm10_HF gravity": ("get_smm10_HF:none", mth(spec, "get_smm10_HF"), mth(spec, "get_smm10_HF", g=9.81)),
    "disper gravity": ("disper:any", fun("core_dispersion:disper", "w", "h"), fun("core_dispersion:disper", "w", "h", 9.81)),
    "compute_moment limits": ("moment0:none", fun("core_wavefunctions:compute_moment", "f", "S", 0), fun("core_wavefunctions:compute_moment", "f", "S", 0, -1.0, -1.0)),
    "compute_moment limits (m = -1)": ("moment-1:none", fun("core_wavefunctions:compute_moment", "f", "S", -1),
                                       fun("core_wavefunctions:compute_moment", "f", "S", -1, -1.0, -1.0)),
    "get_crossing direction": ("se.crossing", parts(lambda w, v: comp_or(v), mth(ser, "get_crossing")), parts(lambda w, v: comp_or(v), mth(ser, "get_crossing", "down"))),
    "frequency_averaging spacing": ("average:none", fun(CS + "frequency_averaging", "f", "S"), fun(CS + "frequency_averaging", "f", "S", 0.0)),
    "coherence spacing": ("coherence:none", fun(CS + "coherence", "f", "X", "Y"), fun(CS + "coherence", "f", "X", "Y", 0.0)),
    "Welch wrapper": ("welch:none", fun(WW, "x", "dt"), fun(WW, "x", "dt", 0, 0, 0, "hann")),
    "detLim": ("zs3", fun(ZS, "t", "x", "h", "xl", "wl"), fun(ZS, "t", "x", "h", "xl", "wl", 0.125)),
    "jonswap enhancement": ("jonswap", fun(JS, "f", "fp", "hm0"), fun(JS, "f", "fp", "hm0", 3.3, 0.0)),
    "Pierson-Moskowitz enhancement": ("pm", fun(PMK, "f", "fp", "hm0"), fun(PMK, "f", "fp", "hm0", 1.0, 0.0)),
}


@plan("C20", GVN, RULE20)
def c20(tier):
    th = tier == "thorough"
    jobs = [("c20_front", (k, th)) for k in FRONT] + [("c20_default", (k, th)) for k in DEFAULTS]
    jobs += [("c20_seeds", (th,))]
    jobs += conf(["welch*", "se.spectrum:*", "se.spectrum_raw*", "se.wh.*", "synthesis_object", "create_series*", "zs_series", "jonswap_object*", "pm_object*"], th)
    jobs += [("c02_crossing_again", (a, b, th)) for a, b in CROSS_AGAIN]
    return jobs


# ------------------------------------------------------------------ C22
RULE22 = ("element-type inference: no operation of the value graph extracted for integer arrays depends on the element type; the graphs "
          "extracted for lists and column vectors equal the graph for floating-point vectors with the same values")
INT8 = 8


def int_names(s):
    return [i.name for i in s.ins if i.kind == "arr" and i.dtype == "float"]


def int_vals(s, names, thorough):
    """Integer-valued inputs: all dyadic values times 8."""
    out = []
    for v in s.vals(thorough):
        d = dict(v)
        ok = True
        for n in names:
            a = np.asarray(v[n]) * 16
            if not np.all(a == np.round(a)):
                ok = False
                break
            d[n] = np.round(a).astype(np.int64)
        if not ok:
            continue
        for i in s.ins:
            if i.kind == "num" and i.dim != (0, 0, 0) and i.name in d and any(j.dim == i.dim or j.dim == tuple(-q for q in i.dim) for j in s.ins if j.name in names):
                same = [j for j in s.ins if j.name in names and j.dim == i.dim]
                if same and d[i.name] != -1.0:
                    d[i.name] = d[i.name] * 16
                elif not same:
                    d[i.name] = d[i.name] / 16
        out.append(d)
    return out


def c22_variant(ck, key, variant, thorough):
    s = SUBJECTS[key]
    names = int_names(s)
    if variant == "int":
        vals = int_vals(s, names, thorough)
        if not vals:
            return ck.record("%s: %s" % (key, variant), "undecided", ck.where(s.entry), RULE22, {"why": "no integer valuation"})

        def ref(w, x):
            y = NS(x)
            for n in names:
                y[n] = w.box(mk("astype", w.raw(x[n]), C("float")))
            return s.call(w, y)
        build = s.build(override={n: "int" for n in names})

        def proof():
            try:
                return same_for_integers(build, s.call, ref, names, ck.pkg, Run)[0]
            except (TooBig, RecursionError):
                return None
        ck.conform("%s: integer arrays" % key, s.entry, build, s.call, ref, vals, rule=RULE22, tol=1e-6, proof=proof)
        return
    if variant == "column":
        cols = [i.name for i in s.ins if i.kind == "arr" and len(i.shape) == 1 and i.role in ("axis", "data", "time")]
        vals = s.vals(thorough)

        def prog(w, x):
            y = NS(x)
            for n in cols:
                y[n] = w.box(mk("reshape", w.raw(x[n]), (mk("len", w.raw(x[n])), C(1))))
            return s.call(w, y)
        ck.conform("%s: column vectors" % key, s.entry, s.build(), prog, s.call, vals, rule=RULE22, tol=1e-6)
        return
    if variant == "list":
        # vectors of a fixed length written out as lists of symbols
        base = s.vals(thorough)
        n = min(v["N"] for v in base)
        names1 = [i.name for i in s.ins if i.kind == "arr" and len(i.shape) == 1 and i.shape[0] == "N"]
        vals = []
        for v in base:
            if v["N"] == n:
                d = {k: q for k, q in v.items() if k not in names1}
                for a in names1:
                    for j in range(n):
                        d["%s_%d" % (a, j)] = v[a][j]
                vals.append(d)

        def build(w):
            x = NS()
            for i in s.ins:
                if i.name in names1:
                    x[i.name] = tuple(w.num("%s_%d" % (i.name, j), dtype=i.dtype) for j in range(n))
                elif i.kind == "arr":
                    x[i.name] = w.arr(i.name, tuple({"N": n}.get(q, q) for q in i.shape), i.dtype, **i.kw)
                elif i.kind == "int":
                    x[i.name] = C(n) if i.name == "N" else w.int(i.name, **i.kw)
                else:
                    x[i.name] = w.num(i.name, **i.kw)
            return x

        def prog(w, x):
            y = NS(x)
            for a in names1:
                y[a] = w.lst(a, x[a])
            return s.call(w, y)

        def ref(w, x):
            y = NS(x)
            for a in names1:
                y[a] = w.call("ref:as_vector", w.lst(a, x[a]))
            return s.call(w, y)
        ck.conform("%s: lists" % key, s.entry, build, prog, ref, vals, rule=RULE22, tol=1e-6)


READS_TYPE = {"dtypeof", "resulttype", "astype_like", "full_like", "zeros_like", "extbound"}


def short(a):
    """Numbers of few digits: single and double precision hold the same number, and equal ones stay equal."""
    q = np.asarray(a, dtype=float)
    m = np.frexp(q)[0] * 2 ** 12
    return np.all(m == np.round(m))


@task
def c22_single(ck, key, thorough):
    """A vector in single precision holds the same numbers: no branch on the element type leads to other ones."""
    s = SUBJECTS[key]
    names = int_names(s)
    r = Run(s.build(), s.call, pkg=ck.pkg)
    ck.absorb(r)
    name, cons = "%s: single precision" % key, ck.where(s.entry)
    if r.error:
        return ck.record(name, "undecided", cons, RULE22, {"why": r.error})
    seen, reads = set(), []
    for q in [r.value] + [e.pc for e in r.raises if isinstance(e.pc, Node)]:
        reads += [n for n in walk(q, seen) if n.op in READS_TYPE]
    if not reads:
        return ck.record(name, "proved", cons, RULE22, {"nodes": len(seen), "lemma": "no node of the graph reads an element type"})
    n, und = 0, []
    data = [i.name for i in s.ins if i.name in names and i.role == "data" and i.kw.get("hi") is None]
    for v in (dict(v, **{k: np.asarray(v[k]) * 2.0 ** e for k in data}) for v in s.vals(thorough) for e in (0, -9, 12) if data or not e):
        if not all(short(v[a]) for a in names):
            continue
        a, b = r.outcome(dict(v, **{k: np.asarray(v[k], np.float32) for k in names})), r.outcome(v)
        if b[0] != "value" or a[0] == "undecided":
            und.append(str(a[1])[:120])
            continue
        n += 1
        if a[0] != "value" or not same(a[1], b[1], 2e-3):
            return ck.record(name, "violated", cons, RULE22, {"separating valuation": {k: brief(q) for k, q in v.items()},
                                                              "result in single precision": brief(a[1]) if a[0] == "value" else str(a[1])[:200],
                                                              "result in double precision": brief(b[1])})
    if und or not n:
        return ck.record(name, "undecided", cons, RULE22, {"why": und[:1]})
    ck.record(name, "not separated", cons, RULE22, {"valuations": n})


@task
def c22(ck, key, variant, thorough):
    c22_variant(ck, key, variant, thorough)


RULE22S = "shape inference: results documented as scalars have the shape of a scalar"
SCALARS = ["get_Hm0", "get_Tmm10", "get_Tm01", "get_Tm02", "get_Tp", "get_Tps", "get_Hm0_HF", "get_Hm0_LF", "get_Tmm10_HF", "get_Tmm10_LF",
           "get_s0p", "get_smm10", "get_smm10_HF", "tpd", "tps", "moment0", "moment-1", "moment2", "params", "wh.Hrms", "wh.Hmax", "wh.Hs",
           "wh.H2p", "wh.exceedance", "wh.highest", "highest", "exceedance", "se.max", "se.min", "se.mean", "se.var", "se.skewness",
           "se.asymmetry"]


@task
def c22_scalar(ck, key, variant, thorough):
    s = SUBJECTS[key]
    hook = None
    vals = s.vals(thorough)
    cols = [i.name for i in s.ins if i.kind == "arr" and i.role in ("axis", "data", "time")]

    def whole(w, x):
        y = NS(x)
        if variant == "column":
            for n in cols:
                y[n] = w.box(mk("reshape", w.raw(x[n]), (mk("len", w.raw(x[n])), C(1))))
        return s.call(w, y)

    def prog(w, x):
        return tuple(mk("ndimof", w.raw(q)) for q in comp(whole(w, x)))

    def ref(w, x):
        return tuple(C(0) for _ in comp(s.call(w, x)))

    def proof():
        try:
            r = Run(s.build(), whole, pkg=ck.pkg)
            if r.error or r.dead:
                return None
            ctx = r.w.ctx
            ps = comp(r.value)
            return "rank inference" if all(rank(ctx, q) == 0 or rank(ctx, ctx.canon(q)) == 0 for q in ps) else None
        except (TooBig, RecursionError):
            return None
    ck.conform("%s: scalar results%s" % (key, " for column vectors" if variant == "column" else ""), s.entry, s.build(), prog, ref, vals, rule=RULE22S, proof=proof)


NOINT = {"synthesis", "create_series", "create_series:dirs", "synthesis:unseeded", "synthesis_object"}


@plan("C22", RULE22, RULE22S)
def c22_plan(tier):
    th = tier == "thorough"
    jobs = []
    keys = select("*", "-bg*", "-welch*", "-moment*:*", "-params:*", "-get_*:*", "-zs_series", "-*object*", "-pm*", "-se.wh.*",
                  "-se.crossing*", "-synthesis:unseeded", "-se.spectrum:*", "-se.spectrum_raw*", "-se.bandpass") + select("get_Hm0:none", "get_Tp:none", "moment0:none", "moment-1:none", "params:none")
    for k in keys:
        s = SUBJECTS[k]
        if int_names(s):
            jobs.append(("c22", (k, "int", th)))
            jobs.append(("c22_single", (k, th)))
        if not k.startswith(("zs", "crossing", "waves", "highest", "exceedance", "disper", "bandfilter", "sort")):
            jobs.append(("c22", (k, "column", th)))
        if not k.startswith(("zs", "waves", "unfold", "freq2time", "bandfilter")):
            jobs.append(("c22", (k, "list", th)))
    for k in SCALARS:
        jobs.append(("c22_scalar", (k, "vector", th)))
        if not k.startswith(("highest", "exceedance")):
            jobs.append(("c22_scalar", (k, "column", th)))
    return jobs


# ------------------------------------------------------------------ C26
RULE26 = "value graph for empty wave sets (N = 0) and for records without crossings: the documented empty or zero result on every path"
EMPTY = {}


def empty_wh(w, x):
    return w.call(WH, x.h, x.T)


def e26(name, entry, prog, want):
    EMPTY[name] = (entry, prog, want)


WHM = "series:WaveHeights."
e26("highest_waves of no waves", WHM + "highest_waves", lambda w, x: comp_or(w.method(empty_wh(w, x), "highest_waves", x.p)), (0.0, 0.0))
e26("get_Hs of no waves", WHM + "get_Hs", lambda w, x: comp_or(w.method(empty_wh(w, x), "get_Hs")), (0.0, 0.0))
e26("exceedance height of no waves", WHM + "get_exceedance_waveheight", lambda w, x: w.method(empty_wh(w, x), "get_exceedance_waveheight", x.P), 0.0)
e26("Rayleigh height of no waves", WHM + "get_H2p_Rayleigh", lambda w, x: w.method(empty_wh(w, x), "get_H2p_Rayleigh"), 0.0)
e26("sort then get_Hs of no waves", WHM + "sort", lambda w, x: (lambda o: (w.method(o, "sort"), comp_or(w.method(o, "get_Hs"))[0])[1])(empty_wh(w, x)), 0.0)
e26("sort twice of no waves", WHM + "sort", lambda w, x: (lambda o: (w.method(o, "sort"), w.method(o, "sort"), mk("sizeof", w.raw(w.attr(o, "hwave"))))[2])(empty_wh(w, x)), 0)
e26("number of waves of an empty set", WH, lambda w, x: (lambda o: (w.raw(w.attr(o, "nwave")), mk("sizeof", w.raw(w.attr(o, "hwave"))), mk("sizeof", w.raw(w.attr(o, "twave")))))(empty_wh(w, x)), (0, 0, 0))
e26("sort_wave_params of no waves", CT_ + "sort_wave_params", lambda w, x: tuple(mk("sizeof", w.raw(q)) for q in comp(w.call(CT_ + "sort_wave_params", x.h, x.T))), (0, 0))
e26("highest_waves_params of no waves", CT_ + "highest_waves_params", lambda w, x: comp_or(w.call(CT_ + "highest_waves_params", x.h, x.T, x.p)), (0.0, 0.0))
e26("exceedance_wave_height of no waves", CT_ + "exceedance_wave_height", lambda w, x: w.call(CT_ + "exceedance_wave_height", x.h, x.P), 0.0)


@task
def c26_empty(ck, name, shape):
    entry, prog, want = EMPTY[name]

    def build(w):
        x = NS()
        x["h"], x["T"] = w.arr("h", shape), w.arr("T", shape)
        x["p"], x["P"] = w.num("p"), w.num("P")
        return x
    vals = [{"h": np.zeros(shape), "T": np.zeros(shape), "p": p, "P": P} for p, P in ((0.0, 0.0), (0.5, 50.0), (1.0, 100.0), (1 / 3, 2.0))]
    w0 = want if isinstance(want, tuple) else (want,)
    ck.conform("%s %s" % (name, shape), entry, build, prog, lambda w, x: tuple(C(q) for q in want) if isinstance(want, tuple) else mk("add", C(want), C(0)),
               vals, rule=RULE26)


def calm(kind, n, k):
    r = V.rs(500 + k)
    dt = (0.25, 0.5, 1.0)[k % 3]
    a = V.dy(np.abs(r.randn(n))) + 0.125
    x = {"positive": a, "negative": -a, "zero": np.zeros(n), "positive with zeros": a * (np.arange(n) % 3 != 1), "one crossing": np.where(np.arange(n) < n // 2, a, -a),
         "one down-crossing": np.where((np.arange(n) < n // 3) | (np.arange(n) > 2 * n // 3), a, -a)}[kind]
    return {"N": n, "t": dt * np.arange(n), "x": x, "p": (0.0, 0.5, 1.0)[k % 3], "P": (50.0, 2.0, 100.0)[k % 3]}


@task
def c26_series(ck, name, thorough):
    entry, prog, want = CALM[name]
    s = SUBJECTS["se.max"]

    def build(w):
        x = s.build(size=lambda w: w.int("N", lo=2))(w)
        x["p"], x["P"] = w.num("p"), w.num("P")
        return x
    vals = [calm(kind, n, k) for k, kind in enumerate(("positive", "negative", "zero", "positive with zeros", "one crossing", "one down-crossing"))
            for n in (2, 3, 5, 8, 12, 13)]
    ck.conform(name, entry, build, prog, lambda w, x: tuple(C(q) for q in want) if isinstance(want, tuple) else mk("add", C(want), C(0)), vals, rule=RULE26)


def sz(w, o, *names):
    return tuple(mk("sizeof", w.raw(w.attr(o, n))) for n in names)


CALM = {
    "record without waves: object": (SE, lambda w, x: (lambda o: sz(w, o, "hwave", "twave") + (w.raw(w.attr(o, "nwave")),))(ser(w, x)), (0, 0, 0)),
    "record without waves: get_crossing": ("series:Series.get_crossing", lambda w, x: comp(w.method(ser(w, x), "get_crossing"))[0], 0),
    "record without waves: sort": (WHM + "sort", lambda w, x: (lambda o: (w.method(o, "sort"), sz(w, o, "hwave", "twave"))[1])(ser(w, x)), (0, 0)),
    "record without waves: get_Hs": (WHM + "get_Hs", lambda w, x: comp_or(w.method(ser(w, x), "get_Hs")), (0.0, 0.0)),
    "record without waves: highest_waves": (WHM + "highest_waves", lambda w, x: comp_or(w.method(ser(w, x), "highest_waves", x.p)), (0.0, 0.0)),
    "record without waves: exceedance": (WHM + "get_exceedance_waveheight", lambda w, x: w.method(ser(w, x), "get_exceedance_waveheight", x.P), 0.0),
    "record without waves: Rayleigh height": (WHM + "get_H2p_Rayleigh", lambda w, x: w.method(ser(w, x), "get_H2p_Rayleigh"), 0.0),
}


@plan("C26", RULE26)
def c26(tier):
    th = tier == "thorough"
    jobs = []
    for k in EMPTY:
        for shp in ((0,), (0, 0)):
            jobs.append(("c26_empty", (k, shp)))
    jobs += [("c26_series", (k, th)) for k in CALM]
    return jobs
