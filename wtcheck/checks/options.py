"""Warnings (C08), refusals (C11), options (C21)."""
from __future__ import annotations

from fractions import Fraction

import numpy as np

from .. import vals as V
from ..decide import NS, Run, brief, out_brief
from ..engine import plan, select, task
from ..evalterm import Ev, Fails, Undecided
from ..ir import C, Node, mk, sym
from ..subjects import (BG, CP, CS, CT_, JS, PMK, SUBJECTS, SE, SP, WH, ZS, cplx, ser, spec, tx, v_bg, wh)
from .conf import GVN, conf
from .effects import place

# ------------------------------------------------------------------ C08
RULE8 = "path conditions of the warnings: a warning is issued iff the cutoff is left out"
HL = {"get_Hm0_HF": "fmin", "get_Tmm10_HF": "fmin", "get_smm10_HF": "fmin", "get_Hm0_LF": "fmax", "get_Tmm10_LF": "fmax"}


@task
def c08_warn(ck, key, expect, thorough):
    s = SUBJECTS[key]
    r = Run(s.build(), s.call, pkg=ck.pkg)
    ck.absorb(r)
    name = "%s: %s" % (key, "warns" if expect else "no warning")
    cons = ck.where(s.entry)
    if r.error:
        return ck.record(name, "undecided", cons, RULE8, {"why": r.error})
    ws = [e for e in r.events if e.kind == "warn"]
    bad, n, und = [], 0, []
    for v in s.vals(thorough):
        if any(v.get(q, 0) == -1.0 for q in ("fmin", "fmax")):
            continue
        ev = Ev(v)
        try:
            live = [e for e in ws if ev.holds(e.pc)]
        except (Undecided, Fails) as e:
            und.append(str(e))
            continue
        n += 1
        if expect and not live:
            bad.append({"no warning for": {k: brief(q) for k, q in v.items()}})
        if not expect and live:
            bad.append({"warning at": place(live[0]), "for": {k: brief(q) for k, q in v.items()}})
    if bad:
        ck.record(name, "violated", cons, RULE8, {"findings": bad[:2]})
    else:
        # proof: on a valid axis, with the cutoff given, no warning statement is reachable; without it, one is always reached
        def build(w):
            x = s.build()(w)
            w.assume(w.call("ref:strictly_equidistant", x.f))
            for q in ("fmin", "fmax"):
                if q in x:
                    w.assume(mk("not", mk("eq", x[q], C(-1))))
            return x
        r = Run(build, s.call, pkg=ck.pkg)
        ws = [e for e in r.events if e.kind == "warn"]
        sure = not r.error and not r.dead and (any(all(r.w.ctx.decide(c, ()) is True for c in e.pc) for e in ws) if expect else not ws)
        ck.record(name, "discharged" if sure and n and not und else ("not separated" if n else "undecided"), cons, RULE8, {"valuations": n})


def earlier(*steps):
    """Queries made before on the same object, then the query of interest; only the warnings of the last one are judged."""
    def call(w, x, m, last):
        o = spec(w, x)
        for n, k in steps:
            w.method(o, n, **{a: x[v] if isinstance(v, str) else v for a, v in k.items()})
        w.since = len(w.ip.events)
        return w.method(o, m, **{a: x[v] if isinstance(v, str) else v for a, v in last.items()})
    return call


def before08(m, cut):
    """(name, earlier queries, arguments of the last query, a warning is due)"""
    dflt, given = (m, {}), (m, {cut: "lim"})
    yield "asked again", earlier(dflt), {}, True
    yield "asked again, twice", earlier(dflt, dflt), {}, True
    yield "after the same query with a cutoff", earlier(given), {}, True
    yield "after default queries of the others", earlier(*[(q, {}) for q in HL if q != m]), {}, True
    yield "after queries of the others with a cutoff", earlier(*[(q, {c: "lim"}) for q, c in HL.items() if q != m]), {}, True
    yield "after the parameters without a range", earlier(("get_Hm0", {}), ("get_Tmm10", {}), ("get_Tps", {}), ("get_Tp", {})), {}, True
    yield "with a cutoff, after a default query", earlier(dflt), {cut: "lim"}, False
    yield "with a cutoff, after default queries of the others", earlier(*[(q, {}) for q in HL if q != m]), {cut: "lim"}, False


@task
def c08_again(ck, m, name, thorough):
    s = SUBJECTS[m + ":none"]
    before, last, expect = next(q[1:] for q in before08(m, HL[m]) if q[0] == name)

    def build(w):
        x = s.build()(w)
        x["lim"] = C(Fraction(3, 10))
        return x
    r = Run(build, lambda w, x: before(w, x, m, last), pkg=ck.pkg)
    ck.absorb(r)
    title, cons = "%s %s" % (m, name), ck.where(s.entry)
    if r.error:
        return ck.record(title, "undecided", cons, RULE8, {"why": r.error})
    ws = [e for e in r.w.ip.events[r.w.since:] if e.kind == "warn"]
    bad, n, und = [], 0, None
    for v in s.vals(thorough)[::1 if thorough else 3]:
        ev = Ev(v)
        try:
            live = [e for e in ws if ev.holds(e.pc)]
        except (Undecided, Fails) as e:
            und = str(e)
            continue
        n += 1
        if expect and not live:
            bad.append({"no warning for": {k: brief(q) for k, q in v.items()}})
        if live and not expect:
            bad.append({"warning at": place(live[0]), "for": {k: brief(q) for k, q in v.items()}})
    ck.record(title, "violated" if bad else "undecided" if not n else "not separated", cons, RULE8,
              {"findings": bad[:2]} if bad else {"valuations": n, "open": und})


@plan("C08", GVN, RULE8)
def c08(tier):
    th = tier == "thorough"
    jobs = conf(["get_*_HF*", "get_*_LF*", "get_s0p*", "get_smm10*"], th)
    for m, cut in HL.items():
        other = "fmax" if cut == "fmin" else "fmin"
        jobs += [("c08_warn", (m, False, th)), ("c08_warn", ("%s:%s" % (m, cut), False, th)), ("c08_warn", (m + ":none", True, th)),
                 ("c08_warn", ("%s:%s" % (m, other), True, th))]
        jobs += [("c08_again", (m, q[0], th)) for q in before08(m, cut)]
    for m in ("get_Hm0", "get_Tmm10", "get_Tps", "get_Tp", "get_s0p", "get_smm10"):
        jobs += [("c08_warn", (m, False, th)), ("c08_warn", (m + ":none", False, th))]
    return jobs


# ------------------------------------------------------------------ C11
RULE11 = ("refusal conditions: under the hypothesis of malformed input every path of the entry point ends in an error (analysed path "
          "conditions of all raise statements and assertions)")
BAD = {}


def bad(name, entry, arrs, call, vals, nums=(), assume=None, dtypes=None, accept=False, given=None):
    """given(w, x): the malformed condition itself, assumed for the whole run."""
    BAD[name] = (entry, arrs, call, vals, nums, assume, dtypes or {}, accept, given)


@task
def c11_refused(ck, name):
    entry, arrs, call, vals, nums, assume, dts, accept, given = BAD[name]
    cons = ck.where(entry)

    def build(w):
        x = NS()
        sizes = {}
        for n, shp in arrs.items():
            for q in shp:
                if isinstance(q, str) and q not in sizes:
                    sizes[q] = w.int(q, lo=3)
        for n, shp in arrs.items():
            x[n] = w.arr(n, tuple(sizes.get(q, q) for q in shp), dts.get(n, "float"))
        for n in nums:
            x[n] = w.num(n)
        if assume:
            w.assume(assume(sizes))
        if given:
            w.assume(given(w, x))
        return x
    r = Run(build, call, pkg=ck.pkg)
    ck.absorb(r)
    if r.error:
        return ck.record(name, "undecided", cons, RULE11, {"why": r.error})
    if accept:
        if given and not r.raises and not r.dead:
            return ck.record(name, "discharged", cons, RULE11, {"refusing statements reachable": 0})
        wrong, und, ok = [], [], 0
        for v in vals:
            o = r.outcome(v)
            if o[0] == "raise":
                wrong.append({"refused": {k: brief(q) for k, q in v.items()}, "by": out_brief(o)})
            elif o[0] in ("undecided",):
                und.append(o[1])
            else:
                ok += 1
        if wrong:
            return ck.record(name, "violated", cons, RULE11, {"findings": wrong[:2]})
        return ck.record(name, "not separated" if ok else "undecided", cons, RULE11, {"why": und[:1]} if und else {"valuations": ok})
    if r.dead:
        return ck.record(name, "discharged", cons, RULE11, {"refused on every path": True})
    acc, und, ok = [], [], 0
    for v in vals:
        o = r.outcome(v)
        if o[0] == "value":
            acc.append({"accepted": {k: brief(q) for k, q in v.items()}, "result": out_brief(o)})
        elif o[0] == "undecided":
            und.append(o[1])
        else:
            ok += 1
    if acc:
        return ck.record(name, "violated", cons, RULE11, {"findings": acc[:2], "accepted": len(acc), "of": len(vals)})
    ck.record(name, "not separated" if ok else "undecided", cons, RULE11, {"refused": ok, "why": und[:1]})


def ax(n, dt=0.5, t0=0.0):
    return t0 + dt * np.arange(n)


def sig(n, k=0):
    return V.signal(n, 20 + k)


def posv(n, k=0):
    return np.abs(V.signal(n, 30 + k)) + 0.25


FT = {  # entry: (call(w, axis, data), complex data, positive data, checks: l(ength) 2(d) m(onotone), names)
    "core_wavefunctions:compute_moment": (lambda w, a, b: w.call("core_wavefunctions:compute_moment", a, b, 0), "float", "l2m"),
    "core_wavefunctions:compute_moment#lim": (lambda w, a, b: w.call("core_wavefunctions:compute_moment", a, b, 1, 1.0, 2.0), "float", "l2m"),
    "core_wavefunctions:compute_spectrum_params": (lambda w, a, b: w.call(CP, a, b), "float", "l2m"),
    "core_wavefunctions:compute_tps": (lambda w, a, b: w.call("core_wavefunctions:compute_tps", a, b), "float", "l2"),
    "core_wavefunctions:tpd": (lambda w, a, b: w.call("core_wavefunctions:tpd", a, b), "float", "l2m"),
    "spectrum:Spectrum": (lambda w, a, b: w.attr(w.call(SP, a, b), "sVarDens"), "float", "lm"),
    "spectrum:Spectrum#with directions": (lambda w, a, b: w.attr(w.call(SP, a, b, w.call("ref:some_directions", a)), "sVarDens"), "float", "lm"),
    "series:Series": (lambda w, a, b: w.attr(w.call(SE, a, b), "xTime"), "float", "le"),
    CS + "time2freq": (lambda w, a, b: w.call(CS + "time2freq", a, b), "float", "l2m"),
    CS + "time2freq_nyquist": (lambda w, a, b: w.call(CS + "time2freq_nyquist", a, b), "float", "l2m"),
    CS + "compute_spectrum_time_series": (lambda w, a, b: w.call(CS + "compute_spectrum_time_series", a, b, 0.0), "float", "l2m"),
    CS + "compute_spectrum_freq_series": (lambda w, a, b: w.call(CS + "compute_spectrum_freq_series", a, b, 12, 0.0), "complex", "l2m"),
    CS + "bandpassfilter": (lambda w, a, b: w.call(CS + "bandpassfilter", a, b, 0.1, 0.5), "float", "l2m"),
    CS + "frequency_averaging": (lambda w, a, b: w.call(CS + "frequency_averaging", a, b, 0.0), "float", "2"),
    CS + "unfold_spectrum": (lambda w, a, b: w.call(CS + "unfold_spectrum", a, b, False), "complex", "2"),
    CS + "spectrum2timeseries": (lambda w, a, b: w.call(CS + "spectrum2timeseries", a, b, 0.0, 6.0, 0.5, 1), "float", "l2"),
    CT_ + "sort_wave_params": (lambda w, a, b: w.call(CT_ + "sort_wave_params", a, b), "float", "l2"),
    CT_ + "determine_zero_crossing": (lambda w, a, b: w.call(CT_ + "determine_zero_crossing", a, b, "down"), "float", "l2"),
    CT_ + "determine_zero_crossing#up": (lambda w, a, b: w.call(CT_ + "determine_zero_crossing", a, b, "up"), "float", "l2"),
}
ODD_AXES = {
    "decreasing": lambda n: ax(n)[::-1].copy(), "repeated value": lambda n: np.r_[ax(n - 1), ax(n - 1)[-1]],
    "all equal": lambda n: np.ones(n), "larger last step": lambda n: np.r_[ax(n - 1), ax(n)[-1] + 0.25],
    "larger first step": lambda n: np.r_[-0.75, ax(n - 1)], "one different step inside": lambda n: ax(n) + 0.125 * (np.arange(n) >= n // 2),
    "one shifted value": lambda n: ax(n) + 0.0625 * (np.arange(n) == n // 2), "slightly growing step": lambda n: ax(n) + 2.0 ** -18 * np.arange(n) ** 2,
    "minute steps and a repeated value": lambda n: 2.0 ** -40 * np.r_[ax(n - 1), ax(n - 1)[-1]],
    "minute steps and two values swapped": lambda n: 2.0 ** -40 * ax(n)[np.r_[0, 2, 1, np.arange(3, n)]],
    "large values and a repeated value": lambda n: np.r_[ax(n - 1), ax(n - 1)[-1]] + 2.0 ** 20,
    "unsorted": lambda n: ax(n)[np.r_[1, 0, np.arange(2, n)]],
    "far from zero, one value shifted a little": lambda n: 2.0 ** 11 + ax(n) + 2.0 ** -7 * (np.arange(n) == n // 2),
    "far below zero, one step a little larger": lambda n: -2.0 ** 16 + ax(n) + 2.0 ** -6 * (np.arange(n) >= n // 2),
    "large steps, one a little larger": lambda n: 2.0 ** 9 * ax(n) + 0.125 * (np.arange(n) >= n // 2),
}
for _e, (_c, _dt, _what) in FT.items():
    _en = _e.split("#")[0]

    def _call(w, x, c=_c):
        return c(w, x.a, x.b)
    _mk = (lambda n, k=0: cplx(n, k)) if _dt == "complex" else ((lambda n, k=0: posv(n, k)) if "core_time" not in _e and "Series" not in _e and
                                                              "time2freq" not in _e else (lambda n, k=0: sig(n, k)))
    _nm = _e.split(":")[1]
    if "l" in _what:
        bad("%s: lengths differ" % _nm, _en, {"a": ("N",), "b": ("M",)}, _call,
            [{"N": n, "M": m, "a": ax(n, 0.5, 0.25), "b": _mk(m)} for n, m in ((8, 7), (7, 8), (9, 12), (12, 9), (8, 4), (3, 8), (10, 11))],
            dtypes={"b": _dt}, assume=lambda z: mk("not", mk("eq", z["N"], z["M"])))
        bad("%s: an axis without values" % _nm, _en, {"a": ("N",), "b": (0,)}, _call,
            [{"N": n, "a": ax(n, 0.5, 0.25), "b": _mk(n)[:0]} for n in (3, 8)], dtypes={"b": _dt})
        bad("%s: values without an axis" % _nm, _en, {"a": (0,), "b": ("N",)}, _call,
            [{"N": n, "a": ax(0), "b": np.sort(_mk(n))[::-1].copy()} for n in (3, 8)], dtypes={"b": _dt})
    if "2" in _what:
        for _w in ("first", "second", "both"):
            if _w == "first":
                _ar, _vs = {"a": ("N", 2), "b": ("N",)}, [{"N": n, "a": np.c_[ax(n), ax(n)], "b": _mk(n)} for n in (6, 7)]
            elif _w == "second":
                _ar, _vs = {"a": ("N",), "b": ("N", 2)}, [{"N": n, "a": ax(n, 0.5, 0.25), "b": np.c_[_mk(n), _mk(n, 1)]} for n in (6, 7)]
            else:
                _ar, _vs = {"a": ("N", 2), "b": ("N", 2)}, [{"N": n, "a": np.c_[ax(n), ax(n)], "b": np.c_[_mk(n), _mk(n, 1)]} for n in (6, 7)]
            bad("%s: two-dimensional %s argument" % (_nm, _w), _en, _ar, _call, _vs, dtypes={"b": _dt})
    if "m" in _what:
        bad("%s: any axis that is not strictly increasing with constant step" % _nm, _en, {"a": ("N",), "b": ("N",)}, _call,
            [{"N": n, "a": _f(n), "b": _mk(n)} for n in (3, 5, 8, 9, 12, 16) for _f in ODD_AXES.values()], dtypes={"b": _dt},
            given=lambda w, x: mk("not", w.call("ref:strictly_equidistant", x.a)))
    if "m" in _what or "e" in _what:
        bad("%s: valid axes are accepted" % _nm, _en, {"a": ("N",), "b": ("N",)}, _call,
            [{"N": n, "a": ax(n, dt, t0), "b": _mk(n)} for n in (5, 8, 9, 16) for dt, t0 in ((0.5, 0.25), (0.125, 2.0), (0.1, 0.3), (0.3, 0.7), (0.5, 4096.0), (0.125, -2.0 ** 17))],
            dtypes={"b": _dt}, accept=True, given=lambda w, x, e="e" in _what: w.call("ref:nearly_equidistant" if e else "ref:strictly_equidistant", x.a))
    if "e" in _what:

        def _jit(n, e):
            return np.r_[0.0, np.cumsum(0.5 * (1 + e * (-1.0) ** np.arange(n - 1)))]
        bad("Series: steps deviating by a tenth or more, or not increasing", _en, {"a": ("N",), "b": ("N",)}, _call,
            [{"N": n, "a": t0 + _jit(n, e), "b": sig(n)} for n in (9, 16, 17) for e in (0.14, 0.3, 0.75) for t0 in (0.0, 4096.0, -1024.0)] +
            [{"N": n, "a": ODD_AXES[k](n), "b": _mk(n)} for n in (5, 8, 9, 16) for k in ("decreasing", "all equal", "unsorted")],
            given=lambda w, x: mk("not", w.call("ref:nearly_equidistant", x.a)))
        bad("Series: nearly equidistant steps are accepted", _en, {"a": ("N",), "b": ("N",)}, _call,
            [{"N": n, "a": t0 + _jit(n, e), "b": sig(n)} for n in (9, 16, 17) for e in (0.0, 0.01, 0.08) for t0 in (0.0, 4096.0, -1024.0)], accept=True,
            given=lambda w, x: w.call("ref:nearly_equidistant", x.a))


def srt(n, k=0):
    return np.sort(posv(n, k))[::-1].copy()


HWP, EXW = CT_ + "highest_waves_params", CT_ + "exceedance_wave_height"
for _nm, _en, _c in (("highest_waves_params", HWP, lambda w, x: w.call(HWP, x.h, x.T, x.p)),
                     ("WaveHeights.highest_waves", "series:WaveHeights.highest_waves", lambda w, x: w.method(wh(w, x), "highest_waves", x.p))):
    _a = {"h": ("N",), "T": ("N",)}
    for _k, _ps, _g in (("below 0", (-0.001, -1.0), lambda w, x: mk("lt", x.p, C(0))), ("above 1", (1.001, 1.5, 2.0, 33.0), lambda w, x: mk("lt", C(1), x.p))):
        bad("%s: fraction %s" % (_nm, _k), _en, _a, _c, [{"N": n, "h": srt(n), "T": posv(n, 3), "p": p} for n in (3, 6) for p in _ps],
            nums=("p",), given=_g)
    bad("%s: fractions 0 and 1 are accepted" % _nm, _en, _a, _c, [{"N": n, "h": srt(n), "T": posv(n, 3), "p": p} for n in (3, 6) for p in (
        0.0, 1.0, 0.5, 0.999)], nums=("p",), accept=True,
        given=lambda w, x: mk("and", mk("and", mk("le", C(0), x.p), mk("le", x.p, C(1))), w.call("ref:descending", x.h)))
for _nm, _en, _c in (("exceedance_wave_height", EXW, lambda w, x: w.call(EXW, x.h, x.P)),
                     ("WaveHeights.get_exceedance_waveheight", "series:WaveHeights.get_exceedance_waveheight",
                      lambda w, x: w.method(wh(w, NS(x, T=x.h)), "get_exceedance_waveheight", x.P))):
    for _k, _ps, _g in (("below 0", (-0.5, -100.0), lambda w, x: mk("lt", x.P, C(0))), ("above 100", (100.5, 101.0, 250.0), lambda w, x: mk("lt", C(100), x.P))):
        bad("%s: percentage %s" % (_nm, _k), _en, {"h": ("N",)}, _c, [{"N": n, "h": srt(n), "P": p} for n in (3, 6) for p in _ps],
            nums=("P",), given=_g)
    bad("%s: percentages 0 and 100 are accepted" % _nm, _en, {"h": ("N",)}, _c, [{"N": n, "h": srt(n), "P": p} for n in (3, 6) for p in (
        0.0, 100.0, 1.5, 99.5)], nums=("P",), accept=True,
        given=lambda w, x: mk("and", mk("and", mk("le", C(0), x.P), mk("le", x.P, C(100))), w.call("ref:descending", x.h)))


def unsorted(n):
    out = []
    a = srt(n)
    for k in range(n - 1):
        b = a.copy()
        b[k], b[k + 1] = b[k + 1], b[k]
        if b[k] != b[k + 1]:
            out.append(b)
    out.append(a[::-1].copy())
    return out


bad("highest_waves_params: unsorted heights", HWP, {"h": ("N",), "T": ("N",)}, lambda w, x: w.call(HWP, x.h, x.T, 0.5),
    [{"N": n, "h": u, "T": posv(n, 3)} for n in (3, 5, 8) for u in unsorted(n)],
    given=lambda w, x: mk("not", w.call("ref:descending", x.h)))
bad("exceedance_wave_height: unsorted heights", EXW, {"h": ("N",)}, lambda w, x: w.call(EXW, x.h, 50.0),
    [{"N": n, "h": u} for n in (3, 5, 8) for u in unsorted(n)], given=lambda w, x: mk("not", w.call("ref:descending", x.h)))
bad("highest_waves_params: lengths differ", HWP, {"h": ("N",), "T": ("M",)}, lambda w, x: w.call(HWP, x.h, x.T, 0.5),
    [{"N": n, "M": m, "h": srt(n), "T": posv(m)} for n, m in ((4, 5), (5, 4), (8, 3), (3, 8))],
    assume=lambda z: mk("not", mk("eq", z["N"], z["M"])))
for _k, _shp in (("heights without periods", {"h": ("N",), "T": (0,)}), ("periods without heights", {"h": (0,), "T": ("N",)})):
    bad("highest_waves_params: " + _k, HWP, _shp, lambda w, x: w.call(HWP, x.h, x.T, 0.5),
        [{"N": n, "h": srt(n if _shp["h"][0] else 0), "T": posv(n if _shp["T"][0] else 0)} for n in (3, 8)])
bad("highest_waves_params: two-dimensional periods", HWP, {"h": ("N",), "T": ("N", 2)}, lambda w, x: w.call(HWP, x.h, x.T, 0.5),
    [{"N": n, "h": srt(n), "T": np.c_[posv(n), posv(n, 1)]} for n in (4, 5)])
for _k, _c in (("sort", lambda w, x: w.method(wh(w, x), "sort")), ("highest_waves", lambda w, x: w.method(wh(w, x), "highest_waves", 0.5))):
    bad("WaveHeights.%s: lengths differ" % _k, "series:WaveHeights." + _k, {"h": ("N",), "T": ("M",)}, _c,
        [{"N": n, "M": m, "h": srt(n), "T": posv(m)} for n, m in ((4, 5), (5, 4), (8, 3), (3, 8))],
        assume=lambda z: mk("not", mk("eq", z["N"], z["M"])))
bad("highest_waves_params: two-dimensional heights", HWP, {"h": ("N", 2), "T": ("N",)}, lambda w, x: w.call(HWP, x.h, x.T, 0.5),
    [{"N": n, "h": np.c_[srt(n), srt(n)], "T": posv(n)} for n in (4, 5)])
bad("exceedance_wave_height: two-dimensional heights", EXW, {"h": ("N", 2)}, lambda w, x: w.call(EXW, x.h, 50.0),
    [{"N": n, "h": np.c_[srt(n), srt(n)]} for n in (4, 5)])
IW = CT_ + "determine_params_individual_waves"
bad("determine_params_individual_waves: lengths differ", IW, {"c": (3,), "t": ("N",), "x": ("M",)}, lambda w, x: w.call(IW, x.c, x.t, x.x),
    [{"N": n, "M": m, "c": np.array([0.25, 1.25, 2.0]), "t": ax(n), "x": sig(m)} for n, m in ((8, 9), (9, 8), (8, 12))],
    assume=lambda z: mk("not", mk("eq", z["N"], z["M"])))
for _q, _shp in (("t", {"c": (3,), "t": ("N", 2), "x": ("N",)}), ("x", {"c": (3,), "t": ("N",), "x": ("N", 2)}), ("c", {"c": (3, 2), "t": ("N",), "x": ("N",)})):
    bad("determine_params_individual_waves: two-dimensional " + _q, IW, _shp, lambda w, x: w.call(IW, x.c, x.t, x.x),
        [{"N": n, "c": np.ones((3, 2)) * np.array([[0.25], [1.25], [2.0]]) if _q == "c" else np.array([0.25, 1.25, 2.0]),
          "t": np.c_[ax(n), ax(n)] if _q == "t" else ax(n), "x": np.c_[sig(n), sig(n)] if _q == "x" else sig(n)} for n in (8, 9)])
bad("freq2time: two-dimensional argument", CS + "freq2time", {"X": ("N", 2)}, lambda w, x: w.call(CS + "freq2time", x.X),
    [{"N": n, "X": np.c_[cplx(n, 1), cplx(n, 2)]} for n in (4, 5)], dtypes={"X": "complex"})


# wave decomposition
def zs(nl, nx=None, nw=None, nt="N", accept=False):
    nx, nw = nx or nl, nw or nl
    return ({"t": (nt,), "x": ("N", nl), "xl": (nx,), "wl": (nw,)}, lambda w, x: w.call(ZS, x.t, x.x, 3.0, x.xl, x.wl))


def zv(nl, xl, wl, n=8, m=None, t=None):
    return {"N": n, "M": m or n, "t": ax(m or n) if t is None else t, "x": np.stack([sig(n, k) for k in range(nl)], 1), "xl": np.array(xl, float),
            "wl": np.array(wl, float)}


def zbad(name, shape, vals, assume=None, accept=False, given=None):
    bad("decompose_linear_ZS: " + name, ZS, shape[0], shape[1], vals, assume=assume, accept=accept, given=given)


zbad("one gauge", zs(1), [zv(1, [0.0], [1.0]), zv(1, [2.0], [0.5])])
zbad("fewer positions than gauges", zs(3, 2, 3), [zv(3, [0, 1], [1, 1, 1])])
zbad("more positions than gauges", zs(2, 3, 3), [zv(2, [0, 1, 2], [1, 1, 1])])
zbad("fewer weights than gauges", zs(3, 3, 2), [zv(3, [0, 1, 2.5], [1, 1])])
zbad("more weights than gauges", zs(3, 3, 4), [zv(3, [0, 1, 2.5], [1, 1, 1, 1])])
zbad("time axis of different length", zs(3, nt="M"), [zv(3, [0, 1, 2.5], [1, 1, 1], 8, m) for m in (7, 9, 10)],
     assume=lambda z: mk("not", mk("eq", z["N"], z["M"])))
zbad("gauges out of order", zs(3), [zv(3, a, [1, 1, 1]) for a in ([0, 2, 1], [1, 0, 2], [2, 1, 0], [0, 3, 2.5], [0.5, 0.25, 3], [0, 0, 1], [0, 1, 1])],
     given=lambda w, x: mk("not", w.call("ref:ascending", x.xl)))
zbad("two gauges out of order", zs(2), [zv(2, a, [1, 1]) for a in ([1, 0], [2.0, 2.0], [0.0, -3.0])],
     given=lambda w, x: mk("not", w.call("ref:ascending", x.xl)))
for _k, _ws, _g in (("above 1", ([1.5, 1, 1], [1, 1.01, 1], [1, 1, 2.0]), lambda w, x: mk("lt", C(1), w.call("ref:largest_of", x.wl))),
                    ("below 0", ([-0.5, 1, 1], [1, -0.01, 1], [1, 1, -1]), lambda w, x: mk("lt", w.call("ref:smallest_of", x.wl), C(0)))):
    zbad("weights " + _k, zs(3), [zv(3, [0, 1, 2.5], a) for a in _ws], given=_g)
zbad("time axis not equidistant", zs(3), [zv(3, [0, 1, 2.5], [1, 1, 1], t=ODD_AXES[k](8)) for k in ODD_AXES],
     given=lambda w, x: mk("not", w.call("ref:strictly_equidistant", x.t)))
zbad("valid layouts are accepted", zs(3), [zv(3, a, b) for a, b in (([0, 1, 2.5], [1, 1, 1]), ([-3, -1, 0], [0, 1, 1]), ([0, 0.25, 9], [0.5, 0.75, 1]))], accept=True,
     given=lambda w, x: w.call("ref:valid_gauges", x.t, x.xl, x.wl))


MI = "core_engine:monotonic_increasing_constant_step"


@task
def c11_axis(ck, thorough):
    """The test of an axis itself: strictly increasing and constant step, nothing else."""
    if not ck.exists(MI, ("x",)):
        return

    def build(w):
        x = NS()
        x.a = w.arr("a", (w.int("N", lo=2),))
        return x
    good = [{"N": n, "a": ax(n, dt, t0)} for n in (2, 3, 8, 9) for dt, t0 in ((0.5, 0.25), (0.125, -3.0), (0.1, 0.3), (2.0 ** -36, 0.0), (300.0, 1e5), (0.125, 2.0 ** 17))]
    ck.conform("axis test", MI, build, lambda w, x: w.call(MI, x.a), lambda w, x: w.call("ref:strictly_equidistant", x.a),
               good + [{"N": n, "a": f(n)} for f in ODD_AXES.values() for n in (4, 5, 8, 9)], rule=GVN)


@plan("C11", RULE11, GVN, "valid neighbours of the malformed inputs (limits of the ranges included) are accepted")
def c11(tier):
    return [("c11_refused", (k,)) for k in BAD] + [("c11_axis", (tier == "thorough",))]


# ------------------------------------------------------------------ C21
RULE21 = "option tables: every documented value selects its own behaviour, every other value ends in an error on every path"


@task
def c21_case(ck, key, text, like, thorough):
    """A differently cased option gives the same graph."""
    s = SUBJECTS[key]
    meth = key.startswith("se.")

    def run(txt):
        def f(w, x):
            if meth:
                return w.method(ser(w, x), "get_crossing", txt)
            return w.call(CT_ + "determine_zero_crossing", x.t, x.x, txt)
        return f
    ref = (lambda w, x: w.call("ref:zero_crossing", x.t, x.x, like == "up"))
    ck.conform("%s: option %r" % (s.entry, text), s.entry, s.build(), run(text), ref, s.vals(thorough)[::2], rule=RULE21)


@task
def c21_invalid(ck, name, entry, key, prog, allowed_value=False):
    s = SUBJECTS[key]
    r = Run(s.build(), INVALID[prog], pkg=ck.pkg)
    ck.absorb(r)
    cons = ck.where(entry)
    if r.error:
        if "error" in r.error.lower() and "Unsupported" not in r.error:
            pass
        return ck.record(name, "undecided", cons, RULE21, {"why": r.error})
    if r.dead:
        return ck.record(name, "discharged", cons, RULE21)
    acc, ok, und = [], 0, []
    for v in s.vals():
        o = r.outcome(v)
        if o[0] == "value":
            acc.append({"accepted": {k: brief(q) for k, q in v.items()}, "result": out_brief(o)})
        elif o[0] == "undecided":
            und.append(o[1])
        else:
            ok += 1
    if acc:
        return ck.record(name, "violated", cons, RULE21, {"findings": acc[:1]})
    ck.record(name, "not separated" if ok else "undecided", cons, RULE21, {"refused": ok, "why": und[:1]})


DZ = CT_ + "determine_zero_crossing"
BADDIR = ("", "u", "upp", "do", "downward", "upwards", "zero", "up-crossing", "up ", " down", "updown", "d", "left", "none")
INVALID = {}
for _t in BADDIR:
    INVALID["core:" + _t] = lambda w, x, t=_t: w.call(DZ, x.t, x.x, t)
    INVALID["series:" + _t] = lambda w, x, t=_t: w.method(ser(w, x), "get_crossing", t)
for _l in (2, -1, 0.5, 1.5, 10, -0.25):
    for _fn in (JS, PMK, JS.replace("spectrum_", "spectrum_object_"), PMK.replace("spectrum_", "spectrum_object_")):
        def _f(w, x, l=_l, fn=_fn):
            r = w.call(fn, x.f, x.fp, x.hm0, x.gam, l)
            return w.attr(r, "sVarDens") if r.op == "obj" else r
        INVALID["%s:%s" % (_fn, _l)] = _f
PR = "plot_exceedance_waveheight_Rayleigh"
INVALID["bg"] = lambda w, x: (w.method(wh(w, x), PR, plot_BG=True), C(0))[1]
INVALID["bg:depth"] = lambda w, x: (w.method(wh(w, x), PR, plot_BG=True, water_depth=3.0), C(0))[1]
INVALID["bg:series"] = lambda w, x: (w.method(ser(w, x), PR, plot_BG=True, water_depth=3.0, normalize=True), C(0))[1]


@task
def c21_bgwarn(ck, thorough):
    """Warnings of the Battjes-Groenendijk curve: foreshore slope outside the range, Rayleigh regime; never an error."""
    s = SUBJECTS["bg"]
    r = Run(s.build(), s.call, pkg=ck.pkg)
    ck.absorb(r)
    cons = ck.where(s.entry)
    names = ("slope range warning", "Rayleigh regime warning", "no error in the Rayleigh regime or outside the slope range")
    if r.error:
        for n in names:
            ck.record(n, "undecided", cons, RULE21, {"why": r.error})
        return
    ws = [e for e in r.events if e.kind == "warn"]
    vs = [{"hm0": h, "nw": 1000, "d": d, "cota": c} for h, d in ((2.0, 2.0), (1.0, 1.5), (1.0, 40.0), (0.25, 30.0))
          for c in (5.0, 19.0, 19.5, 20.0, 20.5, 60.0, 249.0, 250.0, 250.5, 251.0, 1000.0)]
    f = {n: [] for n in names}
    n, und = 0, []
    for v in vs:
        sd = v["hm0"] / 4
        q = (0.35 + 5.8 / v["cota"]) * v["d"] / (sd * (2.69 + 3.24 * sd / v["d"]))
        slope, ray = not 20 <= v["cota"] <= 250, q > 2.75
        ev = Ev(v)
        try:
            live = len([e for e in ws if ev.holds(e.pc)])
            err = [e for e in r.raises if ev.holds(e.pc)]
        except (Undecided, Fails) as e:
            und.append(str(e))
            continue
        n += 1
        want = int(slope) + int(ray)
        if live != want:
            k = names[0] if not ray else names[1]
            f[k].append({"warnings": live, "expected": want, "for": v})
        if err:
            f[names[2]].append({"error at": place(err[0]), "for": v})
    sure = bg_paths(ck, s) if n and not any(f.values()) else {}
    for nm in names:
        if f[nm]:
            ck.record(nm, "violated", cons, RULE21, {"findings": f[nm][:2]})
        elif sure.get(nm):
            ck.record(nm, "discharged", cons, RULE21, {"hypotheses": sure["cases"], "valuations": n})
        else:
            ck.record(nm, "not separated" if n else "undecided", cons, RULE21, {"valuations": n, "why": und[:1]})


def bg_paths(ck, s):
    """The warning and error statements reachable under each combination of the two documented conditions."""
    ok = {"slope range warning": True, "Rayleigh regime warning": True, "no error in the Rayleigh regime or outside the slope range": True}
    n = 0
    for slope in ("below", "above", "inside"):
        for ray in (True, False):
            def build(w):
                x = s.build()(w)
                lo, hi = mk("lt", x.cota, C(20)), mk("lt", C(250), x.cota)
                w.assume(lo if slope == "below" else hi if slope == "above" else mk("and", mk("not", lo), mk("not", hi)))
                q = mk("lt", C(2.75), w.call("ref:bg_transition", x.hm0, x.d, x.cota))
                w.assume(q if ray else mk("not", q))
                return x
            r = Run(build, s.call, pkg=ck.pkg)
            if r.error or r.dead:
                return {}
            n += 1
            ws = [e for e in r.events if e.kind == "warn"]
            sure = all(r.w.ctx.decide(c, ()) is True for e in ws for c in e.pc)
            want = (slope != "inside") + ray
            if not sure or len({str(e.where) for e in ws}) != want or len(ws) != want:
                ok["slope range warning" if slope != "inside" else "Rayleigh regime warning"] = False
            if r.raises:
                ok["no error in the Rayleigh regime or outside the slope range"] = False
    ok["cases"] = n
    return ok


@task
def c21_range(ck, key, fn, val, like, thorough):
    """The numeric spectral-range option accepts 0 and 1 as any number type."""
    s = SUBJECTS[key]

    def call(w, x):
        r = w.call(fn, x.f, x.fp, x.hm0, x.gam, val)
        return w.attr(r, "sVarDens") if r.op == "obj" else r
    ck.conform("%s: range option %r" % (fn, val), fn, s.build(), call, lambda w, x: w.call("ref:jonswap", x.f, x.fp, x.hm0, x.gam, like),
               s.vals(thorough)[::2], rule=RULE21)


@plan("C21", RULE21, GVN)
def c21(tier):
    th = tier == "thorough"
    jobs = []
    for t in ("up", "Up", "UP", "uP"):
        jobs += [("c21_case", ("crossing", t, "up", th)), ("c21_case", ("se.crossing", t, "up", th))]
    for t in ("down", "Down", "DOWN", "dOwN"):
        jobs += [("c21_case", ("crossing", t, "down", th)), ("c21_case", ("se.crossing", t, "down", th))]
    for t in BADDIR:
        jobs.append(("c21_invalid", ("crossing direction %r refused" % t, DZ, "crossing", "core:" + t)))
        jobs.append(("c21_invalid", ("get_crossing direction %r refused" % t, "series:Series.get_crossing", "se.crossing", "series:" + t)))
    for k in INVALID:
        if "jonswap" in k or "pierson" in k:
            fn = k.rsplit(":", 1)[0]
            jobs.append(("c21_invalid", ("%s: range option %s refused" % (fn, k.rsplit(":", 1)[1]), fn, "jonswap:0", k)))
    for k, e, sub in (("bg", WH, "wh.Hrms"), ("bg:depth", WH, "wh.Hrms"), ("bg:series", SE, "se.max")):
        jobs.append(("c21_invalid", ("Battjes-Groenendijk curve without Hm0 (%s)" % k, "series:WaveHeights." + PR, sub, k)))
    for fn in (JS, PMK, JS.replace("spectrum_", "spectrum_object_"), PMK.replace("spectrum_", "spectrum_object_")):
        for v, like in ((0, 0), (1, 1), (0.0, 0), (1.0, 1)):
            jobs.append(("c21_range", ("jonswap:0", fn, v, like, th)))
    jobs.append(("c21_bgwarn", (th,)))
    return jobs
