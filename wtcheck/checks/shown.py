"""What the plots show, what the objects store and report about themselves (C30, C31)."""
from __future__ import annotations

from fractions import Fraction
from types import SimpleNamespace

import numpy as np

from ..decide import NS, Run, brief, hasnan
from ..engine import plan, task
from ..evalterm import Ev, Fails, Undecided
from ..ir import C, Node, mk
from ..guided import derive, fresh, guard_literals, literals
from ..plots import PLOTS, plot_build, plot_vals, run_plot
from .conf import conf
from .effects import unfollowed
from .. import vals as V
from ..subjects import In, SUBJECTS, Subject, ser, spec, wh

RULE30 = ("the drawing calls reached by a plot method, with the value graphs of their arguments: every documented curve is drawn from the "
          "object's own data under its own name, and no other curve is drawn")
CURVES = {"plot", "semilogy", "semilogx", "loglog", "step", "scatter", "errorbar"}
NEUTRAL = {"figure", "subplots", "subplot", "add_subplot", "gca", "gcf", "grid", "xlabel", "ylabel", "set_xlabel", "set_ylabel", "legend",
           "xlim", "ylim", "set_xlim", "set_ylim", "savefig", "tight_layout", "xscale", "yscale", "set_xscale", "set_yscale", "xticks",
           "yticks", "set_xticks", "set_yticks", "title", "set_title", "suptitle", "set", "sca", "set_xticklabels", "set_yticklabels",
           "subplots_adjust", "axes", "add_axes", "get_figure", "get_axes", "set_tight_layout", "set_layout_engine", "margins", "draw", "minorticks_on", "tick_params", "set_facecolor", "set_size_inches"}


ALL = {"Tps": (), "Tmm10": (), "Tm02": ()}


def marks(w, x, which=ALL):
    top = w.call("ref:largest", x.S)
    out = [("spectrum", "", x.f, x.S)]
    for name, r in (("Tps", "tps"), ("Tmm10", "tmm10"), ("Tm02", "tm02")):
        if name not in which:
            continue
        T = w.call("ref:" + r, x.f, x.S, *[x[k] for k in which[name]])
        out.append(("mark of " + name, name, w.call("ref:mark_x", T), w.call("ref:mark_y", top)))
    return out


def rayleigh(w, x, bg=False, norm=False):
    n = w.call("ref:length", x.h)
    s = w.unpack2(w.call("ref:highest_of", x.h, x.T, C(Fraction(1, 3))))[0] if norm else 1
    ax = w.call("ref:rayleigh_axis", n)
    out = [("Rayleigh curve", "rayleigh", ax, w.call("ref:rayleigh_curve", x.h, x.T, s)),
           ("measured wave heights", "wave height", ax, w.call("ref:sorted_scaled", x.h, x.T, s))]
    if bg:
        h, p = w.unpack2(w.call("ref:battjes_groenendijk", 2.0, n, 1.25, 100.0))
        out.append(("Battjes-Groenendijk curve", "battjes", w.call("ref:exceedance_axis", p), w.call("ref:scaled", h, s)))
    return out


def heights_of(w, x):
    a, tc = w.unpack2(w.call("ref:series_waves", x.t, x.x))
    H, T = w.unpack2(a, 6)[:2]
    return NS(h=H, T=T), tc


def exceed(w, x):
    return [("exceedance curve", "", w.call("ref:sorted_scaled", x.h, x.T, 1), w.call("ref:probability_steps", w.call("ref:length", x.h)))]


def hist(w, x):
    return [("histogram", "", x.h, None)]


SHOWS = {
    "wh.plot_exceedance": exceed,
    "wh.plot_rayleigh": rayleigh,
    "wh.plot_rayleigh:normalized": lambda w, x: rayleigh(w, x, norm=True),
    "wh.plot_rayleigh:bg": lambda w, x: rayleigh(w, x, bg=True),
    "wh.plot_rayleigh:bg,normalized": lambda w, x: rayleigh(w, x, bg=True, norm=True),
    "wh.plot_hist": hist,
    "se.plot": lambda w, x: [("signal", "", x.t, x.x)],
    "se.plot:crossing": lambda w, x: [("signal", "", x.t, x.x),
                                      (lambda tc: ("zero crossings", "cross", tc, w.call("ref:zeros_like", tc)))(heights_of(w, x)[1])],
    "se.plot_exceedance": lambda w, x: exceed(w, heights_of(w, x)[0]),
    "se.plot_hist": lambda w, x: hist(w, heights_of(w, x)[0]),
    "sp.plot": lambda w, x: marks(w, x)[:1],
    "sp.plot:periods": marks,
    "sp.plot:all": marks,
    "sp.plot:limits": lambda w, x: marks(w, x, {"Tps": (), "Tmm10": ("fmin", "fmax"), "Tm02": ("fmin", "fmax")}),
    "sp.plot:other": lambda w, x: marks(w, x, {"Tm02": ()}),
    "sp.plot:noperiods": lambda w, x: marks(w, x)[:1],
    "sp.plot:xlim": lambda w, x: marks(w, x)[:1],
}
# calls with axis options: option and expected value
OPTIONS = {"sp.plot:xlim": (("xlim", 2.0), ("xlabel", "a"), ("ylabel", "b"))}

# what the axes must be called: the unit of the quantity drawn along them
AXES = {
    "wh.plot_exceedance": ("[$m$]", None), "se.plot_exceedance": ("[$m$]", None),
    "wh.plot_rayleigh": ("%", "[$m$]"), "wh.plot_rayleigh:bg": ("%", "[$m$]"),
    "wh.plot_rayleigh:normalized": ("%", "[-]"), "wh.plot_rayleigh:bg,normalized": ("%", "[-]"),
    "wh.plot_hist": ("[$m$]", None), "se.plot_hist": ("[$m$]", None),
    "se.plot": ("[$s$]", "[$m$]"), "se.plot:crossing": ("[$s$]", "[$m$]"),
    "sp.plot": ("Hz", "m^2/Hz"), "sp.plot:periods": ("Hz", "m^2/Hz"), "sp.plot:all": ("Hz", "m^2/Hz"), "sp.plot:limits": ("Hz", "m^2/Hz"), "sp.plot:other": ("Hz", "m^2/Hz"), "sp.plot:noperiods": ("Hz", "m^2/Hz"),
}
LOG = {"wh.plot_exceedance": "y", "se.plot_exceedance": "y"}


def plain(t):
    return "".join(c for c in t if c not in "[]$ {}")


def judge_axes(key, live, ev):
    """Units named at the axes, and logarithmic axes."""
    bad = []
    for i, axis in enumerate("xy"):
        want = AXES.get(key, (None, None))[i]
        texts = said(live, ev, axis + "label")
        if want is not None:
            if not texts:
                bad.append("the %s axis has no name" % axis)
            elif isinstance(texts[-1][1], str) and (plain(want) not in plain(texts[-1][1]) if want != "[-]" else "[-]" not in texts[-1][1]):
                bad.append("the %s axis is called %r at %s, it shows values in %s" % (axis, texts[-1][1], place(texts[-1][0]), want))
        scales = [z for _, z in said(live, ev, axis + "scale")] + ["log" for q in live if q.info["fn"] in ("semilog" + axis, "loglog")]
        is_log = scales[-1:] == ["log"]
        if is_log != (axis in LOG.get(key, "")):
            bad.append("the %s axis is %slogarithmic" % (axis, "" if is_log else "not "))
    return bad


def said(live, ev, name):
    out = []
    for q in live:
        kw = dict(q.info["kw"])
        if q.info["fn"] in (name, "set_" + name) and (q.info["args"] or kw):
            out.append((q, ev(q.info["args"][0] if q.info["args"] else next(iter(kw.values())))))
        elif q.info["fn"] == "set" and name in kw:
            out.append((q, ev(kw[name])))
    return out


def curves(e):
    """(x, y) of the curves of one call."""
    a = [q for q in e.info["args"]]
    if e.info["fn"] == "hist":
        kw = dict(e.info["kw"])
        return [(a[0] if a else kw.get("x"), None)]
    out, i = [], 0
    while i < len(a):
        if a[i].op == "const" and isinstance(a[i].val, str):
            i += 1
            continue
        if i + 1 < len(a) and not (a[i + 1].op == "const" and isinstance(a[i + 1].val, str)):
            out.append((a[i], a[i + 1]))
            i += 2
        else:
            out.append((None, a[i]))
            i += 1
    if not out:
        kw = dict(e.info["kw"])
        if "x" in kw and "y" in kw:
            out.append((kw["x"], kw["y"]))
    return out


def place(e):
    return "%s:%s in %s" % (e.where[0], e.where[2], e.where[1])


def close(a, b, rtol=1e-7):
    a, b = np.asarray(a, dtype=float).ravel(), np.asarray(b, dtype=float).ravel()
    if a.shape != b.shape:
        return False
    scale = np.max(np.abs(b[np.isfinite(b)]), initial=0.0)
    return bool(np.allclose(a, b, rtol=rtol, atol=rtol * scale + 1e-300, equal_nan=True))


def behind(key, base, plts, ref, thorough):
    """Further data, derived from the numbers the drawn values and their conditions compare with."""
    def nodes(q):
        for z in list(q.pc) + list(q.info["args"]) + [z for _, z in dict(q.info["kw"]).items()]:
            if isinstance(z, Node):
                yield z
    a = SimpleNamespace(value=mk("tuple", *[z for q in plts for z in nodes(q)]), raises=[], canon=lambda: C(0))
    s = SUBJECTS[PLOTS[key][2]]
    found = [c for c in guard_literals(a) + fresh(literals(a), literals(ref)) if c > 0]
    try:
        return derive(s.ins, base, None, None, lambda: s.vals(False), thorough, s.uniform, s.lo, lits=sorted(set(found)))[:160 if thorough else 48]
    except (TypeError, KeyError):
        return []


def large(key):
    """Long records, many waves, many frequencies."""
    s = SUBJECTS[PLOTS[key][2]]
    if "bg" in key:
        return []  # the iteration of the curve takes long
    V.NS_OVERRIDE[0] = (150, 171)
    try:
        out = s.vals(False)[:: 1 if key.startswith("se") else 3][:6]
    finally:
        V.NS_OVERRIDE[0] = None
    if key.startswith("se"):
        t = 0.5 * np.arange(150)
        out = out[:2] + [{"N": 150, "t": t, "x": V.dy(np.sin(2.0 * np.arange(150)) * (1 + 0.5 * np.cos(0.3 * np.arange(150))))}]
    return out


@task
def c30(ck, key, thorough):
    e = PLOTS[key][0]
    shown = []

    def reference(w, x):
        shown.extend(SHOWS[key](w, x))
        return [mk("tuple", w.raw(a), C(None) if b is None else w.raw(b)) for _, _, a, b in shown]
    ref = Run(plot_build(key), reference, pkg=ck.pkg)
    if ref.error:
        raise RuntimeError("reference of %s: %s" % (key, ref.error))
    run = Run(plot_build(key), lambda w, x: run_plot(w, x, key), pkg=ck.pkg)
    ck.absorb(run)
    if run.error or run.dead:
        return ck.record(key, "undecided" if run.error else "violated", ck.where(e), RULE30, {"why": run.error or "the plot is refused"})
    lost = unfollowed(run)
    if lost:
        return ck.record(key, "undecided", ck.where(e), RULE30, {"why": lost[0]})
    want = [(n, lab) for n, lab, _, _ in shown]
    plts = [q for q in run.events if q.kind == "plt"]
    # the drawn graphs are the reference graphs themselves
    proved = True
    cs = [(cx, cy) for q in plts if q.info["fn"] in CURVES or q.info["fn"] == "hist" for cx, cy in curves(q)]
    cn = [tuple(None if z is None else run.w.ctx.canon(z) for z in c) for c in cs]
    for _, _, a, b in shown:
        pair = (run.w.ctx.canon(ref.w.raw(a)), None if b is None else run.w.ctx.canon(ref.w.raw(b)))
        proved = proved and pair in cn
    bad, und, n = [], [], 0
    base = plot_vals(key)[:: 1 if thorough or key.startswith('se') else 2 if key.startswith('wh') else 3]
    extra = [] if proved and all(run.w.ctx.decide(c, ()) is True for q in plts for c in q.pc) else behind(key, base, plts, ref, thorough)
    extra = extra + large(key)
    for i, v in enumerate(base + extra):
        so = ref.outcome(v)
        if so[0] != "value" or i >= len(base) and hasnan(so[1]):
            continue
        ev = Ev(v)
        try:
            live = [q for q in plts if ev.holds(q.pc)]
            if any(ev.holds(q.pc) for q in run.raises):
                if i >= len(base):
                    continue
                bad.append("the plot is refused")
                break
            drawn = []
            for q in live:
                if q.info["fn"] in CURVES or q.info["fn"] == "hist":
                    for cx, cy in curves(q):
                        yy = ev(cy) if cy is not None else None
                        xx = ev(cx) if cx is not None else np.arange(len(np.asarray(yy)))
                        drawn.append((q, xx, yy))
                elif q.info["fn"] not in NEUTRAL:
                    raise Undecided("drawing call %s" % q.info["fn"])
            n += 1
            bad += judge(want, so[1], drawn, ev)
            bad += judge_options(key, live, ev) + judge_ticks(live, ev) + judge_axes(key, live, ev)
        except (Undecided, Fails) as ex:
            if i < len(base):
                und.append(str(ex))
            continue
        if bad:
            break
    if bad:
        return ck.record(key, "violated", ck.where(e), RULE30, {"findings": bad[:4], "inputs": brief(tuple(v.values()))})
    if und:
        return ck.record(key, "undecided", ck.where(e), RULE30, {"why": und[0], "valuations": n})
    ck.record(key, "discharged" if proved else "not separated", ck.where(e), RULE30, {"valuations": n, "drawing calls": len(plts)})


def judge(want, values, drawn, ev):
    bad, used = [], set()
    for (name, lab), (wx, wy) in zip(want, values):
        hit = None
        for k, (q, xx, yy) in enumerate(drawn):
            if q.info["fn"] == "hist" or wy is None:
                ok = (q.info["fn"] == "hist") == (wy is None) and close(np.sort(np.asarray(xx, float).ravel()), np.sort(np.asarray(wx, float).ravel()))
            else:
                ok = close(xx, wx) and close(yy, wy)
            if ok:
                hit = k
                used.add(k)
                lb = dict(q.info["kw"]).get("label")
                lb = lb.val if lb is not None and lb.op == "const" else None
                if lab and isinstance(lb, str) and lab.lower() not in lb.lower():
                    hit = (k, lb, q)
                    continue
                break
        if hit is None:
            bad.append("the %s is not drawn (%s)" % (name, "; ".join("%s draws %s against %s" % (place(q), brief(np.asarray(yy), 120) if yy is not None else "a histogram", brief(np.asarray(xx), 120)) for q, xx, yy in drawn)))
        elif isinstance(hit, tuple):
            bad.append("the %s is drawn under the name %r at %s" % (name, hit[1], place(hit[2])))
    for k, (q, xx, yy) in enumerate(drawn):
        if k not in used:
            bad.append("%s draws a curve that is none of %s" % (place(q), ", ".join(n for n, _ in want)))
    return bad


def judge_options(key, live, ev):
    bad = []
    for name, val in OPTIONS.get(key, ()):
        hits = said(live, ev, name)
        if not hits:
            bad.append("%s is not passed on" % name)
        for q, got in hits[-1:]:
            if isinstance(val, str) and got != val or not isinstance(val, str) and not np.any(np.asarray(got, dtype=object) == val):
                bad.append("%s is %r instead of %r at %s" % (name, got, val, place(q)))
    return bad


def judge_ticks(live, ev):
    """Exceedance percentages written at the ticks stand where the curves have them."""
    bad = []
    for q in live:
        if q.info["fn"] in ("set_xticks", "xticks"):
            kw = dict(q.info["kw"])
            a = list(q.info["args"])
            pos = a[0] if a else kw.get("ticks")
            lab = a[1] if len(a) > 1 else kw.get("labels")
            if pos is None or lab is None:
                continue
            p, t = np.asarray(ev(pos), float), ev(lab)
            try:
                t = np.asarray([float(str(z).strip().rstrip("%")) for z in t])
            except (TypeError, ValueError):
                continue
            if not close(p, np.sqrt(-np.log(t / 100.0)), 1e-6):
                bad.append("tick labels at %s do not stand at their exceedance probabilities" % place(q))
    return bad


@plan("C30", RULE30)
def c30_plan(tier):
    return [("c30", (k, tier == "thorough")) for k in SHOWS]


# ------------------------------------------------------------------ what objects keep and report about themselves
RULE31 = ("value-graph conformance of what an object keeps with what it returned, and of its sizes and descriptions with the data it "
          "holds")
KEPT = {"get_Hm0": "Hm0", "get_Tmm10": "Tmm10", "get_Tm01": "Tm01", "get_Tm02": "Tm02", "get_Tp": "Tp", "get_Tps": "Tps",
        "get_Hm0_HF": "Hm0_HF", "get_Hm0_LF": "Hm0_LF", "get_Tmm10_HF": "Tmm10_HF", "get_Tmm10_LF": "Tmm10_LF",
        "get_s0p": "s0p", "get_smm10": "smm10", "get_smm10_HF": "smm10_HF"}


@task
def c31_kept(ck, key, variant, thorough):
    """The attribute is the value returned by the last query of that name, whatever limits an earlier query had."""
    s = SUBJECTS[key + variant]
    lims = [i.name for i in s.ins if i.name in ("fmin", "fmax", "g")]

    def both(w, x, get):
        o = w.call("spectrum:Spectrum", x.f, x.S)
        if lims:
            w.method(o, key)
        r = w.raw(w.method(o, key, **{k: x[k] for k in lims}))
        return r, get(w, o, r)
    ck.conform("%s kept as %s" % (key + variant, KEPT[key]), s.entry, s.build(), lambda w, x: both(w, x, lambda w, o, r: w.raw(w.attr(o, KEPT[key]))),
               lambda w, x: both(w, x, lambda w, o, r: r), s.vals(thorough), rule=RULE31)


# queries a query is made of: their values may change with it
MADE = {"get_s0p": ("Hm0", "Tps"), "get_smm10": ("Hm0", "Tmm10"), "get_smm10_HF": ("Hm0_HF", "Tmm10_HF", "Tmm10"), "get_Hm0_HF": ("Tmm10",),
        "get_Hm0_LF": ("Tmm10",), "get_Tmm10_HF": ("Tmm10",), "get_Tmm10_LF": ("Tmm10",), "get_Tps": ("Tp",), "get_Tp": ("Tps",)}


@task
def c31_alone(ck, key, variant, thorough):
    """A query leaves the values kept by other queries as they are, but for the queries it is made of."""
    s = SUBJECTS[key + variant]
    lims = [i.name for i in s.ins if i.name in ("fmin", "fmax", "g")]
    others = [q for q in KEPT if q != key and KEPT[q] not in MADE.get(key, ())]

    def both(w, x, ask):
        o = w.call("spectrum:Spectrum", x.f, x.S)
        for q in KEPT:
            w.method(o, q)
        if ask:
            w.method(o, key, **{k: x[k] for k in lims})
        return tuple(w.raw(w.attr(o, KEPT[q])) for q in others)
    ck.conform("%s leaves the others alone" % (key + variant), s.entry, s.build(), lambda w, x: both(w, x, True), lambda w, x: both(w, x, False),
               s.vals(thorough)[:: 1 if thorough else 4], rule=RULE31)


def leaves(n, out):
    """The values put into a text."""
    if n.op == "fstr":
        for a in n.args:
            leaves(a, out)
    elif n.op == "strop":
        for a in n.args[1:]:
            leaves(a, out)
    elif n.op in ("tuple", "list"):
        for a in n.args:
            leaves(a, out)
    elif n.op == "dict":
        for _, a in n.args[0]:
            leaves(a, out)
    else:
        out.append(n)
    return out


def spec2(w, x):
    return w.call("spectrum:Spectrum", x.f, x.S, x.D)


D2, D1 = In("D", "arr", shape=("N", "M")), In("D", "arr", shape=("M",))
DN, D0 = In("D", "arr", shape=("N", 1)), In("D", "arr", shape=(1,))
DT = In("D", "arr", shape=("M", "N"))


def grid(shape):
    return 15.0 * np.arange(1, 1 + int(np.prod(shape))).reshape(shape) - 45.0


def d2vals(ms, shape=lambda n, m: (n, m)):
    return lambda thorough: [dict(v, M=m, D=grid(shape(len(v["f"]), m))) for v in SUBJECTS["get_Tp:none"].vals(thorough)[::6] for m in ms]


def redone(w, x):
    o = ser(w, x)
    w.method(o, "get_crossing", "up")
    return o


# object -> (constructor, subject with the inputs, extra inputs, valuations, values its str must name, values its repr must name)
OBJECTS = {
    "series:WaveHeights": (wh, "wh.Hrms", (), None, lambda w, x: [w.call("ref:length", x.h)], lambda w, x: [w.call("ref:length", x.h)]),
    "series:WaveHeights sorted": (lambda w, x: (lambda o: (w.method(o, "sort"), o)[1])(wh(w, x)), "wh.Hrms", (), None,
                                  lambda w, x: [w.call("ref:length", x.h)], lambda w, x: [w.call("ref:length", x.h)]),
    "series:Series": (ser, "se.max", (), None, lambda w, x: [w.call("ref:length", x.t)], lambda w, x: [w.call("ref:length", x.t)]),
    "series:Series after get_crossing": (redone, "se.max", (), None, lambda w, x: [w.call("ref:length", x.t)], lambda w, x: [w.call("ref:length", x.t)]),
    "spectrum:Spectrum": (spec, "get_Tp:none", (), None, lambda w, x: [w.call("ref:length", x.f), C("1D")], lambda w, x: [C("1D")]),
    "spectrum:Spectrum 2D": (spec2, "get_Tp:none", (D2,), d2vals((2, 5)), lambda w, x: [w.call("ref:length", x.f), C("2D")], lambda w, x: [C("2D")]),
    "spectrum:Spectrum with directions": (spec2, "get_Tp:none", (D1,), d2vals((2, 7), lambda n, m: (m,)), lambda w, x: [w.call("ref:length", x.f), C("2D")],
                                          lambda w, x: [C("2D")]),
    "spectrum:Spectrum with a single direction": (spec2, "get_Tp:none", (D0,), d2vals((1,), lambda n, m: (1,)), lambda w, x: [w.call("ref:length", x.f), C("2D")],
                                                  lambda w, x: [C("2D")]),
    "spectrum:Spectrum with directions first": (spec2, "get_Tp:none", (DT,), d2vals((2, 5), lambda n, m: (m, n)),
                                                lambda w, x: [w.call("ref:length", x.f), C("2D")], lambda w, x: [C("2D")]),
    "spectrum:Spectrum with one direction": (spec2, "get_Tp:none", (DN,), d2vals((1,)), lambda w, x: [w.call("ref:length", x.f), C("2D")], lambda w, x: [C("2D")]),
}


def obj_build(key):
    ctor, sub, extra = OBJECTS[key][:3]
    s = SUBJECTS[sub]
    return Subject(key, s.entry, list(s.ins) + list(extra), None, None, lo=s.lo).build()


def obj_vals(key, thorough):
    return (OBJECTS[key][3] or SUBJECTS[OBJECTS[key][1]].vals)(thorough)


@task
def c31_text(ck, key, meth, thorough):
    """Every number and flag in the description of an object is the one of the data it holds."""
    ctor, names = OBJECTS[key][0], OBJECTS[key][4 if meth == "__str__" else 5]
    cls = key.split(" ")[0]
    name, cons = "%s of %s" % (meth, key), ck.where(cls + "." + meth)
    run = Run(obj_build(key), lambda w, x: (w.raw(w.method(ctor(w, x), meth)), mk("tuple", *[w.raw(q) for q in names(w, x)])), pkg=ck.pkg)
    ck.absorb(run)
    if run.error or run.dead:
        return ck.record(name, "undecided" if run.error else "violated", cons, RULE31, {"why": run.error or "the description is refused"})
    can = run.w.ctx.canon
    text, want = run.value.args[0], run.value.args[1].args
    proved, n = False, 0
    got = [can(q) for q in leaves(text, [])]
    proved = all(can(q) in got or q.op == "const" and any(g.op == "const" and isinstance(g.val, str) and q.val in g.val for g in got) for q in want)
    numbers = [g for g in got if not (g.op == "const" and isinstance(g.val, str))]
    for v in obj_vals(key, thorough)[:: 1 if thorough else 5]:
        try:
            ev = Ev(v)
            vs = [ev(g) for g in got]
            ws = [ev(q) for q in want]
        except (Undecided, Fails) as ex:
            if proved:
                continue
            return ck.record(name, "undecided", cons, RULE31, {"why": str(ex)})
        n += 1
        for q in ws:
            ok = any(isinstance(z, str) and q in z for z in vs) if isinstance(q, str) else any(not isinstance(z, str) and np.ndim(z) == 0 and z == q for z in vs)
            if not ok:
                return ck.record(name, "violated", cons, RULE31, {"why": "the description does not name %r" % (q,), "shows": brief(tuple(vs)), "inputs": brief(tuple(v.values()))})
        for z in vs:
            if not isinstance(z, str) and np.ndim(z) == 0 and np.isreal(z) and not any(not isinstance(q, str) and z == q for q in ws):
                return ck.record(name, "violated", cons, RULE31, {"why": "the description names %r, the data have %s" % (z, [q for q in ws]), "inputs": brief(tuple(v.values()))})
    ck.record(name, "discharged" if proved else "not separated", cons, RULE31, {"valuations": n, "values shown": len(numbers)})


HELD = {
    "series:WaveHeights": (("hwave", "twave", "nwave"), lambda w, x: (x.h, x.T, w.call("ref:length", x.h))),
    "series:WaveHeights sorted": (("hwave", "twave", "nwave"), lambda w, x: w.unpack2(w.call("ref:sort_waves", x.h, x.T)) + (w.call("ref:length", x.h),)),
    "series:Series": (("time", "xTime", "nt", "dt"), lambda w, x: (x.t, x.x, w.call("ref:length", x.t), w.call("ref:step", x.t))),
    "series:Series after get_crossing": (("time", "xTime", "nt", "dt"), lambda w, x: (x.t, x.x, w.call("ref:length", x.t), w.call("ref:step", x.t))),
    "spectrum:Spectrum": (("f", "sVarDens", "nf", "spec"), lambda w, x: (x.f, x.S, w.call("ref:length", x.f), C("1D"))),
    "spectrum:Spectrum with directions": (("nf", "spec", "D"), lambda w, x: (w.call("ref:length", x.f), C("2D"), x.D)),
    "spectrum:Spectrum with a single direction": (("nf", "spec", "D"), lambda w, x: (w.call("ref:length", x.f), C("2D"), x.D)),
    "spectrum:Spectrum with directions first": (("f", "sVarDens", "nf", "spec", "D"), lambda w, x: (x.f, x.S, w.call("ref:length", x.f), C("2D"), x.D)),
    "spectrum:Spectrum with one direction": (("nf", "spec", "D"), lambda w, x: (w.call("ref:length", x.f), C("2D"), x.D)),
    "spectrum:Spectrum 2D": (("f", "sVarDens", "nf", "spec", "D"), lambda w, x: (x.f, x.S, w.call("ref:length", x.f), C("2D"), x.D)),
}


@task
def c31_held(ck, key, thorough):
    attrs, ref = HELD[key]
    ctor = OBJECTS[key][0]

    def prog(w, x):
        o = ctor(w, x)
        return tuple(w.raw(w.attr(o, a)) for a in attrs)
    ck.conform("data held by %s" % key, key.split(" ")[0], obj_build(key), prog, lambda w, x: tuple(w.raw(q) for q in ref(w, x)),
               obj_vals(key, thorough)[:: 1 if thorough else 3], rule=RULE31)


@plan("C31", RULE31)
def c31_plan(tier):
    th = tier == "thorough"
    jobs = []
    for k in KEPT:
        vs = ["", ":none", ":fmin", ":fmax", ":g"] if th else ["", ":none"]
        jobs += [("c31_kept", (k, v, th)) for v in vs if k + v in SUBJECTS]
        jobs += [("c31_alone", (k, v, th)) for v in vs[:1] + ([":none"] if not th else []) if k + v in SUBJECTS]
    jobs += conf(["se._waves:*"], th)
    for k in OBJECTS:
        jobs += [("c31_text", (k, m, th)) for m in ("__str__", "__repr__")]
        jobs.append(("c31_held", (k, th)))
    return jobs
