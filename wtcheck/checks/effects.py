"""Properties decided from effects: caller data (C01), randomness (C09), files, figures and global state (C10)."""
from __future__ import annotations

import itertools
from fnmatch import fnmatch

import numpy as np

from ..ctx import TooBig
from ..decide import NS, Run, brief
from ..evalterm import PURE_PATH, Ev, Fails, Undecided, same
from ..engine import plan, select, task
from ..guided import derive, guard_literals
from ..pkg import IMPORTED
from ..ir import C, Node, mk, show, sym, walk
from ..plots import PLOTS, plot_build, plot_vals, run_plot
from ..subjects import SUBJECTS, Subject, spec, ser, wh, SE, ZS

SYNTH = ("synthesis*", "create_series*")


def loc_of(v):
    return v.args[0] if v.op == "ref" else None


def place(e):
    return "%s:%s in %s" % (e.where[0], e.where[2], e.where[1])


# ------------------------------------------------------------------ C01
def column_hook(w, i, v):
    """The same input as a column vector."""
    if i.kind == "arr" and len(i.shape) == 1 and i.role in ("axis", "data", "time"):
        n = v
        c = w.raw(v)
        w.ctx.declare(i.name + "_col", shape=tuple(w.ctx.shape(w.ctx.canon(c))) + (C(1),), dtype=i.dtype)
        r = w.ip.arg(w.st, i.name + "_col")
        w.args[i.name] = r
        return r
    return v


def col_vals(s, v):
    out = dict(v)
    for i in s.ins:
        if i.kind == "arr" and len(i.shape) == 1 and i.role in ("axis", "data", "time"):
            out[i.name + "_col"] = v[i.name].reshape(-1, 1)
    return out


RULE1 = ("effect and alias analysis: every in-place write reaching a location that belongs to a caller's argument (directly, "
         "through a view, or through an array kept by an object) is a violation; the content of every argument location after the "
         "call equals the argument")


def stressed(vals):
    """Data as they are rarely given: negative, zero, alternating, backward, huge, tiny, with a gap."""
    for v in vals[:12]:
        ks = [k for k, q in v.items() if isinstance(q, np.ndarray) and q.ndim >= 1 and q.dtype.kind == "f" and q.size]
        for f in (lambda q: -q, lambda q: q * np.resize([1.0, -1.0], q.shape), lambda q: q * np.resize([1.0, 0.0], q.shape), lambda q: q[::-1].copy(),
                  lambda q: q * 1e6, lambda q: q * 1e-12, lambda q: q - q.mean(), lambda q: np.where(np.arange(q.size).reshape(q.shape) == q.size // 2, np.nan, q)):
            for k in ks:
                yield dict(v, **{k: f(v[k])})


def check_args(ck, name, entry, build, prog, vals):
    """Content of every argument location after the call is the argument itself."""
    r = Run(build, prog, pkg=ck.pkg)
    ck.absorb(r)
    cons = ck.where(entry)
    w = r.w
    if r.error:
        return ck.record(name, "undecided", cons, RULE1, {"why": r.error})
    bad, und = [], []
    for an, ref in w.args.items():
        l = loc_of(ref)
        c = w.st.heap.get(l)
        evs = [e for e in r.events if e.kind in ("mutate", "maybe-mutate", "escape") and e.info.get("label") == "arg:" + (
            an if w.labels_name(l) is None else w.labels_name(l))]
        if not evs:
            continue
        orig = w.orig.get(l)
        if c is None or orig is None:
            continue
        definite = [e for e in evs if e.kind == "mutate"]
        try:
            if w.ctx.canon(w.ip.deref(c, w.st)) is w.ctx.canon(orig):
                if not definite:
                    und.append("%s may reach code that is not followed (%s)" % (an, place(evs[0])))
                continue
        except (TooBig, RecursionError):
            pass
        # certificate: a valuation under which the content differs, or a write whose content is unknown
        sep, evald = None, 0
        cc = w.ip.deref(c, w.st)
        for i, v in enumerate(itertools.chain(vals, stressed(vals) if definite else ())):
            try:
                ev = Ev(v)
                if i >= len(vals) and any(ev.holds(q.pc) for q in r.raises):
                    continue
                a, b = ev(orig), ev(cc)
                evald += 1
            except (Undecided, Fails):
                continue
            if not same(a, b, 1e-12, False):
                sep = (v, a, b)
                break
        if sep:
            bad.append({"argument": an, "written at": place((definite or evs)[0]), "separating valuation": {
                k: brief(q) for k, q in sep[0].items()}, "before": brief(sep[1]), "after": brief(sep[2])})
        elif not evald and definite:
            bad.append({"argument": an, "written at": place(definite[0]), "content": show(cc, 6)[:400]})
        elif definite:
            und.append("%s is written at %s without a visible change" % (an, place(definite[0])))
    if bad:
        return ck.record(name, "violated", cons, RULE1, {"findings": bad})
    if und:
        return ck.record(name, "undecided", cons, RULE1, {"why": und})
    return ck.record(name, "discharged", cons, RULE1, {"argument locations": len(w.args)})


@task
def c01_subject(ck, key, variant, thorough):
    s = SUBJECTS[key]
    vals = s.vals(thorough)
    if variant == "column":
        b = s.build(hook=column_hook)
        vals = [col_vals(s, v) for v in vals]
    elif variant == "int":
        names = {i.name: "int" for i in s.ins if i.kind == "arr" and i.dtype == "float"}
        b = s.build(override=names)
    else:
        b = s.build()
    check_args(ck, "%s (%s)" % (key, variant), s.entry, b, s.call, vals)


@task
def c01_plot(ck, key, thorough):
    e = PLOTS[key][0]
    check_args(ck, key, e, plot_build(key), lambda w, x: run_plot(w, x, key), plot_vals(key))


def history(w, x, kind):
    """All public methods of one object, one after the other."""
    if kind == "series":
        o = ser(w, x)
        for m, a in (("get_crossing", ()), ("get_skewness", ()), ("get_asymmetry", ()), ("get_spectrum_raw", ()), ("get_spectrum", ()),
                     ("max", ()), ("min", ()), ("mean", ()), ("var", ()), ("get_bandpassfilter", (0.0625, 0.25)),
                     ("get_fourier_comp", ()), ("sort", ()), ("get_Hs", ()), ("get_Hrms", ()), ("highest_waves", (0.5,)),
                     ("plot", ()), ("plot_hist_waveheight", ()), ("max", ())):
            w.method(o, m, *a)
        return w.attr(o, "xTime")
    if kind == "waves":
        o = wh(w, x)
        for m, a in (("sort", ()), ("get_Hs", ()), ("get_Hmax", ()), ("get_exceedance_waveheight", (2.0,)), ("highest_waves", (0.5,)),
                     ("plot_exceedance_waveheight", ()), ("plot_exceedance_waveheight_Rayleigh", ()), ("get_Hrms", ()),
                     ("plot_hist_waveheight", ()), ("sort", ())):
            w.method(o, m, *a)
        return w.attr(o, "hwave")
    o = spec(w, x)
    for m in {"spectrum": ("get_Hm0", "get_Tps", "get_Tp", "get_Tm01", "get_s0p", "plot", "get_Hm0"),
              "spectrum bands": ("get_Hm0_HF", "get_Tmm10_LF", "get_smm10_HF", "get_Tm02"),
              "spectrum synthesis": ("get_Hm0", "create_series", "get_Tmm10")}[kind]:
        w.method(o, m, *((w.num("t0"), w.num("t1"), w.num("dt")) if m == "create_series" else ()))
    return w.attr(o, "sVarDens")


@task
def c01_directions(ck, shape, ms, thorough):
    """The directions given to a spectrum."""
    from .shown import D1, D2, DT, d2vals, spec2
    D, sh = {"N x M": (D2, lambda n, m: (n, m)), "M": (D1, lambda n, m: (m,)), "M x N": (DT, lambda n, m: (m, n))}[shape]
    s = SUBJECTS["create_series"]
    b = Subject("spectrum with directions", s.entry, list(s.ins) + [D], None, None, lo=s.lo).build()
    more = {k: q for k, q in s.vals(thorough)[0].items() if k in ("t0", "t1", "dt")}
    vals = [dict(v, **more) for v in d2vals((2, 5), sh)(thorough)]

    def prog(w, x):
        o = spec2(w, x)
        for m in ms:
            w.method(o, m, *((w.num("t0"), w.num("t1"), w.num("dt")) if m == "create_series" else ()))
        return w.attr(o, "D")
    check_args(ck, "directions %s of a spectrum%s" % (shape, ", after " + ", ".join(ms) if ms else ""), "spectrum:Spectrum", b, prog, vals)


@task
def c01_history(ck, kind, entry, key, thorough):
    s = SUBJECTS[key]
    check_args(ck, "history of all methods (%s)" % kind, entry, s.build(), lambda w, x: history(w, x, kind), s.vals())


@task
def c01_objects(ck, thorough):
    """Decomposition of a list of series objects: neither the list nor the objects change."""
    s = SUBJECTS["zs_series"]
    state = {}

    def prog(w, x):
        objs = [w.call(SE, x.t, w.call("ref:column", x.x, i)) for i in range(3)]
        before = [dict(w.st.objs[o.args[0]]) for o in objs]
        arr = {k: w.st.heap[k] for k in list(w.st.heap)}
        lst = w.lst("series", objs)
        l0 = w.st.heap[lst.args[0]]
        r = w.call(ZS + "_series", lst, x.h, x.xl, x.wl, x.detlim)
        diff = []
        if w.st.heap[lst.args[0]] is not l0:
            diff.append("the list of series")
        for k, (o, b) in enumerate(zip(objs, before)):
            now = w.st.objs[o.args[0]]
            for a in sorted(set(b) | set(now)):
                if a not in b or a not in now or b[a] is not now[a]:
                    diff.append("attribute %s of series %d" % (a, k))
                elif b[a].op == "ref":
                    p, q = arr.get(b[a].args[0]), w.st.heap.get(now[a].args[0])
                    if p is not q and w.ctx.canon(p) is not w.ctx.canon(q):
                        diff.append("content of attribute %s of series %d" % (a, k))
        state["diff"] = diff
        return r
    r = Run(s.build(), prog, pkg=ck.pkg)
    ck.absorb(r)
    if r.error:
        return ck.record("series objects given to the decomposition", "undecided", ck.where(s.entry), RULE1, {"why": r.error})
    ck.rule_ob("series objects given to the decomposition", s.entry, RULE1, state.get("diff"))


@plan("C01", RULE1, "integer, floating-point and column-vector arguments are followed separately, because conversions copy or alias "
      "depending on the element type and shape")
def c01(tier):
    th = tier == "thorough"
    keys = select("*", "-moment*", "-params:*", "-get_*:*", "-se.wh.*") + select("moment0", "moment-1", "get_Hm0:none", "get_smm10_HF:none")
    jobs = []
    for k in keys:
        jobs.append(("c01_subject", (k, "float", th)))
        jobs.append(("c01_subject", (k, "int", th)))
        jobs.append(("c01_subject", (k, "column", th)))
    jobs += [("c01_plot", (k, th)) for k in PLOTS]
    jobs += [("c01_history", (a, b, c, th)) for a, b, c in (("series", SE, "se.max"), ("waves", "series:WaveHeights", "wh.Hrms"),
                                                           ("spectrum", "spectrum:Spectrum", "get_Tp:none"),
                                                           ("spectrum bands", "spectrum:Spectrum", "get_Tp:none"),
                                                           ("spectrum synthesis", "spectrum:Spectrum", "get_Tp:none"))]
    jobs.append(("c01_objects", (th,)))
    for sh in ("N x M", "M", "M x N"):
        jobs += [("c01_directions", (sh, ms, th)) for ms in ((), ("get_Hm0", "get_Tps", "get_s0p", "plot"), ("create_series",))]
    return jobs


# ------------------------------------------------------------------ C09
RULE9 = ("effect analysis of random draws and seeds: no draw is reachable from any entry point except the synthesis; the generator is "
         "seeded with exactly the caller's seed before the draw iff it is not negative")


@task
def c09_confined(ck, key, thorough):
    if key in PLOTS:
        r, e = Run(plot_build(key), lambda w, x: run_plot(w, x, key), pkg=ck.pkg), PLOTS[key][0]
    else:
        s = SUBJECTS[key]
        r, e = Run(s.build(), s.call, pkg=ck.pkg), s.entry
    ck.absorb(r)
    f = ["%s (%s) at %s" % (q.kind, q.info.get("fn", q.info.get("path", "")), place(q)) for q in r.events if q.kind in ("rng", "seed")]
    ck.rule_ob("no random draw in " + key, e, RULE9, f, undecided=r.error)


def seed_paths(ck, s, nonneg):
    """Under a seed of this sign (None: no seed given): one straight order of seeding and drawing, with the caller's seed itself."""
    def build(w):
        x = s.build()(w)
        if nonneg is not None:
            neg = mk("lt", x.seed, C(0))
            w.assume(mk("not", neg) if nonneg else neg)
        return x
    r = Run(build, s.call, pkg=ck.pkg)
    if r.error or r.dead:
        return False
    evs = [e for e in r.events if e.kind in ("rng", "seed")]
    if any(r.w.ctx.decide(c, ()) is not True for e in evs for c in e.pc):
        # conditions that have nothing to do with randomness may guard both alike, if they are the same for all of them
        if len({e.pc for e in evs}) != 1:
            return False
    kinds = [e.kind for e in evs]
    if not nonneg:
        return "rng" in kinds and not [e for e in evs if e.kind == "seed" and e.info.get("gen") is None]
    if kinds.count("seed") != 1 or kinds[0] != "seed" or "rng" not in kinds:
        return False
    a = evs[0].info.get("arg")
    return isinstance(a, Node) and r.w.ctx.canon(r.w.raw(a)) is sym("seed") and len({e.info.get("gen") is None for e in evs}) == 1


@task
def c09_seed(ck, key, thorough):
    s = SUBJECTS[key]
    r = Run(s.build(), s.call, pkg=ck.pkg)
    ck.absorb(r)
    name = "seeding of " + key
    cons = ck.where(s.entry)
    if r.error:
        return ck.record(name, "undecided", cons, RULE9, {"why": r.error})
    evs = [e for e in r.events if e.kind in ("rng", "seed")]
    seeded = "seed" in [i.name for i in s.ins]
    bad, n, und = [], 0, []
    base = s.vals(thorough)
    extra, order = [], {id(e): k for k, e in enumerate(r.events)}
    if any(r.w.ctx.decide(c, ()) is not True for e in evs for c in e.pc):
        extra = derive([i for i in s.ins if i.name != "seed"], [{k: q for k, q in v.items() if k != "seed"} for v in base], r, r, None, thorough,
                       lits=guard_literals(r))[:400]
    for i, v in enumerate(base + extra):
        for sd in ((0, 5, -1, -2, 1, 1000003, -7) if seeded else (None,)):
            ev = Ev(dict(v, seed=sd) if seeded else v)
            try:
                live = [e for e in evs if ev.holds(e.pc)]
                if i >= len(base):  # up to a refusal
                    stop = min([order[id(q)] for q in r.raises if ev.holds(q.pc)], default=len(order))
                    live = [e for e in live if order[id(e)] < stop]
                    if not [e for e in live if e.kind == "rng"]:
                        continue
                seeds = [e for e in live if e.kind == "seed"]
                draws = [e for e in live if e.kind == "rng"]
                n += 1
                if not draws:
                    bad.append("no random number is drawn (seed %s)" % sd)
                    continue
                if sd is None or sd < 0:
                    g = [e for e in seeds if e.info.get("gen") is None]
                    if g:
                        bad.append("the random state is reset with seed %s at %s" % (sd, place(g[0])))
                    continue
                first = live.index(draws[0])
                pre = [e for e in live[:first] if e.kind == "seed"]
                if not pre:
                    bad.append("with seed %s the draw at %s is not preceded by seeding" % (sd, place(draws[0])))
                    continue
                a = pre[-1].info.get("arg")
                if a is None or not isinstance(a, Node):
                    bad.append("seed %s is not used at %s" % (sd, place(pre[-1])))
                elif not same(ev(a), sd, 0, False):
                    bad.append("seed %s becomes %s at %s" % (sd, brief(ev(a)), place(pre[-1])))
                if len(seeds) > len(pre):
                    later = [e for e in seeds if e not in pre]
                    bad.append("the generator is seeded again between draws at %s" % place(later[0]))
                g = pre[-1].info.get("gen")
                for d in draws:
                    dg = d.info.get("gen")
                    if (g is None) != (dg is None):
                        bad.append("the draw at %s does not use the seeded generator" % place(d))
            except (Undecided, Fails) as e:
                if i < len(base):
                    und.append(str(e))
        if bad:
            break
    if bad:
        ck.record(name, "violated", cons, RULE9, {"findings": bad[:5]})
    elif n:
        ok = not und and all(seed_paths(ck, s, sgn) for sgn in ((True, False) if seeded else (None,)))
        ck.record(name, "discharged" if ok else "not separated", cons, RULE9, {"cases": n})
    else:
        ck.record(name, "undecided", cons, RULE9, {"why": und[:2]})


@task
def imported(ck, kind, thorough):
    """What importing the package does: the statements of every module and class body, outside functions."""
    for name, m in ck.pkg.modules.items():
        if IMPORTED not in m.defs:
            continue

        def prog(w, x, name=name):
            w.call(mk("func", name, IMPORTED))
            return w.num("nothing")
        r = Run(lambda w: {}, prog, pkg=ck.pkg)
        bad, und = [], []
        for q in r.events:
            if kind == "random":
                hit = q.kind in ("rng", "seed")
            else:
                hit = q.kind in ("file", "print", "global-write") or q.kind == "plt" and ".style." not in str(q.info.get("path"))
            if hit:
                (und if q.pc else bad).append("%s %s at %s:%s, when the module is imported" % (
                    q.kind, q.info.get("fn", q.info.get("name", "")), q.where[0], q.where[2]))
        ck.rule_ob("import of %s (%s)" % (name, kind), m.path, RULE9 if kind == "random" else RULE10, bad,
                   undecided=r.error or "; ".join(und) or None)


@plan("C09", RULE9, "value-graph conformance of the synthesised series with one uniform phase per component")
def c09(tier):
    th = tier == "thorough"
    jobs = [("c09_confined", (k, th)) for k in select("*", "-synthesis*", "-create_series*", "-moment*:*") + list(PLOTS)]
    jobs += [("c09_seed", (k, th)) for k in select(*SYNTH)]
    jobs += [("conform", (k, th)) for k in select(*SYNTH)]
    jobs.append(("imported", ("random", th)))
    return jobs


# ------------------------------------------------------------------ C10
RULE10 = ("effect analysis: numerical entry points reach no file, print, plot or global write; a plot method opens one figure, returns it, "
          "and saves exactly once, to the given path, after the last drawing call, iff the path is not empty")
SILENT = ("plt", "file", "print", "global-write")
DRAW = {"savefig", "figure", "close", "show"}


def lasting(q):
    """A value that outlives the call: a default value, a module or class variable."""
    return str(q.info.get("label", "")).startswith(("default:", "global:"))


@task
def c10_silent(ck, key, thorough):
    s = SUBJECTS[key]
    r = Run(s.build(), s.call, pkg=ck.pkg)
    ck.absorb(r)
    f = ["%s %s at %s" % (q.kind, q.info.get("fn", q.info.get("name", "")), place(q)) for q in r.events if q.kind in SILENT]
    f += ["%s is changed at %s" % (q.info["label"], place(q)) for q in r.events if q.kind == "mutate" and lasting(q)]
    if not any(fnmatch(key, p) for p in SYNTH):
        f += ["the random state is changed at %s" % place(q) for q in r.events if q.kind in ("rng", "seed")]
    f += ["call of %s at %s" % (q.info.get("path"), place(q)) for q in r.events
          if q.kind == "ext-call" and str(q.info.get("path", "")).split(".")[0] in WORLDLY]
    ck.rule_ob("no side effect in " + key, s.entry, RULE10, f, undecided=r.error)


WORLDLY = {"os", "shutil", "pathlib", "subprocess", "socket", "tempfile", "pickle", "io", "logging", "urllib", "requests", "sys", "ctypes",
           "json", "csv", "pandas", "matplotlib"}


@task
def c10_plot(ck, key, thorough):
    e = PLOTS[key][0]
    for path in ("", "out/figure 1.png", None):
        if path is None:
            def b(w, key=key):
                x = plot_build(key)(w)
                w.ctx.declare("path", shape=(), dtype="str")
                return x
            prog = lambda w, x: run_plot(w, x, key, savepath=mk("sym", "path"))  # noqa: E731
        else:
            b = plot_build(key)
            prog = lambda w, x, path=path: run_plot(w, x, key, savepath=path)  # noqa: E731
        state = {}

        def wrapped(w, x):
            v = prog(w, x)
            state["ret"] = v
            return v
        r = Run(b, wrapped, pkg=ck.pkg)
        ck.absorb(r)
        name = "%s with %s path" % (key, "no" if path == "" else ("a given" if path else "a symbolic"))
        if r.error:
            ck.record(name, "undecided", ck.where(e), RULE10, {"why": r.error})
            continue
        cases = ("", "a.png") if path is None else (path,)
        bad, und = [], unfollowed(r)
        for p in cases:
            vs = plot_vals(key)[:: 6 if not thorough else 2]
            for v in vs:
                ev = Ev(dict(v, path=p))
                live, open_ = [], None
                for q in r.events:
                    if q.kind not in SILENT or str(q.info.get("fn", "")).startswith(("get_", "fignum_exists")):
                        continue
                    try:
                        if may_hold(ev, q):
                            live.append(q)
                    except (Undecided, Fails) as ex:
                        open_ = str(ex)
                if open_ or und:
                    und.append(open_ or und[0])
                    bad += ["%s at %s" % (q.info.get("fn", q.kind), place(q)) for q in live if never(q)]
                else:
                    bad += judge_plot(live, state.get("ret"), p, ev)
                if bad:
                    break
        ck.rule_ob(name, e, RULE10, bad[:4], {"path given": path}, und[0] if und and not bad else None)


def unfollowed(run):
    """Calls of a plotting method on something the analysis has lost sight of."""
    return ["%s of an unknown object at %s" % (q.info["fn"], place(q)) for q in run.events
            if q.kind == "unknown-call" and q.info["fn"].lstrip(".") in PLOTTING][:1]


PLOTTING = {"plot", "savefig", "figure", "subplots", "subplot", "add_subplot", "semilogy", "semilogx", "loglog", "hist", "step", "scatter", "errorbar",
            "legend", "grid", "set_xlabel", "set_ylabel", "set_xlim", "set_ylim", "set_title", "set_xscale", "set_yscale", "set", "xlabel", "ylabel"}


OUTSIDE = {"extobj", "extbound", "ext"}
NEVER = {"close", "clf", "cla", "show", "pause", "ginput", "waitforbuttonpress", "draw_if_interactive"}
# calls that change the settings of the plotting library for everything drawn later
SETTINGS = {"rc", "rcdefaults", "rc_file", "rc_file_defaults", "ion", "ioff", "switch_backend", "set_loglevel", "set_cmap", "use",
            "register_cmap", "install_repl_displayhook"}


def settings(q):
    p = str(q.info.get("path") or "")
    return q.kind == "plt" and ("rcParams" in p or q.info.get("fn") in SETTINGS or ".style." in p)


def never(q):
    return q.kind in ("file", "print", "global-write") or q.info.get("fn") in NEVER or settings(q)


def outside_fn(o):
    """A function whose value depends on the state of the machine."""
    return o.startswith("ext:") and o[4:].split(".")[0] in WORLDLY | {"time", "datetime", "glob", "platform", "getpass", "locale", "plt"} and o[4:] not in PURE_PATH


def may_hold(ev, q):
    """Whether an event happens; what must never happen is taken to happen under any state of the world outside."""
    if not never(q):
        return ev.holds(q.pc)
    for c in q.pc:
        if any(x.op in OUTSIDE or outside_fn(x.op) for x in walk(c)):
            continue
        if not ev.holds((c,)):
            return False
    return True


def judge_plot(live, ret, path, ev):
    bad = []
    other = [q for q in live if q.kind in ("file", "print", "global-write")]
    for q in other:
        bad.append("%s (%s) at %s" % (q.kind, q.info.get("fn", q.info.get("name", "")), place(q)))
    plts = [q for q in live if q.kind == "plt"]
    figs = [q for q in plts if q.info["fn"] in ("figure", "subplots")]
    if len(figs) != 1:
        bad.append("%d figures are opened" % len(figs))
    elif plts and plts[0] is not figs[0]:
        bad.append("%s is drawn before the new figure is opened, at %s" % (plts[0].info["fn"], place(plts[0])))
    saves = [q for q in plts if q.info["fn"] in ("savefig", "print_figure", "imsave")]
    if path == "":
        for q in saves:
            bad.append("a file is written without a path at %s" % place(q))
    else:
        if len(saves) != 1:
            bad.append("%d files are written for a given path" % len(saves))
        else:
            q = saves[0]
            a = list(q.info["args"])
            kw = dict(q.info["kw"])
            t = a[0] if a else kw.get("fname")
            try:
                tv = ev(t) if t is not None else None
            except (Undecided, Fails):
                tv = Undecided
            if tv is not Undecided and str(tv) != path:
                bad.append("the file written at %s is %r instead of %r" % (place(q), tv, path))
            after = [d for d in plts[plts.index(q) + 1:] if d.info["fn"] not in ("close", "show", "draw", "pause")]
            for d in after:
                bad.append("%s at %s comes after the file has been written" % (d.info["fn"], place(d)))
    for q in plts:
        if q.info["fn"] in NEVER:
            bad.append("%s at %s" % (q.info["fn"], place(q)))
        elif settings(q):
            bad.append("%s changes settings of the process at %s" % (q.info["fn"], place(q)))
    if ret is not None and not (ret.op == "extobj" and str(ret.args[0]) in ("plt.figure", "plt.subplots", "plt.gcf")):
        if ret.op in ("const", "tuple") or ret.op == "extobj" and str(ret.args[0]) in ("plt.axes", "plt.plot", "plt.gca", "plt.axis"):
            bad.append("the figure is not returned")
    return bad


@plan("C10", RULE10)
def c10(tier):
    th = tier == "thorough"
    jobs = [("c10_silent", (k, th)) for k in select("*", "-moment*:*")]
    jobs += [("c10_plot", (k, th)) for k in PLOTS]
    jobs.append(("imported", ("side effects", th)))
    return jobs
