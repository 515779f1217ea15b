"""Properties decided by conformance of entry points with reference definitions."""
from __future__ import annotations

import numpy as np

from ..decide import Run
from ..engine import plan, select, task
from ..subjects import SUBJECTS, spec
from .floats import RULE13, RULEF, in_floats

GVN = ("value-graph conformance: the inlined value graph of the entry point has the same normal form as the graph of the "
       "reference definition; if the forms differ, the difference is certified by a valuation of the declared symbols under "
       "which the two graphs have different values")


def conf(pats, thorough):
    return [("conform", (k, thorough)) for k in select(*pats)]


def simple(pid, *pats, more=None, rules=()):
    @plan(pid, GVN, *rules)
    def f(tier):
        th = tier == "thorough"
        return conf(pats, th) + (more(th) if more else [])


def by_definition(ck, s, lemma):
    """The graph is the definition's own normal form, of which the relation is a theorem."""
    def proof():
        a, z = Run(s.build(), s.call, pkg=ck.pkg), Run(s.build(), s.ref, pkg=ck.pkg)
        if a.error or z.error or a.dead or z.dead:
            return None
        ok = ck.equal_forms(a, z)
        if not ok:
            z = Run(s.build(), s.ref, pkg=ck.pkg, forms=True)
            ok = not z.error and ck.equal_forms(a, z)
        return "normal form of the definition; lemma: " + lemma if ok else None
    return proof


@task
def relational(ck, name, key, progs, thorough, tol=1e-7):
    """progs: name of a pair of programs over the inputs of a subject."""
    s = SUBJECTS[key]
    a, b = PAIRS[progs]

    def proof():
        # where the first one is defined (its own definition is a separate obligation), the second one has its value
        p, q = Run(s.build(), lambda w, x: a(w, x, s), pkg=ck.pkg), Run(s.build(), lambda w, x: b(w, x, s), pkg=ck.pkg)
        d, z = Run(s.build(), s.ref, pkg=ck.pkg), Run(s.build(), s.ref, pkg=ck.pkg, forms=True)
        if p.error or q.error or d.error or z.error:
            return None
        return "same normal form where defined" if (ck.equal_forms(p, d) or ck.equal_forms(p, z)) and ck.equal_forms(q, p) else None
    ck.conform(name, s.entry, s.build(), lambda w, x: a(w, x, s), lambda w, x: b(w, x, s), [v for v in s.vals(thorough) if has_energy(v)], tol=tol,
               rule="two entry points have the same value graph", proof=proof)


def has_energy(v):
    """Below a wave height of 1e-6 the combined function has no values by definition."""
    return "S" not in v or not 0 < np.max(np.abs(v["S"])) < 1e-3


QS = ("get_Hm0", "get_Tp", "get_Tps", "get_Tmm10", "get_Tm01", "get_Tm02")


def lim_args(x):
    return {k: x[k] for k in ("fmin", "fmax") if k in x}


PAIRS = {
    "params=queries": (lambda w, x, s: s.call(w, x),
                       lambda w, x, s: tuple(w.method(spec(w, x), q, **lim_args(x)) for q in QS)),
}


def c06_more(th):
    return [("relational", ("params = queries (%s)" % k, k, "params=queries", th))
            for k in ("params", "params:none", "params:fmin", "params:fmax")]


simple("C06", "moment*", "params*", "get_Hm0", "get_Hm0:*", "get_Tmm10", "get_Tmm10:*", "get_Tm01*", "get_Tm02*", "tpd",
       more=c06_more, rules=("the combined parameter function and the spectrum's own queries have the same value graph",))
simple("C07", "moment*", "params*", "get_*", "-*:g", more=in_floats("moment*", "params*", "get_*", "-*:g", "-*:dirs", "-get_s*"), rules=(RULEF,))
simple("C13", "highest", "exceedance", "wh.H*", "wh.exceedance", "wh.highest", "se.wh.*",
       more=lambda th: [("c13_ranks", (k, th)) for k in ("exceedance", "wh.exceedance", "highest", "wh.highest", "wh.Hs")],
       rules=(RULE13,))
simple("C14", "crossing*", "se.crossing*", "se.data", more=in_floats("crossing*"), rules=(RULEF,))
simple("C15", "waves", "se.data", "se.wh.*", "se._waves:*", more=in_floats("waves", "se.data"), rules=(RULEF,))
simple("C17", "time2freq*", "unfold*", "freq2time", "bandfilter", "bandpass", "se.fourier", "se.bandpass", more=in_floats("bandfilter"), rules=(RULEF,))
simple("C18", "disper*")
simple("C23", "zs*", "many_gauges")
simple("C24", "bg*")
simple("C25", "jonswap*", "pm*")
simple("C27", "get_Tp", "get_Tp:*", "get_Tps*", "tps", "params*", more=in_floats("get_Tp*", "params*", "-*:dirs"), rules=(RULEF,))
simple("C28", "average*", "spectrum_time*", "spectrum_freq*", "coherence", "se.spectrum_raw*", more=in_floats("average*", "coherence"), rules=(RULEF,))
simple("C29", "se.max", "se.min", "se.mean", "se.var", "se.skewness", "se.asymmetry")
