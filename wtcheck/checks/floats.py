"""What holds in the arithmetic of the machine: operations as written, in double precision, without any tolerance.

The other checks read the formulas as formulas over the reals; a step function of a quotient (a rank, an index, a limit
at a grid point) can come out wrong for values that are no dyadic fractions although the formula is right.  Here the
extracted graph is evaluated operation by operation in double precision on such values.
"""
from __future__ import annotations

import math
from fractions import Fraction

import numpy as np

from ..decide import Run, brief
from ..engine import select, task
from ..evalterm import FloatEv, same
from ..subjects import SUBJECTS

RULE13 = ("float evaluation of the value graph: the rank of an exceedance percentage is floor(N * P / 100) for every whole percentage and every "
          "number of waves, whatever the order of the operations")


def mean_of(N, k):
    """Mean of the k largest of 1..N."""
    return (N + N - k + 1) / 2


@task
def c13_ranks(ck, key, thorough):
    s = SUBJECTS[key]
    r = Run(s.build(), s.call, pkg=ck.pkg)
    ck.absorb(r)
    cons = ck.where(s.entry)
    name = "rank in %s" % key
    if r.error:
        return ck.record(name, "undecided", cons, RULE13, {"why": r.error})
    perc = key.endswith("exceedance")
    n, und, wrong = 0, [], []
    for N in list(range(1, 60)) + [100, 125, 200, 300, 700, 1000] + (list(range(60, 400, 7)) if thorough else []):
        h = np.arange(N, 0, -1.0)
        T = 0.125 * np.arange(N, 0, -1.0) + 3
        if perc:
            asked = range(0, 101)
        elif "p" in [i.name for i in s.ins]:
            asked = sorted({k / N for k in range(0, N + 1, max(1, N // 50))} | {k / 100 for k in range(0, 101, 3)})
        else:
            asked = [None]
        for a in asked:
            v = {"N": N, "h": h, "T": T}
            if a is not None:
                v["P" if perc else "p"] = float(a)
            o = r.outcome(v, how=FloatEv)
            if o[0] == "undecided":
                und.append(o[1])
                break
            if perc:
                ks = {math.floor(Fraction(N) * a / 100)}
            else:
                a = 1 / 3 if a is None else a
                # the number of waves of a fraction given as k / N is k; rounding of the product may lose one at most where it always did
                ks = {int(np.floor(N * a)), math.floor(Fraction(N) * Fraction(a))} | ({round(N * a)} if abs(N * a - round(N * a)) < 1e-9 else set())
            want = [0.0 if k == 0 else N - k + 1.0 if perc else mean_of(N, k) for k in ks]
            got = o[1][0] if o[0] == "value" and isinstance(o[1], tuple) else o[1]
            n += 1
            if o[0] != "value" or np.size(got) != 1 or not any(abs(float(np.ravel(got)[0]) - e) <= 1e-9 * max(1, abs(e)) for e in want):
                wrong.append({"waves": N, "percentage" if perc else "fraction": a, "result": brief(got), "required": want[0]})
    if wrong:
        return ck.record(name, "violated", cons, RULE13, {"findings": wrong[:3], "wrong": len(wrong), "of": n})
    if und or not n:
        return ck.record(name, "undecided", cons, RULE13, {"why": und[:1]})
    ck.record(name, "not separated", cons, RULE13, {"pairs evaluated": n})




RULEF = ("float evaluation of the value graph: on axes that are no dyadic fractions, with limits exactly at values of the axis, the operations as "
         "written give the values of the definition as written")
STRETCH = (0.8, 0.7 / 3, 1.1)


def stretched(s, v, c):
    """The same inputs with the axis times c; a limit at a value of the axis stays exactly there."""
    out, axes = dict(v), {}
    for i in s.ins:
        if i.kind == "arr" and i.role in ("axis", "time", "place") and i.name in v and any(i.dim):
            a = np.asarray(v[i.name], float)
            out[i.name] = a * c
            axes.setdefault(i.dim, (a, a * c))
    for i in s.ins:
        q = v.get(i.name)
        if i.kind != "num" or q is None or i.still or q == -1.0 or not np.isfinite(q):
            continue
        if i.dim in axes:
            a, b = axes[i.dim]
            k = np.flatnonzero(a == q)
            out[i.name] = float(b[k[0]]) if len(k) else float(q * c)
            if i.name == "df" and len(a) > 1 and abs((q / (a[1] - a[0])) % 1 - 0.5) < 1e-3:
                return None  # half a step: either rounding will do
        elif any(i.dim) and tuple(-d for d in i.dim) in axes:
            out[i.name] = float(q / c)
    return out


@task
def floats(ck, key, thorough):
    s = SUBJECTS[key]
    r, z = Run(s.build(), s.call, pkg=ck.pkg), Run(s.build(), s.ref, pkg=ck.pkg)
    ck.absorb(r)
    name, cons = "%s in double precision" % key, ck.where(s.entry)
    if z.error:
        raise RuntimeError("reference of %s: %s" % (key, z.error))
    if r.error:
        return ck.record(name, "undecided", cons, RULEF, {"why": r.error})
    n, und = 0, []
    base = s.vals(thorough)
    for v in base[:: 1 if thorough else max(1, len(base) // 60)]:
        for c in STRETCH:
            w = stretched(s, v, c)
            if w is None:
                continue
            b = z.outcome(w, how=FloatEv)
            if b[0] != "value":
                continue
            a = r.outcome(w, how=FloatEv)
            if a[0] == "undecided":
                und.append(a[1])
                continue
            n += 1
            if a[0] != "value" or not same(a[1], b[1], max(s.tol, 1e-7)):
                return ck.record(name, "violated", cons, RULEF, {"separating valuation": {k: brief(q) for k, q in w.items()},
                                                                 "value of the extracted graph": brief(a[1]) if a[0] == "value" else str(a[1])[:200],
                                                                 "value required": brief(b[1])})
    if und or not n:
        return ck.record(name, "undecided", cons, RULEF, {"why": und[:1]})
    ck.record(name, "not separated", cons, RULEF, {"valuations": n})


def in_floats(*pats):
    return lambda th: [("floats", (k, th)) for k in select(*pats)]
