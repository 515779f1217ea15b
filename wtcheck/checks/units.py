"""Physical dimensions (C03)."""
from __future__ import annotations

import numpy as np

from .. import dims as D
from ..decide import NS, Run
from ..guided import guard_literals
from ..engine import plan, select, task
from ..ir import C, mk, walk, show
from ..subjects import L1, O, SUBJECTS, T1

RULE3 = ("dimension inference: every node of the value graph gets a physical dimension from the declared dimensions of the inputs; sums, "
         "differences, selections, stores and comparisons need equal dimensions, transcendental functions, exponents, indices and roundings a "
         "pure number, and every result its documented dimension")
RULE3B = "a dimension error is reported when rescaling the units in the graph does not rescale the result as documented"
FIXED_G = {"get_s0p:none": [(1, 0, 2)], "get_smm10:none": [(1, 0, 2)], "get_smm10_HF:none": [(1, 0, 2)], "disper:any": [(0, -1, 0)]}
ZSOUT = [L1, L1]


def quotient(d):
    """Units in which the literal acceleration of gravity is a pure number: a length is the square of a time."""
    return (d[0], 0, d[2] + 2 * d[1])


def setup(key):
    s = SUBJECTS[key]
    outs, q = s.outs, None
    if key.startswith("zs"):
        outs = [T1, L1, T1, L1] if key == "zs_series" else ZSOUT
        q = quotient
    elif key in ("get_s0p:none", "get_smm10:none", "get_smm10_HF:none"):
        # elevation over the literal gravity: elevation counts as a length of its own
        outs, q = [(1, 0, -2)], None
    elif key == "disper:any":
        outs, q = [(0, -1, 0)], quotient
    return s, outs, q


def dimq(d, q):
    d = tuple(D.Q(x) for x in d)
    return tuple(D.Q(x) for x in (q(d) if q else d))


def comp(w, v):
    v = mk("tuple", *[w.raw(q) for q in v]) if isinstance(v, tuple) else w.raw(v)
    return v.args if v.op == "tuple" else (v,)


@task
def c03(ck, key, thorough):
    s, outs, q = setup(key)
    cons = ck.where(s.entry)
    r = Run(s.build(), s.call, pkg=ck.pkg)
    ck.absorb(r)
    if r.error or r.dead:
        return ck.record(key, "undecided", cons, RULE3, {"why": r.error or "no result"})
    env = {i.name: dimq(i.dim, q) for i in s.ins}
    for z in list(r.w.ctx.meta if hasattr(r.w.ctx, "meta") else ()):
        env.setdefault(z, D.ZERO)
    for nme in ("N",):
        env.setdefault(nme, D.ZERO)
    for i in s.ins:
        if i.kind == "arr":
            for sh in i.shape:
                if isinstance(sh, str):
                    env.setdefault(sh, D.ZERO)
    inf = D.Dims(r.w.ctx, env, r.w.ip.origin)
    parts = r.value.args if r.value.op == "tuple" else (r.value,)
    got = []
    for k, p in enumerate(parts):
        t = inf.flat(inf(p))
        want = outs[k] if k < len(outs) else None
        got.append(D.text(t))
        if want is None:
            continue
        want = dimq(want, q)
        if t == D.TOP:
            continue
        if t not in (D.ANY, D.LIT) and t != want:
            inf.errors.append((p, "result %d has dimension %s, documented is %s" % (k, D.text(t), D.text(want))))
    for e in r.raises:
        for c in e.pc:
            inf(c)
    unknown = [k for k, p in enumerate(parts) if k < len(outs) and outs[k] is not None and inf.memo[p.nid] == D.TOP]
    det = {"nodes typed": inf.nodes, "result dimensions": got, "obligations": inf.nodes}
    if not inf.errors and not unknown:
        ck.record(key, "discharged", cons, RULE3, det)
        return
    # a candidate: rescale the units
    fs = [(4.0, 2.0, 2.0), (0.25, 8.0, 0.5)]
    if q:
        fs = [(4.0, 4.0, 2.0), (0.25, 0.25, 0.5)]
    det["typing errors"] = ["%s: %s%s" % (w, show(n, 4)[:160], " at " + inf.where(n) if inf.where(n) else "") for n, w in inf.errors[:6]]
    det["untyped operators"] = inf.unknown
    if unknown:
        det["untyped results"] = unknown
    before = len(ck.obs)
    for l, x, t in fs:
        def fac(d):
            return l ** d[0] * x ** d[1] * t ** d[2]

        def prog(w, xs):
            y = NS(xs)
            for i in s.ins:
                c = fac(i.dim)
                if c != 1:
                    y[i.name] = w.box(mk("mul", w.raw(xs[i.name]), C(c))) if i.kind == "arr" else mk("mul", xs[i.name], C(c))
            p = comp(w, s.call(w, y))
            return tuple(z for k, z in enumerate(p) if k >= len(outs) or outs[k] is not None)

        def ref(w, xs):
            p = comp(w, s.call(w, xs))
            return tuple(mk("mul", z, C(fac(outs[k]))) if fac(outs[k]) != 1 else z for k, z in enumerate(p) if k >= len(outs) or outs[k] is not None)
        vals = [v for v in s.vals(thorough) if not any(i.kind == "num" and i.dim != O and v[i.name] == -1.0 for i in s.ins)]
        ck.conform("%s in units %gx elevation, %gx distance, %gx time" % (key, l, x, t), s.entry, s.build(), prog, ref, vals, rule=RULE3 + "; " + RULE3B,
                   cmp=s.cmp, tol=max(s.tol, 1e-6), s=s, lits=guard_literals)
    bad = any(o["status"] == "violated" for o in ck.obs[before:])
    for o in ck.obs[before:]:
        if o["status"] == "violated":
            o["detail"].update(det)
            if inf.errors and inf.where(inf.errors[0][0]):
                o["construct"] = inf.where(inf.errors[0][0])
    if not bad:
        ck.record(key, "undecided" if unknown and not inf.errors else "not separated", cons, RULE3, det)


@plan("C03", RULE3, RULE3B)
def plan_c03(tier):
    th = tier == "thorough"
    keys = [k for k in SUBJECTS if setup(k)[1] is not None]
    return [("c03", (k, th)) for k in keys]
