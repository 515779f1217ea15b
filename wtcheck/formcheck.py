"""The definitions of ref.py against their computational forms (forms.py): a comparison of the two reference modules with each
other that does not read the code base.  Each definition is built both ways and the two graphs are evaluated on every valuation
of its subjects and on valuations derived from the two graphs."""
from __future__ import annotations

from multiprocessing import get_context

from .decide import Run, brief, budget, hasnan, stable
from .evalterm import same
from .guided import derive
from .subjects import SUBJECTS


def one(key):
    s = SUBJECTS[key]
    a, z = Run(s.build(), s.ref, forms=True), Run(s.build(), s.ref)
    if a.error or z.error:
        return key, 0, "error: %s" % (a.error or z.error), False
    identical = not a.dead and not z.dead and a.canon() is z.w.ctx.canon(z.value)
    vals = list(s.vals(True))
    given, n = len(vals), 0
    if not identical:
        vals += derive(s.ins, vals, a, z, lambda: s.vals(False), True, s.uniform, s.lo)[:budget(a, True) if not s.uniform else 24]
    cmp = s.cmp or (lambda p, q: same(p, q, s.tol))
    for i, v in enumerate(vals):
        try:
            p, q = a.outcome(v), z.outcome(v)
        except (OverflowError, MemoryError, ZeroDivisionError):
            continue
        if q[0] != "value" or hasnan(q[1]) or i >= given and (p[0] != "value" or hasnan(p[1])):
            continue
        if p[0] != "value" or not cmp(p[1], q[1]):
            if i < given or stable(s, v, a, z, cmp):
                return key, n, "differ at %s: form %s, definition %s" % (
                    {k: brief(x, 120) for k, x in v.items()}, brief(p[1]) if p[0] == "value" else p[1], brief(q[1])), identical
            continue
        n += 1
    return key, n, None, identical


def main():
    keys = [k for k, s in SUBJECTS.items() if s.ref is not None]
    bad = 0
    with get_context("fork").Pool(8) as pool:
        for key, n, why, identical in pool.imap(one, keys, chunksize=1):
            if why:
                bad += 1
            print("%-36s %5d valuations%s%s" % (key, n, ", equal normal form" if identical else "", "  " + why if why else ""))
    print("%d subjects, %d differ" % (len(keys), bad))
    return 1 if bad else 0
