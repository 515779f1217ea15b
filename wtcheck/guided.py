"""Further valuations for a graph whose normal form differs from the required one.

The valuations of the subjects are written for the required graph.  A graph that differs may differ only behind a guard of
its own (a size, a magnitude, a literal), so the extra valuations are derived from the two graphs: literals that occur in the
extracted graph and not in the required one fix sizes and scalars, and every declared quantity is rescaled by powers of two,
together with the others of its physical dimension and on its own.  Everything is deterministic.
"""
from __future__ import annotations

import math

import numpy as np

from . import vals as V
from .ctx import TooBig
from .ir import Node, walk

SIZES = (2, 3, 4, 5, 6, 7, 10, 11, 13, 14, 19, 22)


def literals(run):
    out = set()
    roots = [run.value] if run.value is not None else []
    for e in run.raises:
        stack = [e.pc]
        while stack:
            q = stack.pop()
            if isinstance(q, Node):
                roots.append(q)
            elif isinstance(q, (tuple, list, set, frozenset)):
                stack.extend(q)
    seen = set()
    for r in roots:
        for n in walk(r, seen):
            if n.op == "const" and isinstance(n.args[1], (int, float)) and not isinstance(n.args[1], bool):
                v = float(n.args[1])
                if math.isfinite(v):
                    out.add(v)
            elif n.op == "const":
                try:
                    v = float(n.args[1])  # Fraction
                    if math.isfinite(v) and not isinstance(n.args[1], (bool, str)):
                        out.add(v)
                except (TypeError, ValueError):
                    pass
    return out


def new_literals(a, s):
    """First the numbers that occur only in the extracted graph, then those that quantities are compared with in either."""
    la, ls = literals(a), literals(s)
    ga, gs = guard_literals(a), guard_literals(s)
    new = fresh(la, ls) + fresh(ga, list(ls) + gs)
    return new + fresh([c for c in ga + gs if c not in (1.0, 2.0)], new)


def fresh(la, ls):
    return sorted(x for x in la if not any(abs(abs(x) - abs(y)) <= 1e-12 * max(abs(x), abs(y)) for y in ls))


def guard_literals(run):
    """Numbers that quantities are compared with, anywhere in the graph (for the comparison of a graph with itself on other data)."""
    out = set()

    def put(x):
        try:
            v = abs(float(x))
        except (TypeError, ValueError, OverflowError):
            return
        if math.isfinite(v) and v > 0:
            out.add(v)
    roots = [run.value] if run.value is not None else []
    try:
        roots += [run.canon()] if roots else []  # products and sums of numbers are folded there
    except (TooBig, RecursionError):
        pass
    seen = set()
    for r in roots:
        for n in walk(r, seen):
            if n.op in ("lt0", "le0", "eq0") and n.args[0].op == "poly":
                c0 = sum(c for m, c in n.args[0].args[0] if not m)
                if c0:
                    for m, c in n.args[0].args[0]:
                        if len(m) == 1 and m[0][1] == 1:
                            put(c0 / c)
            elif n.op in ("lt", "le", "eq", "ne", "max2", "min2", "max", "min"):
                for k in n.kids():
                    if k.op == "const" and not isinstance(k.args[1], (bool, str)):
                        put(k.args[1])
    return sorted(out)


def magnitude(v):
    q = np.abs(np.asarray(v, dtype=complex))
    q = q[np.isfinite(q)]
    return float(q.max()) if q.size and q.max() > 0 else None


def pick(seq, n):
    """n elements spread over seq."""
    seq = list(seq)
    if len(seq) <= n:
        return seq
    return [seq[(i * (len(seq) - 1)) // max(n - 1, 1)] for i in range(n)]


def by_sizes(gen, lits, thorough):
    ns = list(SIZES) + ([8, 9, 12, 15, 16, 17, 18, 20, 21, 23, 24, 25, 26, 27, 28] if thorough else [])
    pri = []
    for c in lits:
        c = abs(c)
        for base in ({c} if c == int(c) else {math.floor(c), math.ceil(c)}):
            if 2 <= base <= (400 if thorough else 130):
                pri += [int(base) - 1, int(base), int(base) + 1, int(base) + 2, 2 * int(base) + 1]
    pri += [2 * b + 1 for b in pri if b >= 2 and 2 * b + 1 <= 130 and 2 * b + 1 not in pri]
    out = []
    for n in [n for n in pri if n >= 1] + ns:
        V.NS_OVERRIDE[0] = (n,)
        try:
            out.append(pick(gen(), 3 if n in pri else 2))
        except (IndexError, ValueError, ZeroDivisionError, KeyError):
            pass
        finally:
            V.NS_OVERRIDE[0] = None
    return [v for group in out for v in group]


def exponents(v, lits, thorough):
    m = magnitude(v)
    out = []
    if m:
        for c in lits:
            if c != 0:
                e = int(math.floor(math.log2(abs(c) / m)))
                q = int(math.floor(math.log2(abs(c)) / 2 - math.log2(m)))  # a guard on the square
                out += [e + 1, e - 1, q - 2, q + 2, e + 3, e - 3, q]
    out += [-10, -27, 10] + ([-3, 3, -20, 20, -40, 6, -6] if thorough else [])
    seen = []
    for e in out:
        if e != 0 and abs(e) <= 60 and e not in seen:
            seen.append(e)
    return seen


def scaled(v, e):
    if isinstance(v, np.ndarray):
        return v * 2.0 ** e
    return v if v == -1.0 else float(v) * 2.0 ** e  # -1 is the documented "not given"


def robin(groups):
    out, its = [], [iter(g) for g in groups if g]
    while its:
        nxt = []
        for it in its:
            try:
                out.append(next(it))
                nxt.append(it)
            except StopIteration:
                pass
        its = nxt
    return out


def by_scale(ins, base, lits, thorough):
    nums = [i for i in ins if i.kind in ("arr", "num")]
    bases = pick(base, 3 if not thorough else 6)
    singles, together = [], []
    for k, b in enumerate(bases):
        for i in nums:
            if i.name not in b or i.kw.get("lo") == 0 and i.kw.get("hi") is not None:
                continue
            if i.role in ("axis", "time", "place") or i.still:
                continue
            singles.append([dict(b, **{i.name: scaled(b[i.name], e)}) for e in exponents(b[i.name], lits, thorough)])
        for axis in range(3):
            mine = [i for i in nums if i.dim[axis] and i.name in b]
            if not mine or any(i.still for i in mine):
                continue
            es = []
            for i in mine:
                es += [round(e / i.dim[axis]) for e in exponents(b[i.name], lits, thorough)]
            for e in sorted(set(es), key=es.index):
                if e and abs(e) <= 40:
                    together.append(dict(b, **{i.name: scaled(b[i.name], e * i.dim[axis]) for i in mine}))
    return robin(singles), together


def by_scalar(ins, base, lits, thorough):
    out = []
    for b in pick(base, 2 if not thorough else 5):
        for i in ins:
            if i.kind == "num" and i.name in b:
                for c in lits:
                    for f in (0.75, 1.5, 1.0625, 0.9375):
                        out.append(dict(b, **{i.name: c * f}))
            elif i.kind == "int" and i.name in b:
                for c in lits:
                    if c == int(c):
                        for d in (0, 1, -1):
                            out.append(dict(b, **{i.name: int(c) + d}))
    return out


def special(ins, base, thorough):
    """Vanishing, constant and sign-changed data."""
    out = []
    for b in pick(base, 3):
        for i in ins:
            if i.kind == "arr" and i.role == "data" and i.name in b and isinstance(b[i.name], np.ndarray) and b[i.name].size:
                v = b[i.name]
                if i.kw.get("lo") != 0:
                    out.append(dict(b, **{i.name: v * 0}))
                out.append(dict(b, **{i.name: v * 0 + v.ravel()[0]}))
                w = v.copy()
                w.ravel()[0] = 0
                out.append(dict(b, **{i.name: w}))
                w = v.copy()
                w.ravel()[-1] = 0
                out.append(dict(b, **{i.name: w}))
                if v.ndim == 1 and v.size > 2 and v.dtype.kind == "f":
                    top = np.max(v) + 0.5 * (np.max(v) - np.min(v)) + 0.125
                    for at in ((0,), (-1,), (0, 1), (-1, -2), (0, -1), (0, 1, 2), (1,), (-2,)):
                        w = v.copy()
                        w[list(at)] = top
                        out.append(dict(b, **{i.name: w}))
                    w = v.copy()
                    w[1::3] = 0
                    out.append(dict(b, **{i.name: w}))
                    out.append(dict(b, **{i.name: np.sort(v)}))
                    out.append(dict(b, **{i.name: np.sort(v)[::-1]}))
                if i.kw.get("lo") != 0:
                    out.append(dict(b, **{i.name: -v}))
                    w = -v
                    w.ravel()[0] = 0
                    out.append(dict(b, **{i.name: w}))
    return out


def related(ins, base, thorough):
    """Scalars placed at, next to and outside the ends of an axis of the same dimension; counts next to the sizes."""
    out = []
    for b in pick(base, 5):
        group = []
        for i in ins:
            if i.name not in b or i.still:
                continue
            if i.kind == "num" and any(i.dim) and b[i.name] != -1.0:
                for a in ins:
                    if a.kind != "arr" or a.role not in ("axis", "time", "place") or a.dim != i.dim or a.name not in b:
                        continue
                    q = np.asarray(b[a.name], dtype=float).ravel()
                    if q.size < 2:
                        continue
                    d = q[1] - q[0]
                    for c in (q[0], q[0] - d / 8, q[-1], q[-1] + d / 8, q[0] - d / 2, q[-1] + d / 2, q[1], q[-2], q[0] + d / 4, q[-1] - d / 4,
                              (q[0] + q[-1]) / 2,
                              q[0] / 2, q[-1] * 2):
                        group.append(dict(b, **{i.name: float(c)}))
                for a in ins:  # equal quantities
                    if a is not i and a.kind == "num" and a.dim == i.dim and a.name in b and not a.still and b[a.name] not in (b[i.name], -1.0):
                        group.append(dict(b, **{i.name: b[a.name]}))
            elif i.kind == "int" and i.role != "seed":
                for a in ins:
                    if a.kind == "arr" and a.name in b and np.ndim(b[a.name]) == 1:
                        n = len(b[a.name])
                        for c in (n, n - 1, n + 1, n + n // 2, n // 2, 2 * n):
                            group.append(dict(b, **{i.name: c}))
                            for k in ins:
                                if k is not i and k.kind == "int" and k.name in b and k.role != "seed":
                                    group.append(dict(b, **{i.name: c, k.name: c // 2}))
                        break
        out.append(group)
    return robin(out)


def admissible(ins, v, least=1):
    for i in ins:
        if i.name not in v:
            continue
        lo, hi = i.kw.get("lo"), i.kw.get("hi")
        q = v[i.name]
        if i.kind == "arr" and i.role in ("time", "axis") and i.shape == ("N",) and np.size(q) < least:
            return False
        if i.domain and not (i.domain[0] <= q <= i.domain[1]) and q != -1.0:
            return False
        if isinstance(q, np.ndarray) and q.dtype.kind == "c":
            continue
        try:
            a, b = np.min(q), np.max(q)
        except (ValueError, TypeError):
            continue
        if lo is not None and (a < lo or (i.kw.get("lo_strict") and a <= lo)):
            return False
        if hi is not None and (b > hi or (i.kw.get("hi_strict") and b >= hi)):
            return False
        if i.kind == "num" and not np.isfinite(q) and i.kw.get("finite"):
            return False
    return True


def derive(ins, base, a, s, gen=None, thorough=False, only_uniform=False, least=1, lits=None):
    """Valuations in the order of their promise; the caller takes as many as it can afford."""
    if not base:
        return []
    lits = [c for c in (new_literals(a, s) if lits is None else lits) if abs(c) < 1e9][:8]
    groups = []
    if not only_uniform:
        groups.append(by_scalar(ins, base, lits, thorough))
    else:
        base = base[:1]
    if gen is not None:
        groups.append(by_sizes(gen, lits, thorough))
    single, together = by_scale(ins, base, lits, thorough)
    groups.append(together)
    if not only_uniform:
        groups.append(single)
        groups.append(special(ins, base, thorough))
        groups.append(related(ins, base, thorough))
    out = robin(groups)
    names = set(base[0])
    return [v for v in out if set(v) == names and admissible(ins, v, least)]
