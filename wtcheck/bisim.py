"""Structural digests of canonical value graphs, independent of the names and the order of loop-carried values.

Two loops are the same if their loop-carried values are bisimilar: equal initial values, and step functions that are equal when
bisimilar values are identified (partition refinement).  Of a loop only the values the result depends on take part.
"""
from __future__ import annotations

from hashlib import blake2b

from .ir import BINDERS, Node, free_iters, mk

COMM = {"and", "or", "max2", "min2", "xor", "eq", "ne"}


def _h(*parts):
    d = blake2b(digest_size=16)
    for p in parts:
        d.update(p if isinstance(p, bytes) else repr(p).encode())
        d.update(b"|")
    return d.digest()


class Digest:
    def __init__(self):
        self.closed = {}

    def __call__(self, n, env=None):
        return self.node(n, env or {}, {})

    # env: mu node -> colour; memo: node -> digest under env
    def node(self, n, env, memo):
        stack = [n]
        while stack:
            x = stack[-1]
            if self.got(x, memo) is not None:
                stack.pop()
                continue
            if x.op == "rec":
                kids = [k for k in (x.args[4], x.args[5]) + tuple(x.args[6]) if isinstance(k, Node)]
            else:
                kids = x.kids()
            todo = [k for k in kids if self.got(k, memo) is None]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            d = self.one(x, env, memo)
            if any(f.op == "mu" for f in free_iters(x)):
                memo[x.nid] = d
            else:
                self.closed[x.nid] = d
        return self.got(n, memo)

    def got(self, x, memo):
        d = self.closed.get(x.nid)
        return d if d is not None else memo.get(x.nid)

    def arg(self, a, memo):
        if isinstance(a, Node):
            return self.got(a, memo)
        if isinstance(a, tuple):
            return _h("t", *[self.arg(q, memo) for q in a])
        return _h(type(a).__name__, a)

    def one(self, x, env, memo):
        o = x.op
        if o == "mu":
            c = env.get(x.nid)
            return c if c is not None else _h("mu", *x.args)
        if o == "poly":
            ms = []
            for mono, coef in x.args[0]:
                ms.append(_h("m", coef, *sorted(self.arg(a, memo) + self.arg(e, memo) for a, e in mono)))
            return _h("poly", *sorted(ms))
        if o == "rec":
            return self.loop(x, env, memo)
        if o in COMM:
            return _h(o, *sorted(self.arg(a, memo) for a in x.args))
        return _h(o, *[self.arg(a, memo) for a in x.args])

    def loop(self, x, env, memo):
        which, depth, names, it, lo, hi, inits, nexts, cond = x.args
        mus = [mk("mu", depth, nm) for nm in names]
        # dependence closure
        need, todo = set(), [which]
        if isinstance(cond, Node):
            fr = free_iters(cond)
            todo += [k for k, m in enumerate(mus) if m in fr]
        while todo:
            k = todo.pop()
            if k in need:
                continue
            need.add(k)
            fr = free_iters(nexts[k])
            todo += [j for j, m in enumerate(mus) if m in fr]
        col = {k: _h("init", self.arg(inits[k], memo)) for k in need}
        first = dict(col)

        def inner():
            e = dict(env)
            for k in need:
                e[mus[k].nid] = col[k]
            return e
        for _ in range(len(set(col.values())) and len(need)):
            e, m = inner(), {}
            col = {k: _h(first[k], self.node(nexts[k], e, m)) for k in need}
        e = inner()
        c = self.node(cond, e, {}) if isinstance(cond, Node) else b""
        return _h("rec", depth, self.arg(it, memo) if isinstance(it, Node) else it, self.arg(lo, memo), self.arg(hi, memo), c, col[which])
