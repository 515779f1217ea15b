"""Hash-consed term nodes of the value graph."""
from __future__ import annotations

from fractions import Fraction

_TABLE = {}


class Node:
    __slots__ = ("op", "args", "nid", "_kids", "_free")

    def __repr__(self):
        return show(self)

    @property
    def val(self):
        return self.args[1]

    @property
    def is_const(self):
        return self.op == "const"

    def kids(self):
        if self._kids is None:
            out = []
            _collect(self.args, out)
            self._kids = tuple(out)
        return self._kids

    def __reduce__(self):  # pragma: no cover
        raise TypeError("nodes are not picklable")


def _collect(args, out):
    for a in args:
        if isinstance(a, Node):
            out.append(a)
        elif isinstance(a, tuple):
            _collect(a, out)


def _key(a):
    if isinstance(a, Node):
        return ("n", a.nid)
    if isinstance(a, tuple):
        return ("t",) + tuple(_key(x) for x in a)
    return (type(a).__name__, repr(a))


def mk(op, *args):
    key = (op,) + tuple(_key(a) for a in args)
    n = _TABLE.get(key)
    if n is None:
        n = Node()
        n.op = op
        n.args = args
        n.nid = len(_TABLE) + 1
        n._kids = None
        n._free = None
        _TABLE[key] = n
    return n


def C(v):
    if isinstance(v, Fraction):
        if v.denominator == 1:
            v = int(v)
    if isinstance(v, bool):
        return mk("const", "bool", v)
    if v is None:
        return mk("const", "none", None)
    if v is Ellipsis:
        return mk("const", "ellipsis", "...")
    return mk("const", type(v).__name__, v)


def sym(name):
    return mk("sym", name)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)
ZERO = C(0)
ONE = C(1)
MINUS1 = C(-1)
PI = mk("pi")
UNDEF = mk("undef")
NAN = mk("nan")
INF = mk("inf")
FULLSLICE = mk("slice", NONE, NONE, NONE)

_PREC = {"add": 1, "sub": 1, "mul": 2, "div": 2, "pow": 3}


def show(n, depth=9):
    if not isinstance(n, Node):
        if isinstance(n, tuple):
            return "(" + ",".join(show(x, depth - 1) for x in n) + ")"
        return str(n)
    if depth <= 0:
        return "…"
    o = n.op
    d = depth - 1
    if o == "const":
        v = n.val
        return repr(v) if not isinstance(v, Fraction) else str(v)
    if o == "sym":
        return str(n.args[0])
    if o in ("pi", "nan", "inf", "undef"):
        return o
    if o in ("iter",):
        return "i%s" % n.args[0]
    if o == "mu":
        return "mu%s_%s" % (n.args[0], n.args[1])
    b = {"add": "+", "sub": "-", "mul": "*", "div": "/", "pow": "**", "lt": "<", "le": "<=", "eq": "==",
         "ne": "!=", "and": " and ", "or": " or ", "mod": "%", "floordiv": "//"}.get(o)
    if b and len(n.args) == 2:
        return "(%s%s%s)" % (show(n.args[0], d), b, show(n.args[1], d))
    if o == "poly":
        ts = []
        for mono, coef in n.args[0]:
            fs = []
            for a, e in mono:
                s = show(a, d)
                if e != 1:
                    s += "^%s" % (e if isinstance(e, int) or e.denominator == 1 else "(%s)" % e)
                fs.append(s)
            t = "*".join(fs)
            if coef != 1 or not t:
                t = "%s%s%s" % (coef, "*" if t else "", t)
            ts.append(t)
        return "(" + " + ".join(ts) + ")" if len(ts) != 1 else ts[0]
    if o == "index":
        return "%s[%s]" % (show(n.args[0], d), show(n.args[1], d))
    if o == "slice":
        p = ["" if (isinstance(x, Node) and x is NONE) else show(x, d) for x in n.args]
        s = p[0] + ":" + p[1]
        return s + (":" + p[2] if p[2] else "")
    if o == "gamma":
        return "[%s ? %s : %s]" % tuple(show(x, d) for x in n.args)
    if o == "tuple":
        return "(" + ", ".join(show(x, d) for x in n.args) + ")"
    return "%s(%s)" % (o, ", ".join(show(x, d) for x in n.args))


def walk(n, seen=None):
    """All sub-nodes (each once)."""
    if seen is None:
        seen = set()
    stack = [n]
    while stack:
        x = stack.pop()
        if x.nid in seen:
            continue
        seen.add(x.nid)
        yield x
        stack.extend(x.kids())


def contains(n, pred):
    return any(pred(x) for x in walk(n))


BINDERS = {"exists": (0,), "fillg": (1,), "fill": (1,), "sumover": (0,), "filtermap": (1,), "lastval": (0,), "lam": (0,)}
# position of the bound iterator in args; the terms in its scope are listed below
SCOPED = {"exists": (3,), "fillg": (4, 5), "fill": (4,), "sumover": (3,), "filtermap": (4, 5), "lastval": (3,), "lam": (2,)}


def free_iters(n):
    """Iterators and mu placeholders occurring free in n."""
    if n._free is not None:
        return n._free
    # iterative post-order
    stack = [(n, False)]
    while stack:
        x, done = stack.pop()
        if x._free is not None:
            continue
        if not done:
            stack.append((x, True))
            for k in x.kids():
                if k._free is None:
                    stack.append((k, False))
            continue
        if x.op in ("iter", "mu"):
            x._free = frozenset([x])
        elif x.op in BINDERS:
            it = x.args[BINDERS[x.op][0]]
            sc = SCOPED[x.op]
            fr = set()
            for j, a in enumerate(x.args):
                if isinstance(a, Node):
                    f = a._free
                    if j in sc:
                        f = f - {it}
                    elif a is it:
                        continue
                    fr |= f
            x._free = frozenset(fr)
        elif x.op == "rec":
            # args: which, depth, names, it, lo, hi, inits, nexts, cond
            bound = {mk("mu", x.args[1], nm) for nm in x.args[2]}
            it = x.args[3]
            fr = set()
            for a in x.args[6]:
                fr |= a._free
            for a in (x.args[4], x.args[5]):
                if isinstance(a, Node):
                    fr |= a._free
            inner = set()
            for a in x.args[7]:
                inner |= a._free
            if isinstance(x.args[8], Node):
                inner |= x.args[8]._free
            inner -= bound
            if isinstance(it, Node):
                inner.discard(it)
            x._free = frozenset(fr | inner)
        else:
            fr = frozenset()
            for k in x.kids():
                fr = fr | k._free
            x._free = fr
    return n._free


def of_plot(o):
    """Something the plotting library made."""
    return o.op == "extobj" and str(o.args[0]).startswith("plt.") or o.op == "extbound" and of_plot(o.args[0])
