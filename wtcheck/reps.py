"""Element-type inference: whether a value changes when integer inputs are replaced by floating-point inputs of the same values.

Type 0: the value and its element type stay the same; 1: the value stays the same, its element type may follow the inputs; TOP: not known.
Only operations whose result depends on the element type matter: storing into an array of integers, integer powers, conversions to the type
of another array, indexing by such a value.  Conversion of integers to floating-point numbers counts as exact (below 2**53).
"""
from __future__ import annotations

from fractions import Fraction as Q

from .bisim import Digest
from .homog import ANY, TOP, Degree, Tup
from .ir import C, Node, mk

SAME, REP = 0, 1
FLOATING = {"div", "sqrt", "csqrt", "exp", "log", "log10", "log2", "log1p", "expm1", "sin", "cos", "tan", "tanh", "sinh", "cosh", "arcsin", "arccos",
            "arctan", "arctan2", "hypot", "gammaf", "gammainc", "fft", "ifft", "rfft", "irfft", "hilbert", "simpson", "trapezoid", "np.interp",
            "np.polyfit", "np.mean", "np.var", "np.std", "np.median", "spacing", "float", "np.linspace", "welch", "angle"}
DECIDING = {"lt", "le", "eq", "ne", "lt0", "le0", "eq0", "nz", "first", "last", "count", "np.count", "np.argmax", "np.argmin", "np.argsort", "len",
            "sizeof", "shapeof", "ndimof", "isnan", "isinf", "isfinite", "int", "bool", "exists", "is", "np.any", "np.all", "isclose"}
KEEPING = {"add", "sub", "mul", "mod", "floordiv", "max2", "min2", "neg", "abs", "sign", "conj", "real", "imag", "ravel", "reshape", "transpose",
           "flip", "copy", "np.sum", "np.cumsum", "np.diff", "np.sort", "np.amax", "np.amin", "np.ptp", "np.prod", "np.append", "np.concatenate",
           "lappend", "fromlist", "tolist", "item", "floor", "ceil", "round", "trunc", "np.arange", "ext:numpy.flip", "np.unique"}


def part(x, names):
    """A part of one of the inputs."""
    while x.op in ("index", "flip", "reshape", "ravel") and isinstance(x.args[0], Node):
        x = x.args[0]
    return x.op == "sym" and x.args[0] in names


def erase(n, names, ctx, memo, moved):
    """The graph without conversions of numbers to floating point; moved: the nodes whose conversion is left out."""
    stack = [n]
    while stack:
        x = stack[-1]
        if x.nid in memo:
            stack.pop()
            continue
        ks = [k for k in x.kids() if k.nid not in memo]
        if ks:
            stack.extend(ks)
            continue
        stack.pop()
        if x.op == "astype" and x.args[1].op == "const" and (
                x.args[1].val == "float" and (ctx.dtype(x.args[0]) in ("int", "float") or part(x.args[0], names)) or
                x.args[1].val == "int" and ctx.dtype(x.args[0]) == "int"):
            memo[x.nid] = memo[x.args[0].nid]
            moved.add(memo[x.nid].nid)
        else:
            memo[x.nid] = _with(x, memo)
    return memo[n.nid]


def _with(x, memo):
    def f(a):
        if isinstance(a, Node):
            return memo[a.nid]
        if isinstance(a, tuple):
            return tuple(f(q) for q in a)
        return a
    return mk(x.op, *[f(a) for a in x.args]) if x.kids() else x


class Rep(Degree):
    def __init__(self, ctx, names, moved):
        super().__init__(ctx, {n: REP for n in names}, "rep")
        self.moved = moved

    def join(self, ts):
        ts = list(ts)
        if any(isinstance(t, Tup) for t in ts):
            tt = [t for t in ts if isinstance(t, Tup)]
            if len(tt) == len(ts) and all(len(t) == len(tt[0]) for t in tt):
                return Tup(self.join(q) for q in zip(*tt))
            ts = [self.flat(t) for t in ts]
        if any(t == TOP for t in ts):
            return TOP
        return max([SAME if t == ANY else t for t in ts], default=SAME)

    def whole(self, xs):
        return self.join([self.flat(self.d(x)) for x in xs])

    def into(self, base, e, b, v):
        """e is stored into an array of type b."""
        if TOP in (b, v):
            return TOP
        if b == SAME and v == SAME:
            return SAME
        db, de = self.ctx.dtype(base), self.ctx.dtype(e)
        if b == SAME:
            return SAME if db in ("float", "complex") else TOP
        # the array follows the inputs: nothing but integers may be stored
        return REP if de in ("int", "bool") else TOP

    def rule(self, n):
        t = self.rule1(n)
        return REP if t == SAME and n.nid in self.moved else t

    def rule1(self, n):
        o, a = n.op, n.args
        ks = list(self.kids(a))
        if o == "sym":
            return self.env.get(a[0], SAME)
        if o == "mu":
            return self.mu.get((a[0], a[1]), TOP)
        if not ks:
            return SAME
        if o in ("tuple", "list"):
            return Tup(self.d(x) if isinstance(x, Node) else TOP for x in a)
        if o == "index":
            if self.flat(self.d(a[1])) == TOP:  # an index that is not an integer raises
                return TOP
            b = self.d(a[0])
            if isinstance(b, Tup):
                if a[1].op == "const" and isinstance(a[1].val, int) and -len(b) <= a[1].val < len(b):
                    return b[a[1].val]
                return self.flat(b)
            return b
        if o == "slice":
            return self.whole(ks)
        t = self.whole(ks)
        if o == "gamma":
            c = self.flat(self.d(a[0]))
            return TOP if c == TOP else self.join([self.d(a[1]), self.d(a[2])])
        if t == TOP:
            return TOP
        if o in ("poly", "pow"):  # an integer to a negative power raises, it does not give another number
            return SAME if t == SAME or o == "pow" and self.flat(self.d(a[0])) == SAME and self.ctx.dtype(a[0]) in ("float", "complex") else REP
        if o == "store":
            return self.into(a[0], a[2], self.flat(self.d(a[0])), self.flat(self.d(a[2])))
        if o == "fill":
            init, it, lo, hi, e = a
            if init.op == "list" and not init.args:
                return self.flat(self.d(e))
            return self.into(init, e, self.flat(self.d(init)), self.flat(self.d(e)))
        if o in ("filtermap", "fillg"):
            init, it, lo, hi, c, e = a
            if init.op == "list" or o == "filtermap":  # elements are appended
                return self.join([SAME if init.op == "list" and not init.args else self.flat(self.d(init)), self.flat(self.d(e))])
            return self.into(init, e, self.flat(self.d(init)), self.flat(self.d(e)))
        if t == SAME:
            return SAME
        if o in ("sumover", "lastval"):
            return REP
        if o in FLOATING or o in DECIDING:
            return SAME
        if o in KEEPING:
            return REP
        if o in ("and", "or", "not"):
            return SAME if all(self.flat(self.d(x)) == SAME or self.ctx.shape(x) == () for x in ks) else TOP
        if o == "np.delete":
            return REP
        if o == "dtypeof":
            return REP
        if o == "resulttype":
            if any(self.flat(self.d(x)) == SAME and self.ctx.dtypeval(mk("resulttype", x)) in ("float", "complex") for x in ks):
                return SAME
            return REP
        if o in ("zeros", "empty"):
            return self.whole([x for x in self.kids(a[1:])])
        if o == "full":
            return REP if len(a) == 2 else TOP
        if o == "astype":
            k = a[1]
            if isinstance(k, Node) and self.flat(self.d(k)) == SAME and k.op == "const":
                return SAME
            if isinstance(k, Node) and self.flat(self.d(k)) == REP:
                return REP if self.ctx.dtype(a[0]) in ("int", "bool") else TOP
            return TOP
        if o == "astype_like":
            return SAME if self.flat(self.d(a[1])) == SAME else TOP
        if o == "isinstance":
            if a[1].op == "const" and a[1].val == "numbers.Number":
                return SAME
            s = self.ctx.shape(a[0])
            return SAME if s is not None and len(s) else TOP
        return TOP


def same_for_integers(build, prog, ref, names, pkg, Run):
    """A proof that prog gives the same numbers for integer arrays, or None.  ref is prog on the inputs converted to floating point.

    Both graphs are compared with the conversions to floating point left out: equal normal forms, read for integers, mean that the programs
    differ in such conversions only; the types decide whether any of them, and the element type of the inputs, can change a value."""
    a, s = Run(build, prog, pkg=pkg), Run(build, ref, pkg=pkg)
    if a.error or s.error or a.dead or s.dead:
        return None, "lowering"
    ctx = a.w.ctx
    why = []
    m0, m1 = set(), set()
    own = erase(a.value, names, ctx, {}, m0)
    for v in (s.value, s.w.ctx.canon(s.value)):
        g = erase(v, names, s.w.ctx, {}, m1)
        if g is not own and ctx.canon(g) is not ctx.canon(own):
            d = Digest()
            if d(ctx.canon(g)) != d(ctx.canon(own)):
                why.append("the graph itself depends on the element type")
                continue
        ts, k = [], 0
        for q, m in ((own, m0), (g, m1)):
            r = Rep(ctx, names, m)
            ts += [r.flat(r(p)) for p in (q.args if q.op == "tuple" else (q,))]
            why.append(r.why[:3])
            k += len(r.memo)
        if TOP not in ts:
            return "element-type inference, %d nodes typed" % k, None
    return None, why


POINTWISE = {"poly", "add", "sub", "mul", "div", "pow", "sqrt", "csqrt", "exp", "log", "log10", "abs", "neg", "sin", "cos", "tan", "tanh", "sign",
             "max2", "min2", "lt", "le", "eq", "ne", "lt0", "le0", "eq0", "and", "or", "not", "floor", "ceil", "round", "trunc", "mod", "floordiv",
             "real", "imag", "conj", "isnan", "isinf", "isfinite", "gammaf", "gammainc", "astype", "flip", "copy", "np.cumsum", "np.diff"}


def rank(ctx, n, memo=None):
    """Number of dimensions of a value, None where it is not known."""
    memo = {} if memo is None else memo
    if n.nid in memo:
        return memo[n.nid]
    memo[n.nid] = None
    s = ctx.shape(n)
    a = n.args
    if s is not None:
        r = len(s)
    elif n.op == "gamma":
        x, y = rank(ctx, a[1], memo), rank(ctx, a[2], memo)
        r = x if x == y else None
    elif n.op in POINTWISE:
        ks = [x for x in n.kids()] if n.op not in ("astype", "flip", "np.diff") else [a[0]]
        rs = [rank(ctx, k, memo) for k in ks]
        r = None if None in rs else max(rs, default=0)
    elif n.op == "simpson":
        x = rank(ctx, a[0], memo)
        r = x - 1 if x else None
    elif n.op == "index":
        b, i = rank(ctx, a[0], memo), a[1]
        if b is None:
            r = None
        elif i.op == "slice":
            r = b
        elif i.op == "tuple":
            r = None
        else:
            k = rank(ctx, i, memo)
            r = b - 1 if k == 0 else b if k == 1 and b == 1 else None
    else:
        r = None
    memo[n.nid] = r
    return r
