"""Dimension inference: a type system of physical units over the extracted value graph.

Types: DIM = exponents of (elevation, horizontal distance, time); LIT = a number written in the source (no unit, may be compared with or
selected against anything, a tolerance); ANY = zero, infinity, NaN, not yet assigned; TOP = not known; a tuple of types for a tuple.
Nothing is evaluated.
"""
from __future__ import annotations

from fractions import Fraction as Q

from .ir import Node

ANY, LIT, TOP = "any", "literal", "unknown"
ZERO = (Q(0), Q(0), Q(0))
TINY = 1e-5


class Tup(list):
    pass


def text(d):
    if isinstance(d, Tup):
        return "(" + ", ".join(text(x) for x in d) + ")"
    if isinstance(d, str):
        return d
    if d == ZERO:
        return "1"
    return " ".join("%s^%s" % (n, e) if e != 1 else n for n, e in zip(("elevation", "distance", "time"), d) if e != 0)


PASS = {"abs", "neg", "float", "ravel", "reshape", "reshape_", "transpose", "flip", "conj", "real", "imag", "astype", "copy", "np.sum", "np.mean",
        "np.amax", "np.amin", "np.median", "np.std", "np.sort", "np.diff", "np.cumsum", "fft", "ifft", "rfft", "irfft", "hilbert", "np.delete",
        "fromlist", "tolist", "item", "ext:numpy.flip", "ext:numpy.reshape", "np.nan_to_num", "np.unique", "ext:numpy.nanmax", "ext:numpy.nanmin",
        "ext:numpy.nansum", "ext:numpy.nanmean", "ext:numpy.max", "ext:numpy.min", "ext:numpy.squeeze", "ext:numpy.atleast_1d", "astype_like",
        "ext:numpy.real_if_close", "ext:numpy.roll"}
PURE = {"len", "sizeof", "shapeof", "ndimof", "isinstance", "nz", "first", "last", "count", "np.argsort", "np.argmin", "np.argmax", "isnan", "isinf",
        "isfinite", "and", "or", "not", "xor", "bool", "sign", "random", "exists", "np.any", "np.all", "is", "in", "iter", "dtypeof",
        "welchlen", "ext:numpy.searchsorted", "ext:numpy.sign", "ext:numpy.signbit", "bitand", "bitor"}
NUMBER = {"exp", "log", "log10", "log2", "log1p", "expm1", "sin", "cos", "tan", "tanh", "sinh", "cosh", "arcsin", "arccos", "arctan", "arctanh",
          "floor", "ceil", "round", "trunc", "int", "gammaf", "gammainc", "ext:exponweib.ppf", "ext:rayleigh.ppf", "ext:scipy.special.gamma"}
SAME = {"add", "sub", "mod", "np.append", "ext:numpy.hypot"}


class Dims:
    def __init__(self, ctx, env, origin=None):
        self.ctx, self.env, self.origin = ctx, env, origin or {}
        self.memo, self.mu = {}, {}
        self.errors, self.unknown, self.nodes = [], {}, 0

    # ---------------------------------------------------------------- driver
    def __call__(self, n):
        stack = [n]
        while stack:  # children first: no deep recursion
            x = stack[-1]
            if x.nid in self.memo:
                stack.pop()
                continue
            if x.op == "rec":
                self.rec_assume(x)
            if x.op in ("lt0", "le0", "eq0") and x.args[0].op == "poly" and x.args[0].nid not in self.memo:
                # an operand of a comparison: a number written in the source is a tolerance
                p = x.args[0]
                ks = [k for k in p.kids() if k.nid not in self.memo]
                if ks:
                    stack.extend(ks)
                    continue
                self.nodes += 1
                big = x.op != "eq0" and any(not m and abs(c) >= TINY and abs(c) != 1 for m, c in p.args[0])
                self.memo[p.nid] = self.poly(p, exempt=not big)
            ks = [k for k in x.kids() if k.nid not in self.memo]
            if ks:
                stack.extend(ks)
                continue
            stack.pop()
            self.nodes += 1
            self.memo[x.nid] = self.rule(x)
        return self.memo[n.nid]

    def rec_assume(self, x):
        j, depth, names, it, lo, hi, inits, nexts, cond = x.args
        for nm, i in zip(names, inits):
            k = (depth, nm)
            if k not in self.mu:
                self.mu[k] = ANY
                self.mu[k] = self(i)

    def err(self, n, why):
        self.errors.append((n, why))
        return TOP

    def d(self, a):
        return self.memo[a.nid]

    def join(self, n, ts, what, exempt=False):
        """One type for values that are added, compared or selected between."""
        r = ANY
        lit = False
        for t in ts:
            t = self.flat(t)
            if t == TOP:
                return TOP
            if t == ANY:
                continue
            if t == LIT:
                lit = True
                continue
            if r == ANY:
                r = t
            elif r != t:
                return self.err(n, "%s of %s and %s" % (what, text(r), text(t)))
        if r == ANY:
            return LIT if lit else ANY
        if lit and not exempt and r != ZERO:
            return self.err(n, "%s of %s and a pure number" % (what, text(r)))
        return r

    def scale(self, t, e):
        if isinstance(t, str) or isinstance(t, Tup):
            return t if not isinstance(t, Tup) else TOP
        return tuple(q * e for q in t)

    def prod(self, ts):
        r, lit, anyt = ZERO, True, False
        for t in ts:
            if isinstance(t, Tup):
                t = t[0] if len(t) and all(q == t[0] for q in t) else TOP
            if t == TOP:
                return TOP
            if t == ANY:
                anyt = True
            elif t != LIT:
                lit = False
                r = tuple(a + b for a, b in zip(r, t))
        if anyt:
            return ANY
        return LIT if lit else r

    def number(self, n, t, what):
        if t in (ANY, LIT, TOP) or t == ZERO or isinstance(t, Tup):
            return True
        self.err(n, "%s of a quantity in %s" % (what, text(t)))
        return False

    def konst(self, a):
        c = self.ctx.canon(a)
        if c.op == "const" and isinstance(c.val, (int, float, Q)) and not isinstance(c.val, bool):
            return Q(c.val).limit_denominator(10 ** 9)
        return None

    def big(self, x):
        """A number written in the source that is too large for a tolerance and is not the sentinel -1."""
        if self.d(x) != LIT:
            return False
        k = self.konst(x)
        return k is None or abs(k) >= TINY and k != -1

    # ---------------------------------------------------------------- rules
    def rule(self, n):
        o, a = n.op, n.args
        if o == "const":
            v = n.val
            if isinstance(v, (int, float, Q, complex)) and not isinstance(v, bool):
                return ANY if v == 0 or v != v or v in (float("inf"), -float("inf")) else LIT
            return ANY
        if o == "pi":
            return LIT
        if o == "spacing":
            return ANY
        if o in ("inf", "nan", "undef", "zeros", "empty", "zeros_like"):
            return ANY
        if o in ("full", "full_like"):
            return self.d(a[1])
        if o == "sym":
            return self.env.get(a[0], TOP)
        if o == "iter":
            return ZERO
        if o == "mu":
            return self.mu.get((a[0], a[1]), TOP)
        if o == "poly":
            return self.poly(n)
        if o in PURE:
            return ZERO
        if o in ("lt", "le", "eq", "ne"):
            self.join(n, [self.d(x) for x in a], "comparison", exempt=not (o in ("lt", "le") and any(self.big(x) for x in a)))
            return ZERO
        if o in ("lt0", "le0", "eq0"):
            return ZERO
        if o in SAME:
            ts = [self.d(x) for x in a if isinstance(x, Node)]
            ex = any(x.op == "const" and isinstance(x.val, (int, float, Q)) and abs(x.val) < TINY or x.op == "spacing" for x in a if isinstance(x, Node))
            return self.join(n, ts, {"add": "sum", "sub": "difference", "mod": "remainder"}.get(o, "joining"), exempt=ex)
        if o in ("max2", "min2"):
            return self.join(n, [self.d(x) for x in a], "extreme", exempt=not any(self.big(x) for x in a))
        if o == "gamma":
            x, y = self.d(a[1]), self.d(a[2])
            if isinstance(x, Tup) and isinstance(y, Tup) and len(x) == len(y):
                return Tup(self.join(n, [p, q], "selection", True) for p, q in zip(x, y))
            if isinstance(x, Tup) and y == ANY:
                return x
            if isinstance(y, Tup) and x == ANY:
                return y
            return self.join(n, [x, y], "selection", True)
        if o == "mul":
            return self.prod([self.d(x) for x in a])
        if o in ("div", "floordiv"):
            r = self.prod([self.d(a[0]), self.scale(self.d(a[1]), -1)])
            if o == "floordiv":
                self.number(n, r, "integer quotient")
            return r
        if o == "pow":
            x, y = self.d(a[0]), self.d(a[1])
            self.number(n, y, "exponent")
            if x == ZERO and y != TOP or x in (LIT, ANY):
                return ZERO if x == ZERO else x
            e = self.konst(a[1])
            if e is None or x == TOP or isinstance(x, Tup):
                return TOP
            return self.scale(x, e)
        if o in ("sqrt",):
            return self.scale(self.d(a[0]), Q(1, 2))
        if o in ("square", "np.var"):
            return self.scale(self.d(a[0]), 2)
        if o in NUMBER:
            for x in a:
                if isinstance(x, Node):
                    self.number(n, self.d(x), o.split(".")[-1])
            return ZERO if any(self.d(x) != LIT for x in a if isinstance(x, Node)) else LIT
        if o in PASS:
            x = a[0]
            while isinstance(x, tuple) and x:
                x = x[0]
            return self.d(x) if isinstance(x, Node) else TOP
        if o == "index":
            b = self.d(a[0])
            i = a[1]
            for q in (i.kids() if i.op in ("slice", "tuple") else (i,)):
                t = self.d(q)
                if not isinstance(t, Tup):
                    self.number(n, t, "index")
            if isinstance(b, Tup):
                k = self.konst(i)
                if k is not None and -len(b) <= k < len(b):
                    return b[int(k)]
                if len(b) and all(x == b[0] for x in b):
                    return b[0]
                return TOP
            return b
        if o in ("slice", "dict"):
            return ZERO
        if o in ("tuple", "list"):
            return Tup(self.d(x) if isinstance(x, Node) else TOP for x in a)
        if o == "store":
            return self.join(n, [self.d(a[0]), self.d(a[2])], "storing", True)
        if o == "fill":
            return self.join(n, [self.d(a[0]) if a[0].op != "list" else ANY, self.d(a[4])], "storing", True)
        if o in ("fillg", "filtermap"):
            return self.join(n, [self.d(a[0]) if a[0].op != "list" else ANY, self.d(a[5])], "storing", True)
        if o == "lappend":
            return self.join(n, [self.d(a[0]) if a[0].op != "list" else ANY, self.d(a[1])], "storing", True)
        if o in ("sumover", "lastval"):
            return self.d(a[3])
        if o in ("np.arange", "np.linspace"):
            t = self.join(n, [self.d(x) for x in a[:3 if o == "np.arange" else 2]], "range")
            return ZERO if t in (LIT, ANY) else t
        if o == "np.concatenate":
            return self.join(n, list(self.d(a[0])) if isinstance(self.d(a[0]), Tup) else [TOP], "joining", True)
        if o == "np.interp":
            self.join(n, [self.d(a[0]), self.d(a[1])], "interpolation at a place")
            return self.join(n, [self.d(a[2])] + [self.d(x) for x in a[3:5] if isinstance(x, Node)], "interpolation", True)
        if o in ("simpson", "trapezoid"):
            dx = a[1] if isinstance(a[1], Node) and not (a[1].op == "const" and a[1].val is None) else a[2]
            t = self.d(dx)
            return self.prod([self.d(a[0]), ZERO if t == LIT else t])
        if o == "np.polyfit":
            k = self.konst(a[2])
            x, y = self.flat(self.d(a[0])), self.flat(self.d(a[1]))
            if k is None or TOP in (x, y):
                return TOP
            x, y = (ZERO if q in (LIT, ANY) else q for q in (x, y))
            return Tup(self.prod([y, self.scale(x, -(int(k) - j))]) for j in range(int(k) + 1))
        if o == "welch":
            fs, x = self.d(a[1]), self.d(a[0])
            if TOP in (fs, x) or fs in (LIT, ANY):
                return TOP
            return Tup([fs, self.prod([x, x, self.scale(fs, -1)])])
        if o == "fftfreq":
            return self.scale(self.d(a[1]), -1)
        if o == "rec":
            j, depth, names, it, lo, hi, inits, nexts, cond = a
            for nm, x in zip(names, nexts):
                k = (depth, nm)
                t = self.d(x)
                m = self.mu.get(k, TOP)
                if m in (ANY, LIT) and t not in (ANY, LIT, TOP):
                    # known only from the body: the body is typed with "any" for the old value
                    self.mu[k] = t
                elif t != m and t not in (ANY, LIT, TOP) and m != TOP:
                    self.err(n, "iteration turns %s into %s" % (text(m), text(t)))
            jj = j if isinstance(j, int) else int(j.args[1])
            return self.join(n, [self.d(inits[jj]), self.d(nexts[jj])], "iteration", True)
        self.unknown[o] = self.unknown.get(o, 0) + 1
        return TOP

    def flat(self, t):
        if isinstance(t, Tup):
            r = [q for q in t if q not in (ANY, LIT)]
            return r[0] if r and all(q == r[0] for q in r) else (TOP if r else ANY)
        return t

    def poly(self, n, exempt=False):
        ts = []
        for mono, coef in n.args[0]:
            if not mono:
                ts.append(ANY if exempt or coef == 0 or abs(coef) < TINY else LIT)
                continue
            ts.append(self.prod([self.scale(self.flat(self.d(x)), Q(e)) for x, e in mono]))
        return self.join(n, ts, "sum", exempt)

    # ---------------------------------------------------------------- report
    def where(self, n):
        """Source position of a node, or of the smallest enclosing one known."""
        o = self.origin.get(n.nid)
        return "%s:%s in %s" % (o[0], o[2], o[1]) if o else None
