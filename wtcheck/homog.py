"""Degree inference: how a value graph depends on the amplitude of its data, as a type system over its canonical form.

Three readings of the same rules (mode):
  positive  degree d: the value for c times the data is c^d times the value, for every c > 0
  negative  parity d: the value for minus the data is (-1)^d times the value
  linear    0: the value does not depend on the data; 1: it is linear in the data (real coefficients)
ANY is the value zero (every degree; in "positive" also infinity), TOP is not known.  Sums, selections, stores and joins need equal
degrees; comparisons, orders and positions degree 0, or - "positive" only - operands of one degree.  Nothing is evaluated, and the rules
claim a degree only where it holds for all data, so a type is a proof.
"""
from __future__ import annotations

from fractions import Fraction as Q

from .ir import C, Node, mk

ANY, TOP = "any", "unknown"

LINEAR = {"ravel", "reshape", "reshape_", "transpose", "flip", "conj", "real", "imag", "float", "copy", "np.sum", "np.mean", "np.diff",
          "np.cumsum", "fft", "ifft", "rfft", "irfft", "hilbert", "neg", "fromlist", "tolist", "item"}
EXTREME = {"np.amax", "np.amin", "np.median", "np.sort", "np.ptp"}
PLACE = {"nz", "first", "last", "np.argmax", "np.argmin", "np.argsort", "count", "np.count"}
SHAPE = {"len", "sizeof", "shapeof", "ndimof", "welchlen", "isinstance", "dtypeof"}
FREE = {"exp", "log", "log10", "log2", "log1p", "expm1", "sin", "cos", "tan", "tanh", "sinh", "cosh", "arcsin", "arccos", "arctan", "floor",
        "ceil", "round", "trunc", "int", "mod", "floordiv", "gammaf", "gammainc", "np.arange", "np.linspace", "random", "and", "or", "not", "xor",
        "bool", "np.any", "np.all", "slice", "spacing", "fftfreq", "range", "is", "in", "exists", "arctan2",
        "np.polyfit", "np.prod", "csqrt", "hypot", "np.std", "np.var", "np.median", "np.unique", "isclose"}


class Tup(list):
    pass


class Degree:
    def __init__(self, ctx, env, mode):
        self.ctx, self.env, self.mode = ctx, env, mode
        self.memo, self.mu, self.why = {}, {}, []

    def __call__(self, n):
        stack = [n]
        while stack:
            x = stack[-1]
            if x.nid in self.memo:
                stack.pop()
                continue
            if x.op == "rec":
                stack.pop()
                self.memo[x.nid] = self.rec(x)
                continue
            ks = [k for k in x.kids() if k.nid not in self.memo]
            if ks:
                stack.extend(ks)
                continue
            stack.pop()
            t = self.rule(x)
            if t == TOP and not any(self.memo.get(k.nid) == TOP for k in x.kids()):
                self.why.append(x)
            self.memo[x.nid] = t
        return self.memo[n.nid]

    # ---------------------------------------------------------------- loops
    def rec(self, x):
        which, depth, names, it, lo, hi, inits, nexts, cond = x.args
        for b in (lo, hi):
            if isinstance(b, Node) and self(b) not in (0, ANY):
                return TOP
        keys = [(depth, nm) for nm in names]
        old = {k: self.mu.get(k) for k in keys}
        cur = {k: self(i) for k, i in zip(keys, inits)}
        saved = dict(self.memo)
        res = None
        for _ in range(2 * len(keys) + 2):
            self.mu.update(cur)
            self.memo = dict(saved)
            new = {k: self.join([cur[k], self(nx)]) for k, nx in zip(keys, nexts)}
            c = self(cond) if isinstance(cond, Node) else 0
            if c not in (0, ANY):
                new = {k: TOP for k in keys}
            if new == cur:
                res = cur
                break
            cur = new
        self.memo = saved
        for k, v in old.items():
            if v is None:
                self.mu.pop(k, None)
            else:
                self.mu[k] = v
        j = which if isinstance(which, int) else int(which.args[1])
        return res[keys[j]] if res else TOP

    # ---------------------------------------------------------------- combination
    def d(self, a):
        return self.memo[a.nid]

    def flat(self, t):
        return self.join(t) if isinstance(t, Tup) else t

    def join(self, ts):
        ts = list(ts)
        if any(isinstance(t, Tup) for t in ts):
            tt = [t for t in ts if isinstance(t, Tup)]
            if len(tt) == len(ts) and all(len(t) == len(tt[0]) for t in tt):
                return Tup(self.join(q) for q in zip(*tt))
            ts = [self.flat(t) for t in ts]
        r = ANY
        for t in ts:
            if t == TOP:
                return TOP
            if t == ANY:
                continue
            if r == ANY:
                r = t
            elif r != t:
                return TOP
        return r

    def power(self, t, e):
        t = self.flat(t)
        if t in (ANY, TOP):
            return t if t == TOP or e > 0 else TOP if self.mode != "positive" else ANY  # 1 / 0: infinite or undefined
        if t == 0:
            return Q(0)
        if self.mode == "linear":
            return Q(1) if e == 1 else TOP
        if self.mode == "negative":
            return Q(int(t * e) % 2) if Q(e).denominator == 1 else TOP
        return t * e

    def prod(self, ts):
        r = Q(0)
        zero = False
        for t in ts:
            t = self.flat(t)
            if t == TOP:
                return TOP
            if t == ANY:
                zero = True
                continue
            r += t
        if zero:
            return ANY
        if self.mode == "linear" and r > 1:
            return TOP
        return r % 2 if self.mode == "negative" else r

    def free(self, a):
        """All operands are the same for the changed data."""
        return all(self.flat(self.d(x)) in (0, ANY) for x in a if isinstance(x, Node))

    def kids(self, a):
        for x in a:
            if isinstance(x, Node):
                yield x
            elif isinstance(x, tuple):
                yield from self.kids(x)

    # ---------------------------------------------------------------- rules
    def rule(self, n):
        o, a = n.op, n.args
        if o == "const":
            v = n.val
            if isinstance(v, (int, float, Q)) and not isinstance(v, bool) and v == 0:
                return ANY
            return Q(0)
        if o in ("zeros", "empty", "zeros_like"):
            if any(isinstance(q, str) and "int" in q or q is not None and getattr(q, "op", None) == "const" and "int" in str(q.val) for q in a[1:]):
                return Q(0)
            return ANY if all(self.flat(self.d(q)) in (0, ANY) for q in self.kids(a)) or o == "zeros_like" else TOP
        if o in ("pi", "undef", "func", "cls", "ext", "iter"):
            return Q(0)
        if o == "inf":
            return ANY if self.mode == "positive" else Q(0)
        if o == "nan":
            return ANY
        if o == "sym":
            return self.env.get(a[0], Q(0))
        if o == "mu":
            return self.mu.get((a[0], a[1]), TOP)
        if o == "poly":
            return self.poly(n)
        if o in SHAPE:
            t = self.d(a[0])
            return Q(0) if t != TOP else TOP
        if o in ("isnan", "isinf", "isfinite"):
            t = self.flat(self.d(a[0]))
            return Q(0) if t != TOP else TOP
        if o in ("lt0", "le0", "eq0"):
            t = self.flat(self.d(a[0]))
            if t in (0, ANY) or t != TOP and (self.mode == "positive" or self.mode == "negative" and o == "eq0"):
                return Q(0)
            return TOP
        if o in ("lt", "le", "eq", "ne"):
            t = self.join([self.d(x) for x in a])
            if t in (0, ANY) or t != TOP and not isinstance(t, Tup) and (self.mode == "positive" or self.mode == "negative" and o in ("eq", "ne")):
                return Q(0)
            return TOP
        if o == "sign":
            t = self.flat(self.d(a[0]))
            if t in (0, ANY):
                return t
            return TOP if t == TOP or self.mode == "linear" else Q(0) if self.mode == "positive" else t
        if o == "abs":
            t = self.flat(self.d(a[0]))
            if t in (0, ANY, TOP):
                return t
            return TOP if self.mode == "linear" else Q(0) if self.mode == "negative" else t
        if o in LINEAR:
            t = self.d(a[0]) if isinstance(a[0], Node) else TOP
            if any(self.flat(self.d(q)) not in (0, ANY) for q in self.kids(a[1:])):
                return TOP
            return self.flat(t) if o not in ("float", "copy") else t
        if o in ("astype", "astype_like"):
            t = self.flat(self.d(a[0]))
            k = str(a[1].val if isinstance(a[1], Node) and a[1].op == "const" else a[1])
            return t if t == 0 or "float" in k or "complex" in k else TOP if t != ANY else ANY
        if o in EXTREME or o in ("max2", "min2"):
            t = self.join([self.flat(self.d(x)) for x in self.kids(a)]) if o in ("max2", "min2") else self.flat(self.d(a[0]))
            return t if t in (0, ANY, TOP) or self.mode == "positive" else TOP
        if o in ("np.std", "np.var"):
            t = self.flat(self.d(a[0]))
            if t in (0, ANY):
                return t
            if t == TOP or self.mode == "linear":
                return TOP
            return Q(0) if self.mode == "negative" else t * (2 if o == "np.var" else 1)
        if o in PLACE:
            ts = [self.flat(self.d(x)) for x in self.kids(a)]
            if all(t in (0, ANY) or t != TOP and self.mode == "positive" for t in ts):
                return Q(0)
            return TOP
        if o == "gamma":
            if self.flat(self.d(a[0])) not in (0, ANY):
                return TOP
            return self.join([self.d(a[1]), self.d(a[2])])
        if o == "index":
            i = a[1]
            if self.flat(self.d(i)) not in (0, ANY):
                return TOP
            b = self.d(a[0])
            if isinstance(b, Tup):
                if i.op == "const" and isinstance(i.val, int) and -len(b) <= i.val < len(b):
                    return b[i.val]
                return self.flat(b)
            return b
        if o in ("tuple", "list"):
            return Tup(self.d(x) if isinstance(x, Node) else TOP for x in a)
        if o == "store":
            if self.flat(self.d(a[1])) not in (0, ANY):
                return TOP
            return self.join([self.flat(self.d(a[0])), self.flat(self.d(a[2]))])
        if o == "fill":
            init, it, lo, hi, e = a
            if not self.free((lo, hi)):
                return TOP
            return self.join([ANY if init.op == "list" and not init.args else self.flat(self.d(init)), self.flat(self.d(e))])
        if o in ("filtermap", "fillg"):
            init, it, lo, hi, c, e = a
            if not self.free((lo, hi, c)):
                return TOP
            return self.join([ANY if init.op == "list" and not init.args else self.flat(self.d(init)), self.flat(self.d(e))])
        if o == "sumover":
            return self.flat(self.d(a[3])) if self.free(a[1:3]) else TOP
        if o in ("full", "full_like"):
            return self.flat(self.d(a[1])) if isinstance(a[1], Node) else TOP
        if o == "simpson":
            y, rest = a[0], a[1:]
            return self.flat(self.d(y)) if self.free(rest) else TOP
        if o == "trapezoid":
            return self.flat(self.d(a[0])) if self.free(a[1:]) else TOP
        if o == "np.interp":
            if not self.free(a[:2]):
                return TOP
            return self.join([self.flat(self.d(x)) for x in a[2:] if isinstance(x, Node) and not (x.op == "const" and x.val is None)])
        if o in ("np.append", "np.concatenate", "lappend"):
            return self.join([self.flat(self.d(x)) for x in self.kids(a) if not (x.op == "const" and x.val is None)])
        if o == "np.delete":
            return self.flat(self.d(a[0])) if self.free(a[1:]) else TOP
        if o == "welch":
            t = self.flat(self.d(a[0]))
            if not self.free(a[1:]) or t == TOP:
                return TOP
            if t in (0, ANY):
                return Tup([Q(0), t])
            return TOP if self.mode == "linear" else Tup([Q(0), self.power(t, Q(2))])
        if o == "pow":
            e = self.flat(self.d(a[1]))
            b = self.flat(self.d(a[0]))
            if e in (0, ANY) and b == 0:
                return Q(0)
            return TOP
        if o in FREE:
            return Q(0) if all(self.flat(self.d(x)) in (0, ANY) for x in self.kids(a)) else TOP
        return Q(0) if a and all(self.flat(self.d(x)) == 0 for x in self.kids(a)) and o.split(":")[0] == "ext" else TOP

    def poly(self, n):
        ts = []
        for mono, coef in n.args[0]:
            ts.append(self.prod([self.power(self.d(x), Q(e) if not isinstance(e, Node) else Q(0)) for x, e in mono]))
        return self.join(ts)


def degrees(run, env, mode):
    """Types of the results of a run and of its refusal conditions; None where nothing is known."""
    g = Degree(run.w.ctx, env, mode)
    v = run.canon()
    parts = v.args if v.op == "tuple" else (v,)
    out = [g(p) for p in parts]
    ok = True
    for e in run.raises:
        for c in e.pc:
            if g.flat(g(run.w.ctx.canon(c))) not in (0, ANY):
                ok = False
    return out, ok, g


MOVES = {"ravel", "reshape", "transpose", "flip", "float", "copy", "real", "conj", "fromlist", "tolist", "item", "np.amax", "np.amin", "np.median",
         "np.sort", "np.mean"}
STILL = {"np.diff", "np.ptp", "np.std", "np.var"}


class Shift(Degree):
    """How a value moves when a constant c is added to the shifted inputs: type s (a graph that does not depend on them) for a value that
    moves by s c; 0 for one that stays; ANY for an array without elements."""

    def __init__(self, ctx, env):
        super().__init__(ctx, env, "shift")
        self.c = ctx.declare("@shift", shape=(), dtype="float")

    def rule(self, n):
        o, a = n.op, n.args
        if o == "const":
            return Q(0)
        if o in ("zeros", "empty", "zeros_like", "nan", "inf"):
            s = self.ctx.shape(n)
            if s and any(k.op == "const" and k.val == 0 for k in s):
                return ANY
            return Q(0) if self.free(list(self.kids(a))) else TOP
        if o in ("lt", "le", "eq", "ne", "lt0", "le0", "eq0"):
            t = self.join([self.flat(self.d(x)) for x in a])
            if o[-1] == "0":
                return Q(0) if t in (0, ANY) else TOP
            return TOP if t == TOP else Q(0)
        if o in ("isnan", "isinf", "isfinite"):
            return Q(0) if self.flat(self.d(a[0])) != TOP else TOP
        if o in MOVES:
            return self.flat(self.d(a[0])) if isinstance(a[0], Node) and self.free(a[1:]) else TOP
        if o in STILL:
            t = self.flat(self.d(a[0]))
            return TOP if t == TOP or not self.free(a[1:]) else Q(0)
        if o == "np.sum":
            t = self.flat(self.d(a[0]))
            if t in (0, ANY, TOP):
                return Q(0) if t == ANY else t
            s = self.ctx.shape(a[0])
            if s is None or len(s) != 1 or not self.free(a[1:]):
                return TOP
            return self.kind(self.ctx.canon(mk("mul", t, s[0])))
        if o in PLACE:
            # positions in an ordered array stay; positions of true elements need a condition that stays
            t = self.flat(self.d(a[0]))
            if o in ("nz", "first", "last", "count", "np.count"):
                return Q(0) if t in (0, ANY) else TOP
            return TOP if t == TOP else Q(0)
        if o in ("max2", "min2"):
            return self.join([self.flat(self.d(x)) for x in self.kids(a)])
        if o == "np.arange" and len(a) == 3:
            t = self.join([self.flat(self.d(a[0])), self.flat(self.d(a[1]))])
            return t if self.free(a[2:]) else TOP
        if o == "np.linspace":
            t = self.join([self.flat(self.d(a[0])), self.flat(self.d(a[1]))])
            return t if self.free(a[2:]) else TOP
        if o in ("simpson", "trapezoid"):
            y = self.flat(self.d(a[0]))
            return Q(0) if y in (0, ANY) and all(self.flat(self.d(x)) != TOP for x in self.kids(a[1:])) else TOP
        if o == "np.interp":
            if self.join([self.flat(self.d(x)) for x in a[:2]]) == TOP:
                return TOP
            return self.join([self.flat(self.d(x)) for x in a[2:] if isinstance(x, Node) and not (x.op == "const" and x.val is None)])
        if o in ("fill", "filtermap", "fillg") and len(a) >= 5:
            init, it, lo, hi = a[:4]
            s = self.ctx.shape(init)
            if o == "fill" and self.free((lo, hi)) and s is not None and len(s) == 1 and lo.op == "const" and lo.val == 0 and \
                    (s[0] is hi or self.ctx.canon(mk("max2", s[0], C(0))) is hi or hi is self.ctx.canon(s[0])):
                return self.flat(self.d(a[4]))  # every element is written
            return super().rule(n)
        if o in LINEAR or o in EXTREME or o in ("abs", "sign", "welch", "np.cumsum"):
            ks = list(self.kids(a))
            if not all(self.flat(self.d(x)) in (0, ANY) for x in ks):
                return TOP
            return Tup([Q(0), Q(0)]) if o == "welch" else Q(0)
        return super().rule(n)

    def kind(self, s):
        """A moving rate as a type."""
        if s.op == "const" and s.val == 0:
            return Q(0)
        return s

    def poly(self, n):
        ctx = self.ctx
        rate, ats = {}, {x for mono, _ in n.args[0] for x, e in mono}
        for x in ats:
            t = self.flat(self.d(x))
            if t == TOP:
                return TOP
            if t not in (0, ANY):
                rate[x] = t
        if not rate:
            return Q(0)
        p, moved = {}, {}
        for mono, coef in n.args[0]:
            t = {(): coef}
            for x, e in mono:
                if x in rate:
                    if Q(e).denominator != 1 or e < 0 or e > 4:
                        return TOP
                    y = ctx.p_add(ctx.to_poly(x), ctx.p_mul(ctx.to_poly(rate[x]), ctx.to_poly(self.c)))
                    t = ctx.p_mul(t, ctx.p_pow(y, e))
                else:
                    t = ctx.p_mul(t, ctx.p_pow(ctx.to_poly(x), e))
            moved = ctx.p_add(moved, t)
        d = ctx.p_add(moved, {m: -c for m, c in n.args[0]})
        r = {}
        for m, c in d.items():
            if c == 0:
                continue
            f = [(x, e) for x, e in m if x is not self.c]
            if len(f) != len(m) - 1 or any(x is self.c and e != 1 for x, e in m) or any(x in rate for x, e in f):
                return TOP
            r[tuple(f)] = c
        s = ctx.from_poly(r)
        if s.op == "const" and s.val == 0:
            return Q(0)
        return s if ctx.shape(s) == () else TOP


def shifts(run, names):
    one = run.w.ctx.canon(C(1))
    g = Shift(run.w.ctx, {n: one for n in names})
    v = run.canon()
    parts = v.args if v.op == "tuple" else (v,)
    return [g.flat(g(p)) for p in parts], one, g
