"""Analysis context: hypotheses on the entry's parameters, canonical forms, shapes, element types, decisions.

A context never executes the analysed program: it rewrites terms into a normal form (polynomials with rational
coefficients over opaque atoms, comparisons against zero, composed slices) and evaluates shapes, intervals and
element types of terms bottom-up.
"""
from __future__ import annotations

from fractions import Fraction

from .ir import (C, FALSE, FULLSLICE, INF, MINUS1, NAN, NONE, ONE, PI, TRUE, UNDEF, ZERO, Node, free_iters, mk, show,
                 walk)

IMAG = mk("const", "complex", 1j)
EULER_EXP = "exp"

# element-wise functions of one array argument
EW1 = {"sqrt", "exp", "log", "log10", "log2", "sin", "cos", "tan", "sinh", "cosh", "tanh", "arctan", "arcsin",
       "arccos", "abs", "floor", "ceil", "round", "sign", "real", "imag", "conj", "angle", "isnan", "isinf",
       "isfinite", "not", "trunc", "float", "astype", "expm1", "log1p", "spacing", "lt0", "le0", "eq0", "gammaf",
       "cbrt", "degrees", "radians"}
EW2 = {"add", "sub", "mul", "div", "pow", "mod", "floordiv", "max2", "min2", "lt", "le", "eq", "ne", "and", "or",
       "arctan2", "hypot", "gammainc", "bitand", "bitor", "xor", "isclose"}
EW = EW1 | EW2 | {"neg", "poly", "gamma"}
REDUCE = {"np.sum", "np.mean", "np.amax", "np.amin", "np.var", "np.std", "np.prod", "np.all", "np.any",
          "np.median", "np.argmax", "np.argmin", "np.count", "np.nanmax", "np.nanmin", "np.nanmean", "np.nansum",
          "np.ptp"}
BOOL_OPS = {"lt", "le", "eq", "ne", "and", "or", "not", "lt0", "le0", "eq0", "isnan", "isinf", "isfinite", "np.all",
            "np.any", "is", "in", "isclose"}


class TooBig(Exception):
    pass


class Dim:
    pass


def F(*x):
    return Fraction(*x)


class Context:
    def __init__(self):
        self.meta = {}  # sym name -> dict(kind, shape, dtype, lo, hi, lo_strict, ne, int)
        self._canon = {}
        self._shape = {}
        self._dtype = {}
        self._dec = {}
        self._neg = {}
        self.assumed = ()  # extra canonical conditions taken as true

    # ------------------------------------------------------------------ symbols
    def declare(self, name, **kw):
        self.meta[name] = kw
        return mk("sym", name)

    def m(self, n, key, default=None):
        if isinstance(n, Node) and n.op == "sym":
            return self.meta.get(n.args[0], {}).get(key, default)
        return default

    # ------------------------------------------------------------------ polynomials
    def to_poly(self, n):
        """Canonical node -> poly dict."""
        if n.op == "poly":
            return {mono: coef for mono, coef in n.args[0]}
        if n.op == "const":
            v = n.val
            if isinstance(v, bool):
                return {(): F(int(v))}
            if isinstance(v, int):
                return {(): F(v)} if v else {}
            if isinstance(v, float):
                return {(): F(repr(v))} if v else {}
            if isinstance(v, Fraction):
                return {(): v} if v else {}
            if isinstance(v, complex):
                p = {}
                if v.real:
                    p[()] = F(repr(v.real))
                if v.imag:
                    p[((IMAG, F(1)),)] = F(repr(v.imag))
                return p
        return {((n, F(1)),): F(1)}

    def from_poly(self, p):
        p = {m: c for m, c in p.items() if c}
        if not p:
            return ZERO
        if len(p) == 1:
            (m, c), = p.items()
            if not m:
                return C(c)
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        if len(p) > 600:
            raise TooBig
        items = tuple(sorted(p.items(), key=lambda t: _monokey(t[0])))
        return mk("poly", items)

    def p_add(self, p, q, s=1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + s * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def p_scale(self, p, c):
        return {m: v * c for m, v in p.items()} if c else {}

    def p_mul(self, p, q):
        if len(p) * len(q) > 4000:
            raise TooBig
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                for m, c in self.mono_mul(m1, m2).items():
                    v = r.get(m, 0) + c * c1 * c2
                    if v:
                        r[m] = v
                    else:
                        r.pop(m, None)
        return self.cancel(r)

    def mono_mul(self, m1, m2):
        if not m1:
            return {m2: F(1)}
        if not m2:
            return {m1: F(1)}
        d = dict(m1)
        for a, e in m2:
            d[a] = d.get(a, 0) + e
        return self.norm_mono(d)

    def norm_mono(self, d, coef=F(1)):
        """Normalise a dict atom->exponent to a poly."""
        extra = None
        expo = None
        nd = {}
        for a, e in d.items():
            if e == 0:
                continue
            if a is IMAG:
                if e.denominator != 1:
                    nd[a] = e
                    continue
                k = int(e) % 4
                if k in (2, 3):
                    coef = -coef
                if k in (1, 3):
                    nd[a] = F(1)
            elif a.op == "const":
                # fractional power of a rational constant
                v = _num(a)
                k = e.numerator // e.denominator
                if k:
                    coef *= v ** k
                    e -= k
                if e:
                    nd[a] = e
            elif a.op == "exp":
                p = self.p_scale(self.to_poly(a.args[0]), e)
                expo = self.p_add(expo, p) if expo is not None else p
            elif a.op == "poly" and e.denominator == 1 and 0 < e <= 4:
                p = self.to_poly(a)
                for _ in range(int(e)):
                    extra = self.p_mul(extra, p) if extra is not None else p
            else:
                nd[a] = e
        if expo is not None:
            en = self.from_poly(expo)
            if en is not ZERO:
                a = mk("exp", en)
                nd[a] = nd.get(a, F(0)) + 1
        # x * conj(x) -> |x|^2
        for a in list(nd):
            if a.op == "conj" and a.args[0] in nd:
                x = a.args[0]
                k = min(nd[a], nd[x])
                if k.denominator == 1 and k >= 1:
                    for y in (a, x):
                        nd[y] -= k
                        if nd[y] == 0:
                            del nd[y]
                    ab = mk("abs", x)
                    nd[ab] = nd.get(ab, F(0)) + 2 * k
        # |x|^2 -> x^2 for real x, sign(x)*|x| -> x
        for a in list(nd):
            if a.op == "abs" and a in nd and nd[a].denominator == 1 and nd[a] % 2 == 0 and self.is_real(a.args[0]):
                e = nd.pop(a)
                if e:
                    r = self.norm_mono(nd, coef)
                    q = {((a.args[0], e),): F(1)} if a.args[0].op != "poly" else None
                    if q is None:
                        q = self.p_pow(self.to_poly(a.args[0]), e)
                    r = self.p_mul(r, q)
                    if extra is not None:
                        r = self.p_mul(r, extra)
                    return r
        mono = tuple(sorted(nd.items(), key=lambda t: t[0].nid))
        r = {mono: coef}
        if extra is not None:
            r = self.p_mul(r, extra)
        return r

    def primitive(self, p):
        """p = c * mono * q with q primitive (leading coefficient 1, no common atom)."""
        monos = list(p)
        common = dict(monos[0])
        for m in monos[1:]:
            d = dict(m)
            for a in list(common):
                if a in d and (d[a] > 0) == (common[a] > 0):
                    common[a] = min(d[a], common[a], key=abs)
                else:
                    del common[a]
        for a in list(common):
            if a.op in ("exp", "const"):
                del common[a]
        inv = tuple(sorted(((a, -e) for a, e in common.items()), key=lambda t: t[0].nid))
        q = {}
        for m, c in p.items():
            for m2, c2 in self.mono_mul(m, inv).items():
                q[m2] = q.get(m2, 0) + c * c2
        lead = q[min(q, key=_monokey)]
        q = {m: c / lead for m, c in q.items()}
        com = tuple(sorted(common.items(), key=lambda t: t[0].nid))
        return lead, com, q

    def cancel(self, p):
        """(sum of terms) * Q^-k with the sum a multiple of Q."""
        if len(p) < 2:
            return p
        groups = {}
        for m, c in p.items():
            for a, e in m:
                if a.op == "poly" and e < 0:
                    groups.setdefault(a, []).append(m)
        for a, ms in groups.items():
            if len(ms) < len(a.args[0]):
                continue
            num = {}
            exps = set()
            for m in ms:
                d = dict(m)
                exps.add(d.pop(a))
                num[tuple(sorted(d.items(), key=lambda t: t[0].nid))] = p[m]
            if len(exps) != 1:
                continue
            lead, com, q = self.primitive(num)
            if self.from_poly(q) is a:
                e = exps.pop() + 1
                d = dict(com)
                if e:
                    d[a] = d.get(a, F(0)) + e
                rest = {m: c for m, c in p.items() if m not in ms}
                return self.cancel(self.p_add(rest, self.norm_mono(d, lead)))
        return p

    def p_pow(self, p, e):
        """p ** e for a rational e."""
        if not p:
            if e > 0:
                return {}
            raise TooBig
        if e == 0:
            return {(): F(1)}
        if e == 1:
            return dict(p)
        if e.denominator == 1 and 0 < e <= 4 and (len(p) > 1):
            if len(p) ** int(e) > 2000:
                raise TooBig
            r = dict(p)
            for _ in range(int(e) - 1):
                r = self.p_mul(r, p)
            return r
        if len(p) == 1:
            (m, c), = p.items()
            d = {}
            for a, x in m:
                if e.denominator % 2 == 0 and x.denominator == 1 and x % 2 == 0 and a is not IMAG and \
                        not self.is_nonneg(a):
                    a = self.canon(mk("abs", a))  # (x^2)^(1/2) = |x|
                    for (am, ac) in self.to_poly(a).items():
                        if len(self.to_poly(a)) != 1:
                            raise TooBig
                        c = c * ac
                        for aa, ax in am:
                            d[aa] = d.get(aa, F(0)) + ax * x * e
                    continue
                d[a] = d.get(a, F(0)) + x * e
            cf, cd = _const_pow(c, e)
            if cf is None:
                raise TooBig
            for a, x in cd.items():
                d[a] = d.get(a, F(0)) + x
            return self.norm_mono(d, cf)
        lead, com, q = self.primitive(p)
        if e.denominator == 2 and lead < 0:
            q = self.p_scale(q, -1)
            lead = -lead
        d = {}
        for a, x in com:
            if e.denominator % 2 == 0 and x.denominator == 1 and x % 2 == 0 and not self.is_nonneg(a):
                a = mk("abs", a)
            d[a] = d.get(a, F(0)) + x * e
        cf, cd = _const_pow(lead, e)
        if cf is None:
            raise TooBig
        for a, x in cd.items():
            d[a] = d.get(a, F(0)) + x
        qn = self.from_poly(q)
        if qn.op == "poly" and e.denominator != 1:
            # (q)^(2) inside? keep as opaque power
            pass
        d[qn] = d.get(qn, F(0)) + e
        return self.norm_mono(d, cf)

    # ------------------------------------------------------------------ canonical form
    def canon(self, n):
        r = self._canon.get(n.nid)
        if r is not None:
            return r
        # iterative deepening to avoid recursion limits on deep terms
        stack = [(n, False)]
        while stack:
            x, done = stack.pop()
            if x.nid in self._canon:
                continue
            if not done:
                stack.append((x, True))
                for k in x.kids():
                    if k.nid not in self._canon:
                        stack.append((k, False))
                continue
            try:
                r = self._canon1(x)
            except (TooBig, RecursionError, OverflowError, ZeroDivisionError):
                r = self._rebuild(x)
            self._canon[x.nid] = r
            self._canon.setdefault(r.nid, r)
        return self._canon[n.nid]

    def _rebuild(self, x):
        def rb(a):
            if isinstance(a, Node):
                return self._canon.get(a.nid, a)
            if isinstance(a, tuple):
                return tuple(rb(y) for y in a)
            return a

        if x.op == "poly":
            return x
        return mk(x.op, *[rb(a) for a in x.args])

    def _arith(self, op, a, b):
        p, q = self.to_poly(a), self.to_poly(b)
        if op == "add":
            return self.from_poly(self.p_add(p, q))
        if op == "sub":
            return self.from_poly(self.p_add(p, q, -1))
        if op == "mul":
            return self.from_poly(self.p_mul(p, q))
        if op == "div":
            return self.from_poly(self.p_mul(p, self.p_pow(q, F(-1))))
        raise AssertionError(op)

    def _canon1(self, x):
        o = x.op
        if o in ("const",):
            v = x.val
            if isinstance(v, float):
                if v != v:
                    return NAN
                if v in (float("inf"), float("-inf")):
                    return INF if v > 0 else self.from_poly({((INF, F(1)),): F(-1)})
                return C(Fraction(repr(v)))
            if isinstance(v, Fraction):
                return C(v)
            return x
        if not x.args or o in ("sym", "iter", "mu", "poly", "func", "cls", "module", "ext", "obj", "ref", "bound", "closure", "view", "extm"):
            if o == "poly":
                return self._repoly(x)
            return x
        a = [self._canon[k.nid] if isinstance(k, Node) else k for k in x.args]
        if o in ("add", "sub", "mul", "div"):
            if self._isnum(a[0]) and self._isnum(a[1]):
                return self._arith(o, a[0], a[1])
            return mk(o, *a)
        if o == "neg":
            return self._arith("mul", MINUS1, a[0])
        if o == "pow":
            return self.c_pow(a[0], a[1])
        if o == "sqrt":
            return self.from_poly(self.p_pow(self.to_poly(a[0]), F(1, 2)))
        if o == "cbrt":
            return self.from_poly(self.p_pow(self.to_poly(a[0]), F(1, 3)))
        if o == "exp":
            if a[0] is ZERO:
                return ONE
            if a[0].op == "gamma":
                return self._canon_of(mk("gamma", a[0].args[0], mk("exp", a[0].args[1]), mk("exp", a[0].args[2])))
            return mk("exp", a[0])
        if o in ("float",):
            return a[0]
        if o == "log":
            return self.c_log(a[0])
        if o == "conj":
            return self.c_conj(a[0])
        if o == "real":
            return self.c_real(a[0])
        if o == "imag":
            if self.is_real(a[0]):
                return ZERO
            return mk("imag", a[0])
        if o == "abs":
            return self.c_abs(a[0])
        if o in ("floor", "ceil", "trunc", "round"):
            return self.c_floor(o, a[0])
        if o == "floordiv":
            return self._canon_of(mk("floor", mk("div", a[0], a[1])))
        if o == "mod":
            return self.c_mod(a[0], a[1])
        if o == "sign":
            s = self.sign_of(a[0])
            if s in ("+", "0", "-"):
                return C({"+": 1, "0": 0, "-": -1}[s])
            return self.c_oddfun("sign", a[0])
        if o == "tanh":
            return self.c_oddfun("tanh", a[0])
        if o in ("sin", "sinh", "arctan", "arcsin"):
            return self.c_oddfun(o, a[0])
        if o in ("cos", "cosh"):
            p = self.to_poly(a[0])
            if p and min(p.items(), key=lambda t: _monokey(t[0]))[1] < 0:
                return mk(o, self.from_poly(self.p_scale(p, -1)))
            return mk(o, a[0])
        if o in ("lt", "le", "eq", "ne"):
            return self.c_cmp(o, a[0], a[1])
        if o in ("lt0", "le0", "eq0"):
            return self.c_cmp0(o, a[0])
        if o == "not":
            return self.c_not(a[0])
        if o in ("and", "or"):
            return self.c_bool(o, a)
        if o == "gamma":
            return self.c_gamma(*a)
        if o == "index":
            return self.c_index(a[0], a[1])
        if o == "slice":
            return mk("slice", *a)
        if o == "len":
            s = self.shape(a[0])
            if s:
                return s[0]
            return mk("len", a[0])
        if o in ("max2", "min2"):
            return self.c_minmax(o, a[0], a[1])
        if o in ("np.mean", "np.sum", "np.amax", "np.amin", "np.var", "np.std") and len(a) == 1:
            u = self._unpermuted(a[0])
            if u is not None:
                return self._canon_of(mk(o, u))
        if o == "np.mean":
            s = self.shape(a[0])
            if len(a) == 1 and s is not None and len(s) == 1:
                return self._canon_of(mk("div", mk("np.sum", a[0]), s[0]))
            return mk(o, *a)
        if o == "np.sum" and len(a) == 1:
            return self.c_sum(a[0])
        if o == "np.var" and len(a) == 1:
            d = mk("sub", a[0], mk("np.mean", a[0]))
            return self._canon_of(mk("np.mean", mk("pow", d, C(2))))
        if o == "np.std" and len(a) == 1:
            return self._canon_of(mk("sqrt", mk("np.var", a[0])))
        if o == "np.ptp" and len(a) == 1:
            return self._canon_of(mk("sub", mk("np.amax", a[0]), mk("np.amin", a[0])))
        if o == "np.diff" and len(a) == 1:
            s = self.shape(a[0])
            if s is not None and len(s) == 1:
                n = s[0]
                return self._canon_of(mk("sub", mk("index", a[0], mk("slice", ONE, NONE, NONE)),
                                         mk("index", a[0], mk("slice", NONE, MINUS1, NONE))))
            return mk(o, *a)
        if o in ("np.amax", "np.amin"):
            if a[0].op == "tuple" and len(a) == 1 and len(a[0].args) >= 1:
                r = a[0].args[0]
                for y in a[0].args[1:]:
                    r = mk("max2" if o == "np.amax" else "min2", r, y)
                return self._canon_of(r)
            return mk(o, *a)
        if o in ("np.all", "np.any") and len(a) == 1:
            if a[0] is TRUE or a[0] is FALSE:
                return a[0]
            if o == "np.any":
                return self._canon_of(mk("not", mk("np.all", mk("not", a[0]))))
            return mk(o, *a)
        if o == "nz":
            return mk("nz", a[0])
        if o == "np.arange":
            return self.c_arange(a)
        if o == "np.linspace":
            return mk(o, *a)
        if o == "fill":
            return self.c_fill(*a)
        if o == "sumover":
            it, lo, hi, e = a
            return self.c_sumover(it, lo, hi, e)
        if o == "lastval":
            it, lo, hi, e = a
            if it not in free_iters(e):
                return e
            return mk("lastval", it, lo, hi, e)
        if o == "flip":
            if a[0].op == "flip":
                return a[0].args[0]
            return mk("flip", a[0])
        if o == "np.sort":
            u = self._unpermuted(a[0]) if len(self.shape(a[0]) or ()) == 1 else None
            return mk("np.sort", a[0] if u is None else u, *a[1:])
        if o == "store":
            return self.c_store(*a)
        if o == "astype":
            return self.c_astype(*a)
        if o == "np.append":
            return mk("np.append", *a)
        if o == "int":
            return self.c_floor("trunc", a[0])
        if o in ("bool", "item"):
            sa = self.shape(a[0])
            if sa:  # the truth or the number of an array is the one of its only element
                e = a[0]
                for _ in sa:
                    e = self._canon_of(mk("index", e, ZERO))
                return e if o == "item" else self._canon_of(mk("bool", e))
            if o == "item":
                return a[0] if sa == () else mk("item", a[0])
        if o == "bool":
            if self.is_bool(a[0]):
                return a[0]
            if self._isnum(a[0]):
                return self._canon_of(mk("ne", a[0], ZERO))
            return mk("bool", a[0])
        if o == "ravel" and len(a) == 1:
            q = a[0].args[0] if a[0].op == "reshape" else a[0]
            s = self.shape(q)
            if s is not None and len(s) == 1:
                return q
            q = self._flat(a[0])
            if q is not None:
                return q
        if o == "tuple" or o == "list":
            return mk(o, *a)
        return self._rebuild(x)

    def _canon_of(self, n):
        return self.canon(n)

    def _repoly(self, x):
        return x

    def _isnum(self, a):
        if a.op in ("tuple", "list", "func", "cls", "module", "ext", "obj", "slice", "undef", "dict", "bound", "closure", "set", "dtypeof", "resulttype"):
            return False
        if a.op == "const":
            return isinstance(a.val, (bool, int, float, complex, Fraction))
        if a.op == "sym":
            return self.m(a, "kind", "num") not in ("str", "obj")
        return True

    # ---- helpers for operations
    def c_pow(self, b, e):
        if e.op == "const" and not isinstance(e.val, (str, complex)) and e.val is not None:
            ev = _num(e)
            p = self.to_poly(b)
            if b.op == "gamma" and ev.denominator == 1 and False:
                pass
            if len(p) == 1 and ev.denominator == 1:
                pass
            return self.from_poly(self.p_pow(p, ev))
        # x ** (negative infinity) etc.
        if b is ONE:
            return ONE
        q = self.to_poly(e)
        # pull out a constant part: x**(m-4) = x**m * x**-4
        c = q.get((), F(0))
        if c:
            rest = self.from_poly({m: v for m, v in q.items() if m})
            return self._canon_of(mk("mul", mk("pow", b, C(c)), mk("pow", b, rest)))
        if e.op == "gamma":
            return self._canon_of(mk("gamma", e.args[0], mk("pow", b, e.args[1]), mk("pow", b, e.args[2])))
        return mk("pow", b, e)

    def c_log(self, a):
        if a is ONE:
            return ZERO
        if a.op == "exp":
            return a.args[0]
        p = self.to_poly(a)
        if len(p) == 1:
            (m, c), = p.items()
            if m and c > 0:
                r = {}
                if c != 1:
                    r = self.p_add(r, self._logconst(c))
                for at, e in m:
                    if at.op == "exp":
                        r = self.p_add(r, self.p_scale(self.to_poly(at.args[0]), e))
                    else:
                        r = self.p_add(r, {((mk("log", at), F(1)),): e})
                return self.from_poly(r)
            if not m and c > 0:
                return self.from_poly(self._logconst(c))
        return mk("log", a)

    def _logconst(self, c):
        r = {}
        for v, s in ((c.numerator, 1), (c.denominator, -1)):
            k = 2
            while v > 1 and k <= 1000:
                while v % k == 0:
                    a = ((mk("log", C(k)), F(1)),)
                    r[a] = r.get(a, F(0)) + s
                    v //= k
                k += 1
            if v > 1:
                a = ((mk("log", C(v)), F(1)),)
                r[a] = r.get(a, F(0)) + s
        return {m: c for m, c in r.items() if c}

    def c_oddfun(self, f, a):
        if a is ZERO:
            return ZERO
        p = self.to_poly(a)
        if p and min(p.items(), key=lambda t: _monokey(t[0]))[1] < 0:
            return self._arith("mul", MINUS1, mk(f, self.from_poly(self.p_scale(p, -1))))
        return mk(f, a)

    def c_conj(self, a):
        if self.is_real(a):
            return a
        if a.op == "conj":
            return a.args[0]
        p = self.to_poly(a)
        if len(p) == 1 and len(list(p)[0]) == 1 and a is list(p)[0][0][0]:
            if a is IMAG:
                return self._arith("mul", MINUS1, IMAG)
            if a.op == "exp":
                return self._canon_of(mk("exp", mk("conj", a.args[0])))
            if a.op == "gamma":
                return self._canon_of(mk("gamma", a.args[0], mk("conj", a.args[1]), mk("conj", a.args[2])))
            if a.op == "flip":
                return self._canon_of(mk("flip", mk("conj", a.args[0])))
            if a.op == "index":
                return self._index_atom(mk("conj", a.args[0]), a.args[1], a, "conj")
            if a.op in ("np.sum",) and len(a.args) == 1:
                return self._canon_of(mk("np.sum", mk("conj", a.args[0])))
            if a.op == "sumover":
                return mk("sumover", *a.args[:3], self.canon(mk("conj", a.args[3])))
            return mk("conj", a)
        r = {}
        for m, c in p.items():
            t = {(): c}
            for at, e in m:
                ca = self.canon(mk("conj", at))
                t = self.p_mul(t, self.p_pow(self.to_poly(ca), e))
            r = self.p_add(r, t)
        return self.from_poly(r)

    def _index_atom(self, inner, idx, orig, f):
        # conj(x[i]) stays as conj(index) so that pairing with x[i] works
        return mk(f, orig)

    def c_real(self, a):
        if self.is_real(a):
            return a
        p = self.to_poly(a)
        if self.canon(mk("conj", a)) is a:
            return a
        # pull out real factors common to all terms
        if len(p) > 1:
            r = {}
            for m, c in p.items():
                one = self.from_poly({m: c})
                r = self.p_add(r, self.to_poly(self.c_real(one)))
            return self.from_poly(r)
        (m, c), = p.items()
        re = {a_: e for a_, e in m if self.is_real(a_)}
        im = {a_: e for a_, e in m if a_ not in re}
        if set(im) == {IMAG}:
            return ZERO
        if not re and c == 1:
            return mk("real", a)
        inner = self.from_poly({tuple(sorted(im.items(), key=lambda t: t[0].nid)): F(1)})
        out = {tuple(sorted(re.items(), key=lambda t: t[0].nid)): c}
        return self.from_poly(self.p_mul(out, self.to_poly(mk("real", inner))))

    def c_abs(self, a):
        if a.op == "gamma":
            return self._canon_of(mk("gamma", a.args[0], mk("abs", a.args[1]), mk("abs", a.args[2])))
        p = self.to_poly(a)
        if not p:
            return ZERO
        if self.is_real(a):
            s = self.sign_of(a)
            if s in ("+", "0+", "0"):
                return a
            if s in ("-", "0-"):
                return self._arith("mul", MINUS1, a)
        if len(p) > 1:
            lead = min(p.items(), key=lambda t: _monokey(t[0]))[1]
            if lead < 0:
                return mk("abs", self.from_poly(self.p_scale(p, -1)))
            return mk("abs", a)
        (m, c), = p.items()
        d = {}
        for at, e in m:
            if at is IMAG:
                continue
            if at.op == "exp":
                re = self.canon(mk("real", at.args[0]))
                if re is not ZERO:
                    ea = mk("exp", re)
                    d[ea] = d.get(ea, F(0)) + e
                continue
            if at.op == "abs" or self.is_nonneg(at):
                b = at
            elif at.op == "conj":
                b = mk("abs", at.args[0])
            elif at.op == "abs":
                b = at
            else:
                b = mk("abs", at)
            d[b] = d.get(b, F(0)) + e
        return self.from_poly(self.norm_mono(d, abs(c)))

    def is_int(self, n):
        """Integer-valued?"""
        if n.op == "const":
            v = n.val
            return isinstance(v, (bool, int)) or (isinstance(v, Fraction) and v.denominator == 1)
        if n.op == "sym":
            return bool(self.m(n, "int"))
        if n.op in ("iter", "len", "floor", "ceil", "trunc", "round", "first", "last", "np.argmax", "np.argmin",
                    "count", "np.count"):
            return True
        if n.op == "nz" or n.op == "np.argsort":
            return True
        if n.op == "index":
            return self.is_int(n.args[0])
        if n.op in ("max2", "min2"):
            return self.is_int(n.args[0]) and self.is_int(n.args[1])
        if n.op == "gamma":
            return self.is_int(n.args[1]) and self.is_int(n.args[2])
        if n.op == "poly":
            return all(c.denominator == 1 and all(e.denominator == 1 and e > 0 and self.is_int(a) for a, e in m)
                       for m, c in n.args[0])
        if n.op == "mod":
            return self.is_int(n.args[0]) and self.is_int(n.args[1])
        return self.is_bool(n)

    def whole(self, r):
        """The whole number a quotient of non-whole values has but for rounding, else None."""
        atoms = {}

        def atom(n):
            return mk("sym", "~%d" % atoms.setdefault(self.canon(n), len(atoms)))

        def outer(n):
            if n.op in ("add", "sub", "neg", "mul", "div"):
                return mk(n.op, *[(outer if n.op in ("add", "sub", "neg", "mul", "div") and a.op in ("mul", "div") or n.op in ("add", "sub", "neg") else inner)(a)
                                  for a in n.args])
            return inner(n)

        def inner(n):
            c = self.canon(n)
            return c if c.op == "const" or self.is_int(c) else atom(n)
        for q in (r, None):
            try:
                c = self.canon(r if q is not None else outer(r))
            except TooBig:
                continue
            if c.op != "const" and self.is_int(c):
                return c
        return None

    def c_floor(self, f, a):
        if self.is_int(a):
            return a
        if a.op in ("sym",) and self.m(a, "int"):
            return a
        p = self.to_poly(a)
        ip, rest = {}, {}
        for m, c in p.items():
            if m and c.denominator == 1 and self.is_int(self.from_poly({m: F(1)})):
                ip[m] = c
            else:
                rest[m] = c
        if ip and f != "round" and (f != "trunc" or self.is_nonneg(a)):
            r = self.c_floor("floor" if f == "trunc" else f, self.from_poly(rest))
            return self.from_poly(self.p_add(ip, self.to_poly(r)))
        c = None
        if not rest:
            return a
        if set(p) <= {()}:
            v = p.get((), F(0))
            import math
            if f == "floor":
                return C(math.floor(v))
            if f == "ceil":
                return C(math.ceil(v))
            if f == "trunc":
                return C(math.trunc(v))
            return C(round(v))
        if a.op in ("floor", "ceil", "round", "trunc"):
            return a
        if f == "trunc" and self.is_nonneg(a):
            f = "floor"
        if f in ("floor", "ceil") and () in p:
            k = p[()]
            ik = k.numerator // k.denominator
            if ik:
                q = dict(p)
                q[()] = k - ik
                if not q[()]:
                    del q[()]
                return self.from_poly(self.p_add({(): F(ik)}, self.to_poly(self.c_floor(f, self.from_poly(q)))))
        return mk(f, a)

    def c_mod(self, a, b):
        if b.op == "const" and isinstance(b.val, int) and not isinstance(b.val, bool) and b.val > 0 and self.is_int(a):
            q = {}
            for m, c in self.to_poly(a).items():
                c = c % b.val
                if c:
                    q[m] = c
            if set(q) <= {()}:
                return C(q.get((), F(0)))
            return mk("mod", self.from_poly(q), b)
        return mk("mod", a, b)

    def c_cmp(self, o, a, b):
        if self._isnum(a) and self._isnum(b):
            if NAN in (a, b):
                return TRUE if o == "ne" else FALSE
            if o == "ne":
                return self.c_not(self.c_cmp("eq", a, b))
            if INF in (a, b) or self._neginf(a) or self._neginf(b):
                r = self._cmp_inf(o, a, b)
                if r is not None:
                    return r
            # piecewise constant operand: compare branch-wise when it folds
            d = self._arith("sub", a, b)
            return self.c_cmp0({"lt": "lt0", "le": "le0", "eq": "eq0"}[o], d)
        if o == "ne":
            return self.c_not(self.c_cmp("eq", a, b))
        if o == "eq":
            if a is b:
                return TRUE
            if a.op == "const" and b.op == "const":
                return C(a.val == b.val)
            if a.op == "tuple" and b.op == "tuple":
                if len(a.args) != len(b.args):
                    return FALSE
                r = TRUE
                for x, y in zip(a.args, b.args):
                    r = self.canon(mk("and", r, mk("eq", x, y)))
                return r
            if b.nid < a.nid:
                a, b = b, a
        return mk(o, a, b)

    def _neginf(self, a):
        return a.op == "poly" and len(a.args[0]) == 1 and a.args[0][0][0] == ((INF, F(1)),) and a.args[0][0][1] < 0

    def _cmp_inf(self, o, a, b):
        if a is b:
            return {"lt": FALSE, "le": TRUE, "eq": TRUE}[o]
        fin = lambda n: self.is_finite(n)  # noqa: E731
        if a is INF and fin(b):
            return FALSE
        if b is INF and fin(a):
            return {"lt": TRUE, "le": TRUE, "eq": FALSE}[o]
        if self._neginf(a) and fin(b):
            return {"lt": TRUE, "le": TRUE, "eq": FALSE}[o]
        if self._neginf(b) and fin(a):
            return FALSE
        return None

    def is_finite(self, n):
        if n.op == "const":
            return True
        if n is INF or n is NAN:
            return False
        if n.op == "sym":
            return self.m(n, "finite", True)
        if n.op == "poly":
            return all(self.is_finite(a) for m, c in n.args[0] for a, e in m)
        if n.op == "gamma":
            return self.is_finite(n.args[1]) and self.is_finite(n.args[2])
        return True

    def c_cmp0(self, o, d):
        if d.op == "gamma" and all(x.op == "const" for x in d.args[1:]):
            return self._canon_of(mk("gamma", d.args[0], self.c_cmp0(o, d.args[1]), self.c_cmp0(o, d.args[2])))
        p = self.to_poly(d)
        if set(p) <= {()}:
            c = p.get((), F(0))
            return C({"lt0": c < 0, "le0": c <= 0, "eq0": c == 0}[o])
        if self.is_bool(d) and o == "eq0":
            return self.c_not(d)
        if o == "eq0":
            # q*m == 0 with m > 0
            lead = min(p.items(), key=lambda t: _monokey(t[0]))[1]
            d = self.from_poly(self.p_scale(p, 1 / lead))
            iv = self.interval(d)
            if (iv[0] is not None and (iv[0] > 0 or (iv[0] == 0 and iv[1]))) or \
                    (iv[2] is not None and (iv[2] < 0 or (iv[2] == 0 and iv[3]))):
                return FALSE
            ne = self.m(d, "ne")
            if ne and 0 in ne:
                return FALSE
            r = self._ne_fact(p)
            if r:
                return FALSE
            if self._sorted_twice(p):
                return TRUE
            return mk("eq0", d)
        # divide by positive content
        lead = abs(min(p.items(), key=lambda t: _monokey(t[0]))[1])
        q = self.p_scale(p, 1 / lead)
        # drop common strictly positive atoms
        try:
            l2, com, qq = self.primitive(q)
            if com and all(self.is_pos(a) for a, e in com):
                q = self.p_scale(qq, l2)
                q = self.p_scale(q, 1 / abs(min(q.items(), key=lambda t: _monokey(t[0]))[1]))
        except TooBig:
            pass
        d = self.from_poly(q)
        iv = self.interval(d)
        lo, los, hi, his = iv
        if o == "lt0":
            if hi is not None and (hi < 0 or (hi == 0 and his)):
                return TRUE
            if lo is not None and lo >= 0:
                return FALSE
        else:
            if hi is not None and hi <= 0:
                return TRUE
            if lo is not None and (lo > 0 or (lo == 0 and los)):
                return FALSE
        # for integer-valued differences use <= only
        if o == "lt0" and all(c.denominator == 1 for c in q.values()) and self.is_int(d):
            return self.c_cmp0("le0", self._arith("add", d, ONE))
        return mk(o, d)

    def _ne_fact(self, p):
        """sym - const != 0 known from the hypotheses."""
        syms = [m for m in p if m]
        if len(syms) == 1 and len(syms[0]) == 1 and syms[0][0][1] == 1:
            s = syms[0][0][0]
            c = -p.get((), F(0)) / p[syms[0]]
            ne = self.m(s, "ne")
            if ne and any(F(repr(v) if isinstance(v, float) else v) == c for v in ne):
                return True
        return False

    def c_not(self, a):
        if a is TRUE:
            return FALSE
        if a is FALSE:
            return TRUE
        if a.op == "not":
            return a.args[0]
        if a.op == "lt0":
            return self.c_cmp0("le0", self._arith("mul", MINUS1, a.args[0]))
        if a.op == "le0":
            return self.c_cmp0("lt0", self._arith("mul", MINUS1, a.args[0]))
        if a.op == "and":
            return self.c_bool("or", [self.c_not(x) for x in a.args])
        if a.op == "or":
            return self.c_bool("and", [self.c_not(x) for x in a.args])
        if a.op == "gamma":
            return self.c_gamma(a.args[0], self.c_not(a.args[1]), self.c_not(a.args[2]))
        return mk("not", a)

    def c_bool(self, o, args):
        unit, zero = (TRUE, FALSE) if o == "and" else (FALSE, TRUE)
        out = []
        for x in args:
            if x.op == o:
                out.extend(x.args)
            else:
                out.append(x)
        res = []
        for x in out:
            if x.op == "const" and not isinstance(x.val, bool):
                x = C(bool(x.val))
            if x is zero:
                return zero
            if x is unit or x in res:
                continue
            res.append(x)
        for x in res:
            if self.c_not(x) in res:
                return zero
        if not res:
            return unit
        if len(res) == 1:
            return res[0]
        res.sort(key=lambda n: n.nid)
        return mk(o, *res)

    def c_gamma(self, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b:
            return a
        if c.op == "not":
            return self.c_gamma(c.args[0], b, a)
        # order the condition canonically: prefer lt0/eq0 over le0 of the negation
        nc = self.c_not(c)
        if nc.op == "not":
            pass
        elif nc.nid < c.nid:
            c, a, b = nc, b, a
        a = self.assume(a, c, True)
        b = self.assume(b, c, False)
        if a is b:
            return a
        if self.is_bool(a) and self.is_bool(b):
            if a is TRUE:
                return self.c_bool("or", [c, b])
            if a is FALSE:
                return self.c_bool("and", [self.c_not(c), b])
            if b is FALSE:
                return self.c_bool("and", [c, a])
            if b is TRUE:
                return self.c_bool("or", [self.c_not(c), a])
        # x == k ? f(k) : f(x)
        if c.op == "eq0":
            s = self._solve_eq(c.args[0])
            if s is not None:
                x, v = s
                if self.canon(subst(b, {x: v})) is a:
                    return b
                if self.canon(subst(a, {x: v})) is not a:
                    a = self.canon(subst(a, {x: v}))
                    if a is b:
                        return a
        # |x|, max, min, clip idioms
        if c.op in ("lt0", "le0"):
            d = c.args[0]  # d<0 ? a : b
            if self._arith("sub", a, b) is d:
                return self.c_minmax("min2", a, b)
            if self._arith("sub", b, a) is d:
                return self.c_minmax("max2", a, b)
        return mk("gamma", c, a, b)

    def _solve_eq(self, d):
        """d == 0 with d = x - v for a symbol x: (x, v)."""
        p = self.to_poly(d)
        for m, c in p.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("sym",):
                x = m[0][0]
                rest = {k: -v / c for k, v in p.items() if k != m}
                v = self.from_poly(rest)
                if not any(y is x for y in walk(v)) and self.shape(x) == self.shape(v):
                    return x, v
        return None

    def assume(self, n, c, val):
        """Simplify n under the assumption that condition c is val."""
        if n.op == "gamma":
            cc = n.args[0]
            if cc is c:
                return self.assume(n.args[1] if val else n.args[2], c, val)
            if cc is self.c_not(c):
                return self.assume(n.args[2] if val else n.args[1], c, val)
            if cc.op in ("and", "or") and (c in cc.args or self.c_not(c) in cc.args):
                cv = C(val)
                nv = C(not val)
                args = [cv if x is c else nv if x is self.c_not(c) else x for x in cc.args]
                return self.c_gamma(self.c_bool(cc.op, args), n.args[1], n.args[2])
            a, b = self.assume(n.args[1], c, val), self.assume(n.args[2], c, val)
            if a is not n.args[1] or b is not n.args[2]:
                return self.c_gamma(cc, a, b)
        elif n.op == "tuple":
            t = [self.assume(x, c, val) if isinstance(x, Node) else x for x in n.args]
            if any(x is not y for x, y in zip(t, n.args)):
                return mk("tuple", *t)
        elif n is c:
            return C(val)
        elif n.op == "poly":
            at = {a for m, _ in n.args[0] for a, e in m if a.op == "gamma"}
            rep = {}
            for a in at:
                r = self.assume(a, c, val)
                if r is not a:
                    rep[a] = r
            if rep:
                return self.canon(subst(n, rep, shallow=True))
        return n

    def c_minmax(self, o, a, b):
        if a is b:
            return a
        d = self.c_cmp("le", a, b)
        if d is TRUE:
            return b if o == "max2" else a
        if d is FALSE:
            return a if o == "max2" else b
        if a is INF:
            return INF if o == "max2" else b
        if b is INF:
            return INF if o == "max2" else a
        if b.nid < a.nid:
            a, b = b, a
        return mk(o, a, b)

    def c_sum(self, a):
        s = self.shape(a)
        p = self.to_poly(a)
        if s is not None and len(s) == 1:
            r = {}
            for m, c in p.items():
                sc = {x: e for x, e in m if self.shape(x) == ()}
                ar = {x: e for x, e in m if x not in sc}
                if not ar:
                    t = self.to_poly(s[0])
                else:
                    inner = self.from_poly({tuple(sorted(ar.items(), key=lambda t: t[0].nid)): F(1)})
                    if inner.op == "tuple":
                        t = {}
                        for y in inner.args:
                            t = self.p_add(t, self.to_poly(y))
                    else:
                        t = {((mk("np.sum", inner), F(1)),): F(1)}
                t = self.p_mul(t, self.norm_mono(sc, c))
                r = self.p_add(r, t)
            return self.from_poly(r)
        if a.op in ("tuple", "list"):
            r = {}
            for y in a.args:
                if not self._isnum(y):
                    return mk("np.sum", a)
                r = self.p_add(r, self.to_poly(y))
            return self.from_poly(r)
        return mk("np.sum", a)

    def c_sumover(self, it, lo, hi, e):
        if it not in free_iters(e):
            return self._canon_of(mk("mul", mk("sub", hi, lo), e))
        v = self.vectorise(it, lo, hi, e)
        if v is not None:
            return self._canon_of(mk("np.sum", v))
        return mk("sumover", it, lo, hi, e)

    def vectorise(self, it, lo, hi, e):
        """Array whose element at position it (lo<=it<hi) is e, if e is element-wise in arrays indexed by it+k."""
        if it not in free_iters(e):
            return None
        memo = {}

        def go(n):
            if n.nid in memo:
                return memo[n.nid]
            memo[n.nid] = r = go1(n)
            return r

        def go1(n):
            if it not in free_iters(n):
                s = self.shape(n)
                if s == ():
                    return n
                return None
            if n is it:
                return self.canon(mk("np.arange", lo, hi, ONE))
            if n.op == "index" and it not in free_iters(n.args[0]):
                i = n.args[1]
                off = self._arith("sub", i, it) if self._isnum(i) else None
                s = self.shape(n.args[0])
                if off is not None and it not in free_iters(off) and s is not None and len(s) == 1:
                    return self.canon(mk("index", n.args[0], mk("slice", self._arith("add", lo, off),
                                                                self._arith("add", hi, off), NONE)))
                return None
            if n.op == "poly":
                r = {}
                for m, c in n.args[0]:
                    t = {(): c}
                    for a, ex in m:
                        v = go(a)
                        if v is None:
                            return None
                        t = self.p_mul(t, self.p_pow(self.to_poly(v), ex))
                    r = self.p_add(r, t)
                return self.from_poly(r)
            if n.op in EW1 or n.op in EW2 or n.op == "gamma":
                ks = []
                for a in n.args:
                    if isinstance(a, Node):
                        v = go(a)
                        if v is None:
                            return None
                        ks.append(v)
                    else:
                        ks.append(a)
                return self.canon(mk(n.op, *ks))
            return None

        try:
            return go(e)
        except TooBig:
            return None

    def c_fill(self, init, it, lo, hi, e):
        v = None
        if init.op != "list" and not self.holds_dt(init, e):
            return mk("fill", init, it, lo, hi, e)
        s = self.shape(init)
        if init.op == "list" and not init.args:
            if lo is ZERO:
                v = self.vectorise(it, lo, hi, e)
                if v is not None:
                    return v
        elif s is not None and len(s) >= 1:
            ln = s[0]
            if len(s) == 1:
                v = self.vectorise(it, lo, hi, e)
                if v is None and it not in free_iters(e) and self.shape(e) == ():
                    if lo is ZERO and hi is ln:
                        return mk("full", (ln,), e)
            if v is not None:
                if lo is ZERO and hi is ln:
                    return v
                return self.canon(mk("store", init, mk("slice", lo, hi, NONE), v))
        return mk("fill", init, it, lo, hi, e)

    def c_arange(self, a):
        a = list(a)
        if len(a) == 1:
            a = [ZERO, a[0]]
        if len(a) == 2:
            a.append(ONE)
        return mk("np.arange", *a[:3])

    def c_astype(self, x, dt):
        d = self.dtype(x)
        t = dt.val if dt.op == "const" else None
        if t == d and d is not None:
            return x
        if t == "float" and d in ("int", "bool"):
            return x if d == "int" and self.shape(x) == () else mk("astype", x, dt)
        if x.op in ("zeros", "empty") and dt.op == "const":
            return self._canon_of(mk(x.op, x.args[0], dt))
        if t == "complex" and d in ("int", "float") and x.op not in ("store", "fill", "fillg", "full"):
            return x
        if t == "int" and self.is_int(x):
            return x
        return mk("astype", x, dt)

    def holds_dt(self, base, v):
        """Storing v into an array like base changes no value."""
        b = self.dtype(base)
        if b is None or b == "complex":
            return b == "complex" or base.op in ("sym", "list", "mu")
        d = self.dtype(v)
        if d is None:
            return b == "float" and not self.has_complex(v)
        order = ("bool", "int", "float", "complex")
        if b not in order or d not in order:
            return b == d
        return order.index(d) <= order.index(b)

    def has_complex(self, v):
        return any(x.op == "const" and isinstance(x.args[1], complex) for x in walk(v))

    def c_store(self, base, idx, v):
        s = self.shape(base)
        nidx = self.norm_index(idx, s)
        if not self.holds_dt(base, v) and base.op != "tuple":
            return mk("store", base, nidx, v)
        if s is not None and len(s) == 1:
            n = s[0]
            if nidx.op == "slice":
                lo, hi, st = nidx.args
                if st is NONE and lo is ZERO and hi is n:
                    sv = self.shape(v)
                    if sv == ():
                        return mk("full", (n,), v)
                    if sv == s:
                        return v
            # masked store of a masked right-hand side -> element-wise choice
            if self.is_bool(nidx) and self.shape(nidx) == s:
                w = self.unmask(v, nidx)
                if w is not None:
                    return self._canon_of(mk("gamma", nidx, w, base))
            if nidx.op == "nz" and self.shape(nidx.args[0]) == s:
                w = self.unmask(v, nidx.args[0], nidx)
                if w is not None:
                    return self._canon_of(mk("gamma", nidx.args[0], w, base))
        # overwrite of the same place
        if base.op == "store" and base.args[1] is nidx:
            base = base.args[0]
        if nidx.op == "const" and s is not None and base.op == "tuple":
            k = nidx.val
            if isinstance(k, int) and 0 <= k < len(base.args):
                return mk("tuple", *(base.args[:k] + (v,) + base.args[k + 1:]))
        return mk("store", base, nidx, v)

    def unmask(self, v, mask, alt=None):
        """v is computed from arrays indexed by mask: the same expression without the mask."""
        if self.shape(v) == () :
            return v
        memo = {}

        def go(n):
            if n.nid in memo:
                return memo[n.nid]
            memo[n.nid] = r = go1(n)
            return r

        def go1(n):
            if self.shape(n) == ():
                return n
            if n.op == "index" and (n.args[1] is mask or (alt is not None and n.args[1] is alt) or
                                    (n.args[1].op == "nz" and n.args[1].args[0] is mask)):
                return n.args[0]
            if n.op == "poly":
                r = {}
                for m, c in n.args[0]:
                    t = {(): c}
                    for a, ex in m:
                        w = go(a)
                        if w is None:
                            return None
                        t = self.p_mul(t, self.p_pow(self.to_poly(w), ex))
                    r = self.p_add(r, t)
                return self.from_poly(r)
            if n.op in EW1 or n.op in EW2 or n.op == "gamma":
                ks = []
                for a in n.args:
                    if isinstance(a, Node):
                        w = go(a)
                        if w is None:
                            return None
                        ks.append(w)
                    else:
                        ks.append(a)
                return self.canon(mk(n.op, *ks))
            if n.op == "zeros" or n.op == "full":
                return ZERO if n.op == "zeros" else n.args[1]
            return None

        try:
            return go(v)
        except TooBig:
            return None

    # ------------------------------------------------------------------ indexing
    def norm_index(self, idx, shape):
        """Resolve negative and default bounds of an index against a known length."""
        if idx.op == "tuple":
            if len(idx.args) == 1:
                return self.norm_index(idx.args[0], shape)
            if shape is not None and not any(x.op in ("const",) and x.val in (None, "...") for x in idx.args):
                return mk("tuple", *[self.norm_index(x, shape[k:] if k < len(shape) else None)
                                     for k, x in enumerate(idx.args)])
            return idx
        n = shape[0] if shape else None
        if idx.op == "slice":
            lo, hi, st = idx.args
            if st is not NONE and st is not ONE:
                if st is MINUS1 and lo is NONE and hi is NONE:
                    return mk("slice", NONE, NONE, MINUS1)
                return idx
            lo = ZERO if lo is NONE else lo
            if n is not None:
                if hi is NONE:
                    hi = n
                if self.is_neg(lo):
                    lo = self._arith("add", n, lo)
                if self.is_neg(hi):
                    hi = self._arith("add", n, hi)
                # clamp when decidable
                if self.c_cmp("le", n, hi) is TRUE:
                    hi = n
            return mk("slice", lo, hi, NONE)
        if n is not None and self._isnum(idx) and self.shape(idx) == () and self.is_neg(idx):
            return self._arith("add", n, idx)
        if idx.op == "tuple" and len(idx.args) == 1:
            return idx.args[0]
        return idx

    def is_neg(self, n):
        if n.op == "const":
            return isinstance(n.val, (int, Fraction)) and n.val < 0
        iv = self.interval(n)
        return iv[2] is not None and iv[2] < 0

    def _flat(self, e):
        """The vector of an element-wise expression in vectors that were all reshaped to one and the same shape."""
        shapes = set()

        def atom(a):
            if a.op == "reshape":
                s = self.shape(a.args[0])
                shapes.add(self.shape(a))
                return a.args[0] if s is not None and len(s) == 1 and None not in shapes else None
            if self.shape(a) == ():
                return a
            if a.op == "poly":
                return self._map_atoms(a, atom)
            if a.op in EW1 and all(isinstance(x, Node) for x in a.args):
                ks = [atom(x) for x in a.args]
                return None if any(k is None for k in ks) else self._canon_of(mk(a.op, *ks))
            return None
        r = atom(e)
        return r if len(shapes) == 1 else None

    def _map_atoms(self, a, atom):
        r = {}
        for m, c in a.args[0]:
            t = {(): c}
            for x, k in m:
                y = atom(x)
                if y is None:
                    return None
                t = self.p_mul(t, self.p_pow(self.to_poly(y), k))
            r = self.p_add(r, t)
        return self.from_poly(r)

    # ---- permutations: x[argsort(k)] with k as long as x
    def _unorder(self, e, o, same_length):
        """e with every array atom x[o] replaced by x, or None; scalar atoms stay."""
        def atom(a):
            if a.op == "index" and a.args[1] is o:
                return a.args[0] if not same_length or self._as_long(a.args[0], o.args[0]) else None
            if self.shape(a) == ():
                return a
            return part(a)

        def part(a):
            if a.op == "poly":
                return self._map_atoms(a, atom)
            if a.op in EW1 and all(isinstance(x, Node) for x in a.args):
                ks = [atom(x) for x in a.args]
                return None if any(k is None for k in ks) else self._canon_of(mk(a.op, *ks))
            return None
        return atom(e)

    def _sorted_twice(self, p):
        """x[argsort(x)] - sort(x), or x[argsort(-x)] - flip(sort(x))."""
        if len(p) != 2 or sum(p.values()) != 0:
            return False
        at = [m[0][0] for m in p if len(m) == 1 and m[0][1] == 1]
        if len(at) != 2:
            return False
        for a, b in (at, at[::-1]):
            if a.op == "index" and isinstance(a.args[1], Node) and a.args[1].op == "np.argsort":
                x, k = a.args[0], a.args[1].args[0]
                if b.op == "np.sort" and b.args[0] is x and k is x:
                    return True
                if b.op == "flip" and b.args[0].op == "np.sort" and b.args[0].args[0] is x and k is self.canon(mk("neg", x)):
                    return True
        return False

    def _as_long(self, x, k):
        s, q = self.shape(x), self.shape(k)
        if s is not None and q is not None:
            return len(s) == len(q) == 1 and s[0] is q[0]
        if x is k:
            return True
        if k.op == "poly":  # element-wise in x and scalars only
            ar = {a for m, c in k.args[0] for a, e in m if self.shape(a) != ()}
            return ar == {x}
        return False

    def _order_in(self, e):
        """The first argsort that selects in an element-wise expression."""
        todo = [e]
        while todo:
            a = todo.pop()
            if a.op == "index" and isinstance(a.args[1], Node) and a.args[1].op == "np.argsort":
                return a.args[1]
            if a.op == "poly":
                todo += [x for m, c in a.args[0] for x, k in m]
            elif a.op in EW1:
                todo += a.kids()
        return None

    def _unpermuted(self, e):
        """The elements of e in another order, if e is a permutation of something; else None."""
        o = self._order_in(e)
        return self._unorder(e, o, True) if o is not None else None

    def _in_order(self, o, i):
        """Is i = argsort of something that argsort o has put in order already?"""
        if i.op != "np.argsort" or o.op != "np.argsort" or i.args[1].val != "stable":
            return False
        u = self._unorder(i.args[0], o, False)
        return u is not None and u is o.args[0] and len(self.shape(u) or (0,)) == 1

    def c_index(self, b, i):
        if b.op == "index" and i.op == "np.argsort" and isinstance(b.args[1], Node) and self._in_order(b.args[1], i):
            return b
        if b.op in ("tuple", "list"):
            if i.op == "const" and isinstance(i.val, int):
                k = int(i.val)
                if -len(b.args) <= k < len(b.args):
                    return b.args[k]
            if i.op == "slice" and all(x is NONE or (x.op == "const" and isinstance(x.val, int)) for x in i.args):
                s = slice(*[None if x is NONE else x.val for x in i.args])
                return mk(b.op, *b.args[s])
            return mk("index", b, i)
        if i.op == "gamma" and self.shape(i) == ():
            return self._canon_of(mk("gamma", i.args[0], mk("index", b, i.args[1]), mk("index", b, i.args[2])))
        s = self.shape(b)
        i = self.norm_index(i, s)
        if b.op in ("zeros", "full") and s is not None and len(s) >= 2 and i.op == "const" and isinstance(i.val, int):
            return self._canon_of(mk(b.op, s[1:], *b.args[1:]))
        if b.op == "nz":
            if i is ZERO:
                return self.c_first("first", b.args[0])
            if i is MINUS1:
                return self.c_first("last", b.args[0])
            p = self.to_poly(i)
            if s is not None and len(s) == 1 and self._arith("sub", s[0], ONE) is i:
                return self.c_first("last", b.args[0])
        if i.op == "slice":
            lo, hi, st = i.args
            if st is NONE and s is not None and lo is ZERO and len(s) >= 1 and hi is s[0]:
                return b
            if st is MINUS1 and lo is NONE and hi is NONE:
                return self._canon_of(mk("flip", b))
        if i.op == "tuple" and s is not None and len(i.args) == len(s) == 2:
            # a full slice in one axis of an (n,1)/(1,n) view and similar
            pass
        # element-wise: push the index to the atoms
        sh_i = self.shape(i) if i.op not in ("slice", "tuple") else None
        scalar = i.op not in ("slice", "tuple") and sh_i == ()
        pushable = s is not None and len(s) == 1 and (scalar or i.op == "slice" or (sh_i is not None and len(sh_i) == 1))
        if pushable and b.op == "poly":
            r = {}
            for m, c in b.args[0]:
                t = {(): c}
                for a, e in m:
                    sa = self.shape(a)
                    if sa is None:
                        return mk("index", b, i)
                    if len(sa) == 1 and sa[0] is not ONE:
                        a2 = self._canon_of(mk("index", a, i))
                    elif len(sa) == 0:
                        a2 = a
                    else:
                        return mk("index", b, i)
                    t = self.p_mul(t, self.p_pow(self.to_poly(a2), e))
                r = self.p_add(r, t)
            return self.from_poly(r)
        if pushable and (b.op in EW1 or b.op in EW2 or b.op == "gamma"):
            ks = []
            for a in b.args:
                if isinstance(a, Node):
                    sa = self.shape(a)
                    if sa is None:
                        return mk("index", b, i)
                    ks.append(mk("index", a, i) if len(sa) else a)
                else:
                    ks.append(a)
            return self._canon_of(mk(b.op, *ks))
        if b.op == "gamma" and self.shape(b.args[0]) == ():
            return self._canon_of(mk("gamma", b.args[0], mk("index", b.args[1], i), mk("index", b.args[2], i)))
        if b.op == "zeros" and scalar and s is not None and len(s) == 1:
            return ZERO
        if b.op == "full" and scalar and s is not None and len(s) == 1:
            return b.args[1]
        if b.op == "zeros" and i.op == "slice" and s is not None and len(s) == 1:
            ns = self._shape_index(s, i)
            if ns is not None:
                return mk("zeros", ns, b.args[1])
        if b.op == "np.arange" and scalar:
            return self._canon_of(mk("add", b.args[0], mk("mul", i, b.args[2])))
        if b.op == "np.arange" and i.op == "slice" and s is not None:
            lo, hi, st = i.args
            if st is NONE:
                return self._canon_of(mk("np.arange", mk("add", b.args[0], mk("mul", lo, b.args[2])),
                                         mk("add", b.args[0], mk("mul", hi, b.args[2])), b.args[2]))
        if b.op == "flip" and scalar:
            s0 = self.shape(b.args[0])
            if s0 and len(s0) == 1:
                return self._canon_of(mk("index", b.args[0], mk("sub", mk("sub", s0[0], ONE), i)))
        if b.op == "flip" and i.op == "slice" and i.args[2] is NONE:
            s0 = self.shape(b.args[0])
            if s0 and len(s0) == 1:
                lo, hi, _ = i.args
                if hi is not NONE:
                    return self._canon_of(mk("flip", mk("index", b.args[0], mk("slice", mk("sub", s0[0], hi),
                                                                           mk("sub", s0[0], lo), NONE))))
        if b.op == "fill" and b.args[0].op == "list" and not b.args[0].args and b.args[4].op in ("slice", "tuple") and \
                b.args[2] is ZERO and i.op not in ("slice", "tuple") and not self.maybe_neg(i):
            return self.canon(subst(b.args[4], {b.args[1]: i}))  # a list of slices or tuples
        if b.op == "fill" and scalar:
            init, it, lo, hi, e = b.args
            inside = self.c_bool("and", [self.c_cmp("le", lo, i), self.c_cmp("lt", i, hi)])
            if inside is TRUE:
                return self.canon(subst(e, {it: i}))
            if inside is FALSE:
                return self._canon_of(mk("index", init, i))
            # inside a scope where i is an iterator running over the same range
            if i.op == "iter":
                return mk("index", b, i)
        if b.op == "store":
            base, j, v = b.args
            r = self.read_store(base, j, v, i, s)
            if r is not None:
                return r
        if b.op == "full" and i.op == "slice" and s is not None and len(s) == 1:
            ns = self._shape_index(s, i)
            if ns is not None:
                return mk("full", ns, b.args[1])
        # compose slices
        if b.op == "index" and b.args[1].op == "slice" and b.args[1].args[2] is NONE:
            lo = b.args[1].args[0]
            if scalar and not self.maybe_neg(i):
                return self._canon_of(mk("index", b.args[0], mk("add", lo, i)))
            if i.op == "slice" and i.args[2] is NONE and i.args[1] is not NONE and not self.maybe_neg(i.args[0]) and \
                    not self.maybe_neg(i.args[1]):
                return self._canon_of(mk("index", b.args[0], mk("slice", mk("add", lo, i.args[0]),
                                                                mk("add", lo, i.args[1]), NONE)))
        if b.op == "index" and b.args[1].op == "tuple" and scalar:
            # x[:, k][i] -> x[i, k]
            t = b.args[1].args
            if len(t) == 2 and t[0].op == "slice" and t[0].args[0] in (ZERO, NONE) and t[0].args[2] is NONE and \
                    t[1].op != "slice":
                return self._canon_of(mk("index", b.args[0], mk("tuple", i, t[1])))
            if len(t) == 2 and t[1].op == "slice" and t[1].args[0] in (ZERO, NONE) and t[0].op != "slice":
                return self._canon_of(mk("index", b.args[0], mk("tuple", t[0], i)))
        if b.op == "index" and scalar and s is not None and len(s) == 1 and b.args[1].op not in ("slice", "tuple"):
            # X[r][c] -> X[r, c] for a matrix
            s0 = self.shape(b.args[0])
            if s0 is not None and len(s0) == 2 and self.shape(b.args[1]) == ():
                return self._canon_of(mk("index", b.args[0], mk("tuple", b.args[1], i)))
        if i.op == "tuple" and len(i.args) == 2 and b.op == "poly" and s is not None and len(s) == 2:
            pass
        if b.op == "index" and s is not None and len(s) == 1 and scalar:
            # a[perm][i] -> a[perm[i]]
            p = b.args[1]
            sp = self.shape(p) if p.op not in ("slice", "tuple") else None
            if sp is not None and len(sp) == 1 and not self.is_bool(p):
                return self._canon_of(mk("index", b.args[0], mk("index", p, i)))
        return mk("index", b, i)

    def maybe_neg(self, n):
        if n is NONE:
            return False
        if n.op == "const":
            return n.val < 0
        if n.op in ("iter", "first", "last", "len"):
            return False
        iv = self.interval(n)
        if iv[0] is not None and iv[0] >= 0:
            return False
        # sums of indices minus one etc. are taken at face value
        return True

    def read_store(self, base, j, v, i, s):
        sj = self.shape(j) if j.op not in ("slice", "tuple") else None
        si = self.shape(i) if i.op not in ("slice", "tuple") else None
        if sj == () and si == ():
            e = self.c_cmp("eq", i, j)
            if e is TRUE:
                return v
            if e is FALSE:
                return self._canon_of(mk("index", base, i))
            return None
        if j.op == "tuple" and i.op == "tuple" and len(i.args) == len(j.args):
            if i is j:
                return v
            # column store, element read
            conds = []
            vidx = []
            for a, b in zip(i.args, j.args):
                if b.op == "slice":
                    if a.op == "slice":
                        if a is not b and not (a.args[0] is b.args[0]):
                            return None
                        vidx.append(FULLSLICE)
                    else:
                        if b.args[0] is not ZERO or b.args[2] is not NONE:
                            return None
                        vidx.append(a)
                elif a.op == "slice":
                    return None
                else:
                    conds.append(self.c_cmp("eq", a, b))
            c = self.c_bool("and", conds)
            if c is TRUE:
                sv = self.shape(v)
                if sv == () or not vidx:
                    return v
                if len(vidx) == 1:
                    return v if vidx[0] is FULLSLICE else self._canon_of(mk("index", v, vidx[0]))
                return None
            if c is FALSE:
                return self._canon_of(mk("index", base, i))
            return None
        if j.op == "slice" and j.args[2] is NONE and s is not None and len(s) == 1:
            lo, hi, _ = j.args
            if hi is NONE:
                return None
            sv = self.shape(v)
            if si == ():
                inside = self.c_bool("and", [self.c_cmp("le", lo, i), self.c_cmp("lt", i, hi)])
                if inside is TRUE:
                    return v if sv == () else self._canon_of(mk("index", v, mk("sub", i, lo)))
                if inside is FALSE:
                    return self._canon_of(mk("index", base, i))
                return None
            if i.op == "slice" and i.args[2] is NONE and i.args[1] is not NONE:
                l2, h2, _ = i.args
                if self.c_cmp("le", lo, l2) is TRUE and self.c_cmp("le", h2, hi) is TRUE:
                    if sv == ():
                        return mk("full", (self._arith("sub", h2, l2),), v)
                    return self._canon_of(mk("index", v, mk("slice", mk("sub", l2, lo), mk("sub", h2, lo), NONE)))
                if self.c_cmp("le", h2, lo) is TRUE or self.c_cmp("le", hi, l2) is TRUE:
                    return self._canon_of(mk("index", base, i))
        return None

    def c_first(self, which, c):
        """first/last index where condition c holds; last(x<v) etc. are kept with the condition."""
        if c.op in ("and",):
            return mk(which, c)
        return mk(which, c)

    # ------------------------------------------------------------------ shapes
    def shape(self, n):
        if n.nid in self._shape:
            return self._shape[n.nid]
        self._shape[n.nid] = None
        stack = [n]
        r = self._shape1(n)
        if r is not None:
            r = tuple(self.canon(d) for d in r)
        self._shape[n.nid] = r
        return r

    def _bcast(self, shapes):
        out = ()
        for s in shapes:
            if s is None:
                return None
            if len(s) > len(out):
                s, out = out, s
            res = list(out)
            off = len(out) - len(s)
            for k, d in enumerate(s):
                e = out[off + k]
                if e is d:
                    continue
                if e is ONE:
                    res[off + k] = d
                elif d is ONE:
                    pass
                else:
                    dd = self.canon(mk("sub", d, e))
                    if dd is not ZERO and dd.op != "const":
                        # unequal in form, not provably different: keep the first
                        pass
            out = tuple(res)
        return out

    def _shape1(self, n):
        o = n.op
        a = n.args
        if o == "const" or o in ("pi", "nan", "inf", "iter"):
            return ()
        if o == "sym":
            s = self.m(n, "shape")
            if s is None:
                return None
            return s
        if o == "poly":
            return self._bcast([self.shape(x) for m, c in a[0] for x, e in m])
        if o in ("max2", "min2") or o in EW2 or o in EW1 or o == "neg" or o == "gamma":
            if o == "gamma":
                s1, s2 = self.shape(a[1]), self.shape(a[2])
                sc = self.shape(a[0])
                if sc is None:
                    return None
                if len(sc) == 0:
                    if s1 is not None and s1 == s2:
                        return s1
                    return None
                return self._bcast([sc, s1, s2])
            if o in ("eq", "ne", "lt", "le") and any(not self._isnum(x) for x in a):
                return ()
            if o == "astype":
                return self.shape(a[0])
            return self._bcast([self.shape(x) for x in a if isinstance(x, Node)])
        if o in ("welchlen", "sizeof"):
            return ()
        if o in ("len", "first", "last", "sumover", "count", "int", "bool", "isinstance", "is", "in", "hasattr"):
            return ()
        if o in ("zeros", "full", "empty"):
            return a[0]
        if o == "index":
            if a[0].op in ("tuple", "list") and a[1].op == "const" and isinstance(a[1].val, int):
                k = a[1].val
                if -len(a[0].args) <= k < len(a[0].args):
                    return self.shape(a[0].args[k])
            if a[0].op == "welch" and a[1].op == "const" and a[1].val in (0, 1):
                s = self.shape(a[0].args[0])
                return (mk("welchlen", a[0]),) if s is not None and len(s) == 1 else None
            s = self.shape(a[0])
            if s is None:
                return None
            return self._shape_index(s, a[1])
        if o == "store":
            return self.shape(a[0])
        if o == "fill":
            s = self.shape(a[0])
            if a[0].op == "list" and not a[0].args:
                return (mk("sub", a[3], a[2]),)
            return s
        if o == "lastval":
            return self.shape(a[3])
        if o == "np.arange":
            st, en, sp = (a + (ONE,))[:3] if len(a) > 1 else (ZERO, a[0], ONE)
            return (mk("max2", mk("ceil", mk("div", mk("sub", en, st), sp)), ZERO),) if not self._ar_pos(st, en, sp) \
                else (mk("ceil", mk("div", mk("sub", en, st), sp)),)
        if o == "np.linspace":
            return (a[2],) if len(a) > 2 and isinstance(a[2], Node) else (C(50),)
        if o in ("fft", "ifft"):
            return self.shape(a[0]) if a[1] is NONE else ((a[1],) if self.shape(a[0]) is not None and
                                                          len(self.shape(a[0])) == 1 else None)
        if o == "rfft" or o == "irfft":
            s = self.shape(a[0])
            if s is not None and len(s) == 1:
                if o == "rfft":
                    n0 = s[0] if a[1] is NONE else a[1]
                    return (mk("add", mk("floor", mk("div", n0, C(2))), ONE),)
                return (a[1],) if a[1] is not NONE else (mk("mul", C(2), mk("sub", s[0], ONE)),)
            return None
        if o in ("flip", "np.sort", "np.cumsum", "conj", "copy", "np.argsort", "stablesort", "hilbert",
                 "np.nan_to_num", "detrend", "np.unwrap"):
            return self.shape(a[0])
        if o == "nz":
            return (mk("count", a[0]),)
        if o in REDUCE:
            return () if len([x for x in a if isinstance(x, Node)]) == 1 else None
        if o == "np.interp":
            return self.shape(a[0])
        if o == "np.diff":
            s = self.shape(a[0])
            return (mk("sub", s[0], ONE),) if s is not None and len(s) == 1 and len(a) == 1 else None
        if o == "reshape":
            return a[1] if isinstance(a[1], tuple) else None
        if o == "transpose":
            s = self.shape(a[0])
            return s[::-1] if s is not None else None
        if o in ("np.append", "np.concatenate"):
            if o == "np.append":
                parts = [a[0], a[1]]
            elif a[0].op in ("tuple", "list"):
                parts = list(a[0].args)
            else:
                return None
            tot = ZERO
            for x in parts:
                s = self.shape(x)
                if s is None:
                    return None
                d = ONE
                for y in s:
                    d = mk("mul", d, y)
                tot = mk("add", tot, d)
            return (tot,)
        if o == "filtermap":
            s = self.shape(a[0])
            if a[0].op == "list" and not a[0].args:
                s = (ZERO,)
            if s is None or len(s) != 1:
                return None
            return (mk("add", s[0], mk("sumover", a[1], a[2], a[3], mk("gamma", a[4], ONE, ZERO))),)
        if o == "fillg":
            return self.shape(a[0])
        if o in ("simpson", "trapezoid"):
            s = self.shape(a[0])
            return () if s is not None and len(s) == 1 else None
        if o == "rec":
            s1, s2 = self.shape(a[6][a[0]]), self.shape(a[7][a[0]])
            return s1 if s1 is not None and s1 == s2 else None
        if o == "stack":
            return None
        if o in ("tuple", "list"):
            if not a:
                return (ZERO,)
            ss = [self.shape(x) for x in a]
            if all(s == () for s in ss):
                return (C(len(a)),)
            if all(s is not None for s in ss) and all(s == ss[0] for s in ss):
                return (C(len(a)),) + ss[0]
            return None
        if o == "np.polyfit":
            return (self.canon(mk("add", a[2], ONE)),)
        if o == "random":
            return a[1] if isinstance(a[1], tuple) else None
        if o == "np.delete":
            return None
        if o == "np.full":
            return None
        if o.startswith("pkg:"):
            f = self.pkg_shapes.get(o[4:]) if hasattr(self, "pkg_shapes") else None
            return f(self, n) if f else None
        if o == "ext:exponweib.ppf" or o == "ext:rayleigh.ppf":
            return ()
        return None

    def _ar_pos(self, st, en, sp):
        return self.c_cmp("le", self.canon(st), self.canon(en)) is TRUE or (
            st is ZERO and sp is ONE)

    def _shape_index(self, s, i):
        if not s:
            return None
        if i.op == "tuple":
            out = []
            k = 0
            items = list(i.args)
            nreal = len([x for x in items if not (x.op == "const" and x.val in (None, "..."))])
            for x in items:
                if x is NONE:
                    out.append(ONE)
                    continue
                if x.op == "const" and x.val == "...":
                    for _ in range(len(s) - nreal):
                        out.append(s[k])
                        k += 1
                    continue
                if k >= len(s):
                    return None
                r = self._shape_index((s[k],), x)
                if r is None:
                    return None
                out.extend(r)
                k += 1
            out.extend(s[k:])
            return tuple(out)
        if i is NONE:
            return (ONE,) + s
        if i.op == "slice":
            i = self.norm_index(i, s)
            lo, hi, st = i.args
            if st is MINUS1 and lo is NONE and hi is NONE:
                return s
            if st is not NONE:
                if st.op == "const" and isinstance(st.val, int) and st.val > 0:
                    h = s[0] if hi is NONE else hi
                    l0 = ZERO if lo is NONE else lo
                    return (mk("ceil", mk("div", mk("sub", h, l0), st)),) + s[1:]
                return None
            if hi is NONE:
                return None
            n = s[0]
            le = self.c_cmp("le", lo, hi)
            if le is FALSE:
                return (ZERO,) + s[1:]
            if self.c_cmp("le", hi, n) is TRUE or self._index_like(hi):
                return (mk("sub", hi, lo),) + s[1:]
            return (mk("sub", mk("min2", hi, n), lo),) + s[1:]
        si = self.shape(i)
        if si is None:
            return None
        if self.is_bool(i):
            if len(si) == len(s):
                return (mk("count", i),)
            return None
        return si + s[1:]

    def _index_like(self, n):
        """first(c)+k / last(c)+1 style bounds stay within the axis by construction."""
        p = self.to_poly(n)
        return any(m and m[0][0].op in ("first", "last", "count") for m in p)

    # ------------------------------------------------------------------ element types
    def is_bool(self, n):
        if n.op == "const":
            return isinstance(n.val, bool)
        if n.op in BOOL_OPS:
            return True
        if n.op == "gamma":
            return self.is_bool(n.args[1]) and self.is_bool(n.args[2])
        if n.op == "sym":
            return self.m(n, "dtype") == "bool"
        if n.op == "index":
            return self.is_bool(n.args[0])
        if n.op in ("bool", "isinstance", "hasattr"):
            return True
        return False

    def is_real(self, n):
        d = self.dtype(n)
        return d in ("int", "float", "bool")

    _ORD = {"bool": 0, "int": 1, "float": 2, "complex": 3}

    def join_dt(self, ds):
        if any(d is None for d in ds):
            return None
        return max(ds, key=lambda d: self._ORD.get(d, 9)) if ds else "int"

    def dtype(self, n):
        if n.nid in self._dtype:
            return self._dtype[n.nid]
        self._dtype[n.nid] = None
        r = self._dtype1(n)
        self._dtype[n.nid] = r
        return r

    def _dtype1(self, n):
        o, a = n.op, n.args
        if o == "const":
            v = n.val
            if isinstance(v, bool):
                return "bool"
            if isinstance(v, int):
                return "int"
            if isinstance(v, (float, Fraction)):
                return "float"
            if isinstance(v, complex):
                return "complex"
            return None
        if o in ("pi", "nan", "inf"):
            return "float"
        if o == "iter":
            return "int"
        if o == "sym":
            d = self.m(n, "dtype")
            if d is None and self.m(n, "int"):
                return "int"
            return d
        if o == "poly":
            # imaginary powers cancelling are handled through IMAG's own type
            ds = [self.dtype(x) for m, c in a[0] for x, e in m]
            if any(c.denominator != 1 for m, c in a[0]) or any(e.denominator != 1 or e < 0 for m, c in a[0]
                                                              for x, e in m):
                ds.append("float")
            ds.append("int")
            return self.join_dt(ds)
        if o == "exp" and self.dtype(a[0]) == "complex":
            return "complex"
        if self.is_bool(n):
            return "bool"
        if o in ("abs",):
            d = self.dtype(a[0])
            return "float" if d == "complex" else d
        if o in ("real", "imag", "angle"):
            d = self.dtype(a[0])
            return "float" if d == "complex" else d
        if o in ("floor", "ceil", "round", "trunc"):
            return "float" if self.dtype(a[0]) != "int" else "int"
        if o in ("int", "len", "nz", "np.argsort", "first", "last", "count", "np.argmax", "np.argmin"):
            return "int"
        if o == "float":
            return "float"
        if o == "np.arange":
            return self.join_dt([self.dtype(x) for x in a])
        if o in ("max2", "min2", "add", "sub", "mul", "mod", "floordiv"):
            return self.join_dt([self.dtype(x) for x in a])
        if o in ("div", "pow"):
            d = self.join_dt([self.dtype(x) for x in a])
            return "float" if d in ("int", "bool") else d
        if o == "gamma":
            return self.join_dt([self.dtype(x) for x in a[1:]])
        if o in ("fft", "ifft", "rfft", "hilbert"):
            return "complex"
        if o == "irfft":
            return "float"
        if o == "random":
            return "float"
        if o == "astype":
            return a[1].val if a[1].op == "const" and isinstance(a[1].val, str) else None
        if o in ("zeros", "full", "empty"):
            if o == "full":
                return self.dtype(a[1])
            return self.dtypeval(a[1])
        if o == "store":
            return self.dtype(a[0])
        if o == "fill":
            if a[0].op == "list":
                return self.dtype(a[4])
            return self.dtype(a[0])
        if o == "lastval":
            return self.dtype(a[3])
        if o == "sumover":
            return self.dtype(a[3])
        if o == "index":
            b = a[0]
            if b.op in ("tuple", "list"):
                return self.join_dt([self.dtype(x) for x in b.args]) if b.args else None
            return self.dtype(b)
        if o in ("tuple", "list"):
            return self.join_dt([self.dtype(x) for x in a]) if a else "float"
        if o in ("flip", "np.sort", "np.cumsum", "np.amax", "np.amin", "np.sum", "copy", "reshape", "transpose",
                 "conj", "np.diff", "np.prod"):
            d = self.dtype(a[0])
            return "int" if d == "bool" and o in ("np.sum", "np.cumsum") else d
        if o in ("np.mean", "np.var", "np.std", "np.median"):
            d = self.dtype(a[0])
            return "float" if d in ("int", "bool") else (d if o == "np.mean" else "float")
        if o in ("np.append",):
            return self.join_dt([self.dtype(a[0]), self.dtype(a[1])])
        if o in ("np.concatenate",):
            return self.dtype(a[0])
        if o == "np.delete":
            return self.dtype(a[0])
        if o == "np.interp":
            return "float"
        if o in ("np.polyfit", "simpson", "trapezoid", "np.linspace"):
            return "float"
        if o in ("sqrt", "log", "sin", "cos", "tan", "tanh", "arctan", "sinh", "cosh", "log10", "sign", "exp",
                 "arcsin", "arccos", "expm1", "log1p", "log2"):
            d = self.dtype(a[0])
            if o == "sign":
                return d
            return "float" if d in ("int", "bool") else d
        if o in ("gammainc", "gammaf", "spacing"):
            return "float"
        if o == "filtermap":
            return self.join_dt([self.dtype(a[0]), self.dtype(a[5])])
        if o.startswith("ext:") and o.endswith(".ppf"):
            return "float"
        if o.startswith("pkg:"):
            f = self.pkg_dtypes.get(o[4:]) if hasattr(self, "pkg_dtypes") else None
            return f(self, n) if callable(f) else f
        return None

    def dtypeval(self, d):
        """Element type named by a dtype argument."""
        if d is NONE:
            return "float"
        if d.op == "const" and isinstance(d.val, str):
            return {"float64": "float", "complex128": "complex", "int64": "int", "float": "float",
                    "complex": "complex", "int": "int", "bool": "bool", "float32": "float", "complex64": "complex",
                    "int32": "int", "double": "float"}.get(d.val)
        if d.op == "dtypeof":
            return self.dtype(d.args[0])
        if d.op == "resulttype":
            ds = []
            for x in d.args:
                if x.op == "const" and isinstance(x.val, str):
                    ds.append(self.dtypeval(x))
                elif x.op in ("dtypeof", "resulttype"):
                    ds.append(self.dtypeval(x))
                else:
                    ds.append(self.dtype(x))
            return self.join_dt(ds)
        return None

    # ------------------------------------------------------------------ intervals and signs
    def bounds(self, n):
        """(lo, lo_strict, hi, hi_strict) with None for unbounded."""
        o = n.op
        if o == "const":
            v = n.val
            if isinstance(v, (bool, int, Fraction)):
                return (F(v), False, F(v), False)
            return (None, False, None, False)
        if o == "sym":
            return (_fr(self.m(n, "lo")), self.m(n, "lo_strict", False), _fr(self.m(n, "hi")),
                    self.m(n, "hi_strict", False))
        if o == "pi":
            return (F(3), True, F(4), True)
        if o in ("iter", "len", "first", "last", "count"):
            return (F(0), False, None, False)
        if o == "abs":
            s = self.sign_fact(n.args[0])
            return (F(0), s == "nz", None, False)
        if o == "exp":
            if self.is_real(n.args[0]):
                iv = self.interval(n.args[0])
                return (F(0), True, F(1) if iv[2] is not None and iv[2] <= 0 else None, False)
            return (None, False, None, False)
        if o == "inf":
            return (F(10) ** 400, True, None, False)
        if o == "tanh":
            s = self.sign_of(n.args[0])
            if s == "+":
                return (F(0), True, F(1), True)
            return (F(-1), True, F(1), True)
        if o in ("sin", "cos", "sign"):
            return (F(-1), False, F(1), False)
        if o in ("max2", "min2"):
            a, b = self.interval(n.args[0]), self.interval(n.args[1])
            if o == "max2":
                lo = [x for x in (a, b) if x[0] is not None]
                l = max(lo, key=lambda t: (t[0], t[1])) if lo else (None, False)
                h = (max(a[2], b[2]), False) if a[2] is not None and b[2] is not None else (None, False)
                return (l[0], l[1], h[0], h[1])
            hi = [x for x in (a, b) if x[2] is not None]
            h = min(hi, key=lambda t: t[2]) if hi else None
            l = (min(a[0], b[0]), False) if a[0] is not None and b[0] is not None else (None, False)
            if a[0] == 0 and b[0] == 0 and a[1] and b[1]:
                l = (F(0), True)
            return (l[0], l[1], h[2] if h else None, False)
        if o == "floor":
            iv = self.interval(n.args[0])
            import math
            return (F(math.floor(iv[0])) if iv[0] is not None else None, False, iv[2], False)
        if o in ("round", "trunc"):
            iv = self.interval(n.args[0])
            import math
            return (F(math.floor(iv[0])) if iv[0] is not None else None, False,
                    F(math.ceil(iv[2])) if iv[2] is not None else None, False)
        if o == "ceil":
            iv = self.interval(n.args[0])
            import math
            lo = None
            if iv[0] is not None:
                lo = F(math.ceil(iv[0])) if not (iv[1] and iv[0].denominator == 1) else iv[0] + 1
            return (lo, False, F(math.ceil(iv[2])) if iv[2] is not None else None, False)
        if o == "mod":
            if n.args[1].op == "const" and isinstance(n.args[1].val, int) and n.args[1].val > 0:
                return (F(0), False, F(n.args[1].val) - (1 if self.is_int(n.args[0]) else 0), False)
        if o == "gamma":
            a, b = self.interval(n.args[1]), self.interval(n.args[2])
            lo = min(a[0], b[0]) if a[0] is not None and b[0] is not None else None
            ls = False
            if lo is not None:
                ls = all(x[1] for x in (a, b) if x[0] == lo)
            hi = max(a[2], b[2]) if a[2] is not None and b[2] is not None else None
            hs = False
            if hi is not None:
                hs = all(x[3] for x in (a, b) if x[2] == hi)
            return (lo, ls, hi, hs)
        if o == "index":
            b = n.args[0]
            if b.op == "sym":
                return self.bounds(b)
            if b.op in ("nz", "np.argsort"):
                return (F(0), False, None, False)
            if b.op in ("abs", "exp"):
                return self.bounds(b)
        if o == "np.sum":
            iv = self.interval(n.args[0])
            if iv[0] is not None and iv[0] >= 0:
                return (F(0), iv[1] or iv[0] > 0, None, False)
        if o in ("np.amax", "np.amin", "np.mean", "np.sort", "flip"):
            return self.interval(n.args[0])
        if o == "log" and n.args[0].op == "const":
            v = _num(n.args[0])
            if v > 1:
                return (F(0), True, None, False)
            if 0 < v < 1:
                return (None, False, F(0), True)
        if o == "gammaf":
            iv = self.interval(n.args[0])
            if iv[0] is not None and iv[0] > 0:
                return (F(0), True, None, False)
        if o == "real" or o == "imag":
            return (None, False, None, False)
        if o == "fill" or o == "store":
            pass
        if o == "pow":
            if self.is_pos(n.args[0]):
                return (F(0), True, None, False)
        if o == "zeros":
            return (F(0), False, F(0), False)
        if o == "np.arange":
            l = self.interval(n.args[0])
            return (l[0], l[1], None, False)
        if o.startswith("pkg:") and hasattr(self, "pkg_bounds"):
            r = self.pkg_bounds.get(o[4:])
            if r:
                return r
        return (None, False, None, False)

    def interval(self, n):
        if n.op != "poly":
            return self.bounds(n)
        lo, ls, hi, hs = F(0), False, F(0), False
        anyl = anyh = False
        for m, c in n.args[0]:
            a = self._mono_iv(m, c)
            if lo is not None:
                if a[0] is None:
                    lo = None
                else:
                    lo += a[0]
                    ls = ls or a[1]
            if hi is not None:
                if a[2] is None:
                    hi = None
                else:
                    hi += a[2]
                    hs = hs or a[3]
            if lo is None and hi is None:
                break
        return (lo, ls if lo is not None else False, hi, hs if hi is not None else False)

    def _mono_iv(self, m, c):
        cur = (F(1), False, F(1), False)
        for a, e in m:
            b = self.bounds(a)
            # square of a real atom
            if e.denominator == 1 and e % 2 == 0 and (b[0] is None or b[0] < 0):
                if not self.is_real(a):
                    return (None, False, None, False)
                b = (F(0), False, None, False)
            elif e == 1:
                pass
            elif b[0] is not None and b[0] >= 0:
                if e > 0:
                    if b[0] == 0 or b[0] == 1:
                        lo = b[0]
                    else:
                        lo = b[0] ** int(e) if e.denominator == 1 and abs(b[0]) < 10 ** 12 else F(0)
                    hi = b[2] ** int(e) if b[2] is not None and e.denominator == 1 and abs(b[2]) < 10 ** 12 else (
                        F(1) if b[2] == 1 else None)
                    b = (lo, b[1] if lo == b[0] else False, hi, False)
                else:
                    if b[0] > 0 or b[1]:
                        hi = None
                        if b[0] > 0 and e.denominator == 1 and b[0] < 10 ** 12:
                            hi = b[0] ** int(e)
                        elif b[0] == 1:
                            hi = F(1)
                        b = (F(0), True, hi, False)
                    else:
                        b = (F(0), False, None, False)
            elif e.denominator != 1 and e.denominator % 2 == 0:
                b = (F(0), False, None, False)
            else:
                return (None, False, None, False)
            cur = _ivmul(cur, b)
            if cur[0] is None and cur[2] is None:
                return cur
        if c >= 0:
            return (None if cur[0] is None else cur[0] * c, cur[1], None if cur[2] is None else cur[2] * c, cur[3])
        return (None if cur[2] is None else cur[2] * c, cur[3], None if cur[0] is None else cur[0] * c, cur[1])

    def sign_fact(self, n):
        return self.m(n, "sign")

    def sign_of(self, n):
        """'+', '0+', '0', '0-', '-' or None."""
        if not self.is_real(n):
            return None
        lo, ls, hi, hs = self.interval(n)
        if lo is not None and hi is not None and lo == hi == 0:
            return "0"
        if lo is not None and (lo > 0 or (lo == 0 and ls)):
            return "+"
        if hi is not None and (hi < 0 or (hi == 0 and hs)):
            return "-"
        if lo is not None and lo >= 0:
            return "0+"
        if hi is not None and hi <= 0:
            return "0-"
        return None

    def is_pos(self, n):
        lo, ls, _, _ = self.interval(n)
        return lo is not None and (lo > 0 or (lo == 0 and ls))

    def is_nonneg(self, n):
        lo, ls, _, _ = self.interval(n)
        return lo is not None and lo >= 0

    # ------------------------------------------------------------------ decisions
    def decide(self, cond, pc=()):
        """True / False / None for a condition under the path condition."""
        c = self.canon(cond)
        if c.op == "const":
            if isinstance(c.val, (bool, int, float, Fraction)):
                return bool(c.val)
            if c.val is None:
                return False
            if isinstance(c.val, str):
                return bool(c.val)
        if c.op in ("tuple", "list"):
            return len(c.args) > 0
        facts = pc if not self.assumed else tuple(pc) + tuple(self.assumed)
        if any(f.op == "and" for f in facts):
            flat = []
            for f in facts:
                flat.append(f)
                if f.op == "and":
                    flat.extend(g for g in f.args)
            facts = tuple(flat)
        return self._decide(c, facts)

    def _decide(self, c, facts):
        if c.op == "const":
            return bool(c.val)
        for f in facts:
            if f is c:
                return True
        nc = self.c_not(c)
        for f in facts:
            if f is nc:
                return False
        if c.op in ("and", "or"):
            rs = [self._decide(x, facts) for x in c.args]
            if c.op == "and":
                if any(r is False for r in rs):
                    return False
                if all(r is True for r in rs):
                    return True
            else:
                if any(r is True for r in rs):
                    return True
                if all(r is False for r in rs):
                    return False
            return None
        if c.op == "gamma":
            r = self._decide(c.args[0], facts)
            if r is not None:
                return self._decide(c.args[1] if r else c.args[2], facts)
            r1, r2 = self._decide(c.args[1], facts), self._decide(c.args[2], facts)
            return r1 if r1 == r2 else None
        if c.op in ("lt0", "le0", "eq0"):
            for f in facts:
                r = self._implied(c, f)
                if r is not None:
                    return r
        return None

    def _implied(self, c, f):
        """Does fact f (true) settle c?"""
        if f.op == "and":
            for g in f.args:
                r = True if g is c else self._implied(c, g)
                if r is not None:
                    return r
            return None
        if f.op not in ("lt0", "le0", "eq0"):
            return None
        d = c.args[0]
        e = f.args[0]
        try:
            if f.op == "eq0":
                # d = k*e + const
                for s in (1, -1):
                    r = self._arith("sub", d, e) if s == 1 else self._arith("add", d, e)
                    if r.op == "const":
                        v = _num(r)
                        return {"lt0": v < 0, "le0": v <= 0, "eq0": v == 0}[c.op]
                return None
            r = self._arith("sub", d, e)
            if r.op == "const":
                v = _num(r)  # d = e + v, e < 0 or e <= 0
                if c.op == "lt0" and (v < 0 or (v == 0 and f.op == "lt0")):
                    return True
                if c.op == "le0" and v <= 0:
                    return True
                if c.op == "eq0" and (v < 0 or (v == 0 and f.op == "lt0")):
                    return False
            r = self._arith("add", d, e)
            if r.op == "const":
                v = _num(r)  # d = v - e, -e > 0
                if c.op == "le0" and (v > 0 or (v == 0 and f.op == "lt0")):
                    return False
                if c.op == "lt0" and v >= 0:
                    return False
                if c.op == "eq0" and (v > 0 or (v == 0 and f.op == "lt0")):
                    return False
        except (TooBig, ZeroDivisionError):
            pass
        return None


def _monokey(m):
    return (sum(1 for _ in m), tuple((a.nid, e) for a, e in m))


def _num(n):
    v = n.val
    if isinstance(v, float):
        return F(repr(v))
    return F(v)


def _fr(v):
    if v is None:
        return None
    if isinstance(v, float):
        return F(repr(v))
    return F(v)


def _const_pow(c, e):
    """c**e = cf * product of const atoms with fractional exponents."""
    if e.denominator == 1:
        return c ** int(e), {}
    neg = c < 0
    if neg:
        if e.denominator == 2:
            # sqrt(-c) = i sqrt(c): avoid
            return None, None
        return None, None
    cf = F(1)
    atoms = {}
    for v, s in ((c.numerator, 1), (c.denominator, -1)):
        k = 2
        fac = {}
        while v > 1 and k <= 2000:
            while v % k == 0:
                fac[k] = fac.get(k, 0) + 1
                v //= k
            k += 1
            if k * k > v and v > 1:
                fac[v] = fac.get(v, 0) + 1
                v = 1
        if v > 1:
            fac[v] = fac.get(v, 0) + 1
        for b, cnt in fac.items():
            x = e * cnt * s
            ip = x.numerator // x.denominator
            cf *= F(b) ** ip
            x -= ip
            if x:
                a = C(b)
                atoms[a] = atoms.get(a, F(0)) + x
    return cf, atoms


def _ivmul(a, b):
    """Interval product with strictness, None = unbounded."""
    if a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] >= 0:
        lo = a[0] * b[0]
        if lo == 0:
            # strict only if both factors are strictly positive
            ls = (a[0] > 0 or a[1]) and (b[0] > 0 or b[1])
        else:
            ls = a[1] or b[1]
        if a[2] is not None and b[2] is not None:
            hi = a[2] * b[2]
            hs = a[3] or b[3]
        else:
            hi, hs = None, False
        return (lo, ls, hi, hs)
    if None not in (a[0], a[2], b[0], b[2]):
        vs = [a[0] * b[0], a[0] * b[2], a[2] * b[0], a[2] * b[2]]
        return (min(vs), False, max(vs), False)
    # sign-only cases
    if a[0] is not None and a[0] >= 0 and b[2] is not None and b[2] <= 0:
        return (None, False, F(0), (a[0] > 0 or a[1]) and (b[2] < 0 or b[3]))
    if b[0] is not None and b[0] >= 0 and a[2] is not None and a[2] <= 0:
        return (None, False, F(0), (b[0] > 0 or b[1]) and (a[2] < 0 or a[3]))
    return (None, False, None, False)


def subst(n, rep, shallow=False):
    """Replace nodes (by identity) in n, respecting binders."""
    memo = {}

    def go(x, rep_):
        key = x.nid if rep_ is rep else (x.nid, id(rep_))
        if key in memo:
            return memo[key]
        if x in rep_:
            memo[key] = rep_[x]
            return rep_[x]
        if not x.args or x.op in ("const", "sym", "iter", "mu"):
            memo[key] = x
            return x
        if x.op == "poly":
            r = None
            changed = False
            for m, c in x.args[0]:
                t = C(c)
                for a, e in m:
                    b = go(a, rep_)
                    if b is not a:
                        changed = True
                    t = mk("mul", t, mk("pow", b, C(e)) if e != 1 else b)
                r = t if r is None else mk("add", r, t)
            memo[key] = r if changed else x
            return memo[key]
        from .ir import BINDERS, SCOPED
        if x.op in BINDERS:
            it = x.args[BINDERS[x.op][0]]
            inner = rep_
            if it in rep_:
                inner = {k: v for k, v in rep_.items() if k is not it}
            sc = SCOPED[x.op]
            args = []
            for j, a in enumerate(x.args):
                if j == BINDERS[x.op][0]:
                    args.append(a)
                elif isinstance(a, Node):
                    args.append(go(a, inner) if j in sc else go(a, rep_))
                else:
                    args.append(a)
            r = mk(x.op, *args)
            memo[key] = r
            return r
        args = []
        ch = False
        for a in x.args:
            b = go_arg(a, rep_)
            if b is not a:
                ch = True
            args.append(b)
        r = mk(x.op, *args) if ch else x
        memo[key] = r
        return r

    def go_arg(a, rep_):
        if isinstance(a, Node):
            return go(a, rep_)
        if isinstance(a, tuple):
            t = tuple(go_arg(y, rep_) for y in a)
            return t if any(p is not q for p, q in zip(t, a)) else a
        return a

    import sys
    old = sys.getrecursionlimit()
    if old < 20000:
        sys.setrecursionlimit(20000)
    return go(n, rep)
