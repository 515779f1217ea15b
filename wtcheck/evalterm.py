"""Random interpretation of value graphs.

A term extracted from the source is a mathematical expression over declared symbols.  This module gives the value of
such an expression under a *valuation* of its symbols (small grids, chosen with ties, zeros and integer types),
so that two terms that are not syntactically equal can be separated - or not (cf. Gulwani & Necula, "Global value
numbering using random interpretation").  The analysed program itself is never imported or executed; only the
arithmetic meaning of the primitive operators (numpy's) is used.
"""
from __future__ import annotations

import hashlib
import importlib
import math
import os
import warnings
from fractions import Fraction

import numpy as np

from .ir import Node, free_iters, mk, show

warnings.filterwarnings("ignore")


class Undecided(Exception):
    """The term contains something that has no interpretation here."""


class Fails(Exception):
    """Evaluating the expression is an error (index out of range, incompatible shapes, ...)."""


NPDT = {"float": np.float64, "int": np.int64, "bool": np.bool_, "complex": np.complex128, "float32": np.float32,
        "int32": np.int32, "complex64": np.complex64, "float16": np.float16, "int16": np.int16, "int8": np.int8,
        "object": np.float64}

U1 = {"sqrt": np.sqrt, "exp": np.exp, "log": np.log, "log10": np.log10, "log2": np.log2, "sin": np.sin, "cos": np.cos,
      "tan": np.tan, "arcsin": np.arcsin, "arccos": np.arccos, "arctan": np.arctan, "sinh": np.sinh, "cosh": np.cosh,
      "tanh": np.tanh, "abs": np.abs, "floor": np.floor, "ceil": np.ceil, "round": np.round, "trunc": np.trunc,
      "sign": np.sign, "conj": np.conj, "isnan": np.isnan, "isinf": np.isinf, "isfinite": np.isfinite,
      "expm1": np.expm1, "log1p": np.log1p, "cbrt": np.cbrt, "imag": np.imag, "real": np.real, "angle": np.angle,
      "spacing": np.spacing, "radians": np.radians, "degrees": np.degrees, "csqrt": np.emath.sqrt}
B2 = {"lt": np.less, "le": np.less_equal, "eq": np.equal, "ne": np.not_equal, "hypot": np.hypot,
      "arctan2": np.arctan2, "max2": np.maximum, "min2": np.minimum}
RED = {"np.sum": np.sum, "np.mean": np.mean, "np.amax": np.max, "np.amin": np.min, "np.std": np.std, "np.var": np.var,
       "np.prod": np.prod, "np.all": np.all, "np.any": np.any, "np.median": np.median, "np.argmax": np.argmax,
       "np.argmin": np.argmin, "np.nanmax": np.nanmax, "np.nanmin": np.nanmin, "np.nanmean": np.nanmean,
       "np.nansum": np.nansum, "np.ptp": np.ptp, "np.count": np.count_nonzero, "np.nanstd": np.nanstd,
       "np.nanvar": np.nanvar}


def num(v):
    """Python/numpy value of a constant."""
    if isinstance(v, Fraction):
        return v.numerator / v.denominator
    return v


def intlike(x):
    a = np.asarray(x)
    if a.dtype.kind in "iub":
        return a
    if a.dtype.kind == "f":
        r = np.round(a)
        if a.size and not np.all(np.isfinite(a)):
            raise Fails("non-finite index")
        if not np.all(np.abs(a - r) < 1e-6):
            raise Fails("non-integer index")
        return r.astype(np.int64)
    if a.dtype.kind == "c":
        raise Fails("index type")
    raise Undecided("index type")


class Poison:
    """A value whose computation failed; an error only where it is used."""

    def __init__(self, ex):
        self.ex = ex


class Ev:
    LIMIT = 400000
    SNAP = 1e-9  # values this close to an integer are integers
    CLOSE = 1e-13  # relative difference below which compared values are equal

    def __init__(self, vals, interp=None, meta=None):
        self.vals = vals
        self.interp = interp or {}
        self.memo = {}
        self.steps = 0
        self.env = {}
        self.env_ver = 0

    # -------------------------------------------------------------- entry
    def __call__(self, n):
        with np.errstate(all="ignore"):
            return self.ev(n)

    def holds(self, conds):
        for c in conds:
            v = self(c)
            if not bool(np.all(v)):
                return False
        return True

    def key(self, n):
        f = free_iters(n)
        if not f:
            return (n.nid,)
        out = [n.nid]
        for x in sorted(f, key=lambda q: q.nid):
            e = self.env.get(x)
            if e is None:
                raise Undecided("unbound %s" % show(x))
            out.append((x.nid, e[1]))
        return tuple(out)

    def ev(self, n):
        k = self.key(n)
        r = self.memo.get(k, self)
        if r is not self:
            if isinstance(r, Exception):
                raise r
            return r
        self.steps += 1
        if self.steps > self.LIMIT:
            raise Undecided("too large")
        try:
            r = self.ev1(n)
        except (Undecided, Fails) as e:
            self.memo[k] = e
            raise
        except RecursionError:
            raise Undecided("recursion")
        except (IndexError, ValueError, TypeError, ZeroDivisionError, OverflowError, AttributeError, KeyError,
                np.linalg.LinAlgError) as e:
            m = str(e)
            # a failure of the evaluator itself is no statement about the analysed code
            e2 = (Undecided if "'Node'" in m or "n_" in m and "argument" in m else Fails)("%s: %s" % (type(e).__name__, m))
            self.memo[k] = e2
            raise e2
        self.memo[k] = r
        return r

    def bind(self, x, v):
        self.env_ver += 1
        tag = v if isinstance(v, (int, np.integer)) else ("v", self.env_ver)
        old = self.env.get(x)
        self.env[x] = (v, tag)
        return old

    def unbind(self, x, old):
        if old is None:
            self.env.pop(x, None)
        else:
            self.env[x] = old

    # -------------------------------------------------------------- nodes
    def ev1(self, n):
        o, a = n.op, n.args
        if o == "const":
            v = a[1]
            return num(v)
        if o == "sym":
            if a[0] not in self.vals:
                raise Undecided("symbol " + str(a[0]))
            return self.vals[a[0]]
        if o == "pi":
            return math.pi
        if o == "inf":
            return math.inf
        if o == "nan":
            return math.nan
        if o in ("iter", "mu"):
            if n not in self.env:
                raise Undecided("unbound")
            v = self.env[n][0]
            if isinstance(v, Poison):
                raise v.ex
            return v
        if o == "undef":
            raise Fails("undefined value")
        m = getattr(self, "n_" + o.replace(".", "_"), None)
        if m is not None:
            return m(n, *a)
        if o in U1:
            return self.u1(o, a)
        if o in B2 and len(a) == 2:
            x, y = self.ev(a[0]), self.ev(a[1])
            return self.b2(o, x, y)
        if o in RED:
            return self.red(o, a)
        if o.startswith("pkg:"):
            return self.pkg(n)
        if o.startswith("ext:"):
            return self.ext(n)
        raise Undecided("operator " + o)

    def u1(self, o, a):
        x = self.ev(a[0])
        if len(a) != 1:
            raise Undecided(o)
        if isinstance(x, (str, tuple, list, dict)) or x is None:
            if isinstance(x, (list, tuple)):
                x = np.asarray(x)
            else:
                raise Fails("type")
        return U1[o](x)

    def b2(self, o, x, y):
        if isinstance(x, type) or isinstance(y, type):
            x, y = [NPDT.get(q) if isinstance(q, str) else q for q in (x, y)]
            if o not in ("eq", "ne") or x is None or y is None:
                raise Undecided("comparison of element types")
            return (np.dtype(x) == np.dtype(y)) == (o == "eq")
        if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
            if o == "eq":
                return x == y if type(x) is type(y) else False
            if o == "ne":
                return not (x == y if type(x) is type(y) else False)
            raise Fails("comparison")
        if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)) and o in ("eq", "ne"):
            r = len(x) == len(y) and all(bool(np.all(np.equal(p, q))) for p, q in zip(x, y))
            return r if o == "eq" else not r
        if o in ("eq", "ne", "le", "lt"):
            # ties up to rounding count as ties
            xa, ya = np.asarray(x), np.asarray(y)
            if xa.dtype.kind in "fc" or ya.dtype.kind in "fc":
                with np.errstate(all="ignore"):
                    close = (np.abs(xa - ya) <= self.CLOSE * np.maximum(np.abs(xa), np.abs(ya))) & np.isfinite(xa) & np.isfinite(ya)
                if o == "eq":
                    return (xa == ya) | close
                if o == "ne":
                    return ~((xa == ya) | close)
                if o == "le":
                    return (xa <= ya) | close
                return (xa < ya) & ~close
        return B2[o](x, y)

    def red(self, o, a):
        x = self.ev(a[0])
        if isinstance(x, (tuple, list)):
            x = np.asarray(x)
        kw = {}
        if len(a) > 1:
            ax = self.ev(a[1])
            if ax is not None:
                kw["axis"] = tuple(int(q) for q in ax) if isinstance(ax, tuple) else int(ax)
        if len(a) > 2:
            kw["ddof"] = int(self.ev(a[2]))
        return RED[o](x, **kw)

    # -------------------------------------------------------------- arithmetic
    def _ar(self, f, x, y):
        for v in (x, y):
            if v is None or isinstance(v, (str, dict)):
                raise Fails("arithmetic on %s" % type(v).__name__)
        if isinstance(x, (list, tuple)):
            x = np.asarray(x)
        if isinstance(y, (list, tuple)):
            y = np.asarray(y)
        if isinstance(x, bool):
            x = int(x)
        if isinstance(y, bool):
            y = int(y)
        return f(x, y)

    def n_add(self, n, *a):
        r = self.ev(a[0])
        for x in a[1:]:
            y = self.ev(x)
            if isinstance(r, str) and isinstance(y, str):
                r = r + y
                continue
            if isinstance(r, tuple) and isinstance(y, tuple):
                r = r + y
                continue
            r = self._ar(np.add, r, y)
        return r

    def n_sub(self, n, x, y):
        return self._ar(np.subtract, self.ev(x), self.ev(y))

    def n_mul(self, n, *a):
        r = self.ev(a[0])
        for x in a[1:]:
            y = self.ev(x)
            r = self._ar(np.multiply, r, y)
        return r

    def n_div(self, n, x, y):
        return self._ar(np.divide, self.ev(x), self.ev(y))

    def n_neg(self, n, x):
        return self._ar(np.subtract, 0, self.ev(x))

    def n_pow(self, n, x, y):
        b, e = self.ev(x), self.ev(y)

        def f(b, e):
            if np.asarray(b).dtype.kind in "iub" and np.asarray(e).dtype.kind in "iub":
                if np.any(np.asarray(e) < 0):
                    if np.ndim(b) or np.ndim(e):
                        raise Fails("integers to negative integer powers")
                    return np.power(float(b), e)
            return np.power(b, e)
        return self._ar(f, b, e)

    def n_mod(self, n, x, y):
        x = self.ev(x)
        if isinstance(x, str):
            raise Undecided("string format")
        return self._ar(np.mod, x, self.ev(y))

    def n_floordiv(self, n, x, y):
        return self._ar(np.floor_divide, self.ev(x), self.ev(y))

    def n_poly(self, n, terms):
        r = 0
        first = True
        for mono, coef in terms:
            t = num(coef)
            for at, e in mono:
                v = self.ev(at)
                if isinstance(v, (bool, np.bool_)):
                    v = int(v)
                elif isinstance(v, np.ndarray) and v.dtype.kind == "b":
                    v = v.astype(int)
                if e != 1:
                    ee = num(e)
                    if np.asarray(v).dtype.kind in "iu" and (not isinstance(ee, int) or ee < 0):
                        v = np.asarray(v, dtype=float)
                    v = np.power(v, ee)
                t = self._ar(np.multiply, t, v)
            r = t if first else self._ar(np.add, r, t)
            first = False
        return r

    def _cmp0(self, p):
        """value of a canonical difference together with the rounding level at which it is zero"""
        v = self.ev(p)
        scale = 0
        if p.op == "poly":
            for mono, coef in p.args[0]:
                t = abs(num(coef))
                for at, e in mono:
                    t = t * np.power(np.abs(np.asarray(self.ev(at), dtype=complex)), num(e))
                scale = np.maximum(scale, t)
        return v, 1e-13 * np.where(np.isfinite(scale), scale, 0)

    def n_lt0(self, n, p):
        v, eps = self._cmp0(p)
        return np.less(v, -eps)

    def n_le0(self, n, p):
        v, eps = self._cmp0(p)
        return np.less_equal(v, eps)

    def n_eq0(self, n, p):
        v, eps = self._cmp0(p)
        return np.abs(v) <= eps

    def n_not(self, n, x):
        v = self.ev(x)
        if isinstance(v, (str, tuple, list, dict)) or v is None:
            return not v
        return np.logical_not(v)

    def _bools(self, xs, isand):
        r = None
        for x in xs:
            v = self.ev(x)
            if isinstance(v, (str, tuple, list)) or v is None:
                v = bool(v)
            if r is None:
                r = v
            else:
                r = np.logical_and(r, v) if isand else np.logical_or(r, v)
            if np.ndim(r) == 0:
                if isand and not r:
                    return False
                if not isand and r:
                    return True
        return r

    def n_and(self, n, *a):
        return self._bools(a, True)

    def n_or(self, n, *a):
        return self._bools(a, False)

    def n_xor(self, n, x, y):
        return np.not_equal(self.ev(x), self.ev(y))

    def n_bitand(self, n, x, y):
        return np.bitwise_and(self.ev(x), self.ev(y))

    def n_bitor(self, n, x, y):
        return np.bitwise_or(self.ev(x), self.ev(y))

    def n_lshift(self, n, x, y):
        return np.left_shift(self.ev(x), self.ev(y))

    def n_rshift(self, n, x, y):
        return np.right_shift(self.ev(x), self.ev(y))

    def n_bool(self, n, x):
        v = self.ev(x)
        if isinstance(v, np.ndarray):
            if v.size != 1:
                raise Fails("truth value of an array")
            return bool(v.ravel()[0])
        return bool(v)

    def n_int(self, n, x):
        v = self.ev(x)
        if isinstance(v, np.ndarray):
            if v.size != 1:
                raise Fails("int of an array")
            v = v.ravel()[0]
        if isinstance(v, float) and abs(v - round(v)) < self.SNAP:
            return int(round(v))
        return int(v)

    def n_float(self, n, x):
        v = self.ev(x)
        if isinstance(v, np.ndarray):
            if v.size != 1:
                raise Fails("float of an array")
            v = v.ravel()[0]
        if isinstance(v, (complex, np.complexfloating)):
            raise Fails("float of complex")
        return float(v)

    def n_item(self, n, x):
        v = np.asarray(self.ev(x))
        if v.size != 1:
            raise Fails("item of an array")
        return v.ravel()[0].item()

    def n_is(self, n, x, y):
        x, y = self.ev(x), self.ev(y)
        if x is None or y is None or isinstance(x, bool) and isinstance(y, bool):
            return x is y
        raise Undecided("identity")

    def n_in(self, n, x, y):
        x, y = self.ev(x), self.ev(y)
        if isinstance(y, dict):
            y = list(y)
        if isinstance(y, (list, tuple, str)):
            return x in y
        return bool(np.any(np.equal(x, y)))

    def n_gamma(self, n, c, x, y):
        cv = self.ev(c)
        if isinstance(cv, np.ndarray) and cv.ndim:
            xv = self._try(x)
            yv = self._try(y)
            if isinstance(xv, Exception) or isinstance(yv, Exception):
                if cv.all() and not isinstance(xv, Exception):
                    return np.where(cv, xv, xv)
                if not cv.any() and not isinstance(yv, Exception):
                    return np.where(cv, yv, yv)
                raise xv if isinstance(xv, Exception) else yv
            if isinstance(xv, (tuple, str)) or isinstance(yv, (tuple, str)):
                raise Undecided("array condition")
            return np.where(cv, xv, yv)
        if cv is None or isinstance(cv, (str, tuple, list)):
            cv = bool(cv)
        return self.ev(x) if bool(cv) else self.ev(y)

    def _try(self, x):
        try:
            return self.ev(x)
        except (Undecided, Fails) as e:
            return e

    def n_floor(self, n, x):
        v = self.ev(x)
        r = np.round(v)
        # values that are integral up to rounding error are integers
        r = np.where(np.abs(np.asarray(v) - r) < self.SNAP * np.maximum(1, np.abs(v)), r, np.floor(v))
        return r if np.ndim(v) else (float(r) if not isinstance(v, (int, np.integer)) else int(v))

    def n_ceil(self, n, x):
        v = self.ev(x)
        r = np.round(v)
        r = np.where(np.abs(np.asarray(v) - r) < self.SNAP * np.maximum(1, np.abs(v)), r, np.ceil(v))
        return r if np.ndim(v) else (float(r) if not isinstance(v, (int, np.integer)) else int(v))

    # -------------------------------------------------------------- containers and indexing
    def n_tuple(self, n, *a):
        return tuple(self.ev(x) for x in a)

    def n_list(self, n, *a):
        v = [self.ev(x) for x in a]
        if any(isinstance(x, (str, dict)) or x is None for x in v):
            return v
        if not v:
            return np.zeros((0,))
        return np.asarray(v)

    def n_fromlist(self, n, x):
        return np.asarray(self.ev(x))

    def n_tolist(self, n, x):
        return self.ev(x)

    def n_dict(self, n, items):
        return {self.ev(k): self.ev(v) for k, v in items}

    def n_slice(self, n, a, b, c):
        def g(x):
            v = self.ev(x) if isinstance(x, Node) else x
            return None if v is None else int(intlike(v))
        return slice(g(a), g(b), g(c))

    def idx(self, i):
        if i.op == "slice":
            return self.ev(i)
        if i.op == "tuple":
            return tuple(self.idx(x) for x in i.args)
        v = self.ev(i)
        if v is None or v is Ellipsis or v == "..." if isinstance(v, str) or v is None else False:
            return None if v is None else Ellipsis
        if isinstance(v, tuple):
            return tuple(np.asarray(x) if np.ndim(x) else int(intlike(x)) for x in v)
        a = np.asarray(v)
        if a.dtype.kind == "b":
            return a if a.ndim else bool(a)
        a = intlike(a) if a.size else a.astype(np.int64)
        return a if a.ndim else int(a)

    def n_index(self, n, b, i):
        if b.op in ("tuple",) and i.op == "const" and isinstance(i.val, int):
            return self.ev(b.args[i.val])
        v = self.ev(b)
        if isinstance(v, dict):
            return v[self.ev(i)]
        j = self.idx(i)
        if isinstance(v, (str, list)) or (isinstance(v, tuple) and isinstance(j, (int, slice))):
            return v[j]
        v = np.asarray(v)
        if v.ndim == 0:
            if isinstance(j, int) and not isinstance(j, bool):
                raise Fails("index of a scalar")
            if isinstance(j, slice):
                return v[()]
        return v[j]

    def n_store(self, n, b, i, v):
        base = np.array(self.ev(b))
        j = self.idx(i)
        val = self.ev(v)
        return self._put(base, j, val)

    def _put(self, base, j, val):
        if val is None or isinstance(val, str):
            raise Fails("store")
        val = np.asarray(val)
        if val.dtype.kind == "c" and base.dtype.kind != "c":
            if val.ndim == 0:
                raise Fails("complex stored into a real array")
            val = val.real
        if np.ndim(val) == 1 and val.size == 1 and isinstance(j, int) and base.ndim == 1:
            val = val[0]
        base[j] = val
        return base

    def n_putview(self, n, kind, b, new, *r):
        kind = kind if isinstance(kind, str) else kind.args[1]
        b = np.array(self.ev(b))
        v = np.asarray(self.ev(new))
        if kind == "flip":
            return v[::-1]
        if kind in ("ravel", "reshape"):
            return v.reshape(b.shape)
        if kind == "transpose":
            return v.T
        if kind == "real":
            return v + 1j * b.imag if b.dtype.kind == "c" else v
        raise Undecided("putview")

    def n_flip(self, n, x):
        return np.flipud(np.asarray(self.ev(x)))

    def n_ravel(self, n, x):
        return np.ravel(self.ev(x))

    def n_reshape(self, n, x, s):
        return np.reshape(self.ev(x), tuple(int(intlike(self.ev(q))) for q in s))

    def n_reshape_(self, n, x, s):
        return np.reshape(self.ev(x), self.ev(s))

    def n_transpose(self, n, x):
        return np.transpose(self.ev(x))

    def _shape(self, s):
        return tuple(int(intlike(self.ev(q))) for q in s)

    def _dt(self, d):
        if isinstance(d, str):
            return NPDT.get(d, np.float64)
        v = self.ev(d)
        if v is None:
            return np.float64
        if isinstance(v, str):
            if v not in NPDT:
                raise Undecided("dtype " + v)
            return NPDT[v]
        return v

    def n_zeros(self, n, s, d):
        return np.zeros(self._shape(s), dtype=self._dt(d))

    def n_empty(self, n, s, d):
        # the content is arbitrary: a value that is never equal to a meaningful one
        sh = self._shape(s)
        return np.full(sh, 7777.25, dtype=self._dt(d))

    def n_full(self, n, s, v):
        return np.full(self._shape(s), self.ev(v))

    def n_full_like(self, n, x, v, *d):
        x = np.asarray(self.ev(x))
        return np.full_like(x, self.ev(v), dtype=self._dt(d[0]) if d else None)

    def n_zeros_like(self, n, x, *d):
        if x.op == "unshape":
            return np.zeros(tuple(int(q) for q in np.ravel(self.ev(x.args[0]))), dtype=self._dt(d[0]) if d else float)
        x = np.asarray(self.ev(x))
        return np.zeros_like(x, dtype=self._dt(d[0]) if d else None)

    def n_dtypeof(self, n, x):
        return np.asarray(self.ev(x)).dtype.type

    def n_resulttype(self, n, *a):
        ts = []
        for x in a:
            v = self.ev(x)
            if isinstance(v, str):
                v = NPDT[v]
            elif not isinstance(v, type):
                v = np.asarray(v).dtype
            ts.append(v)
        return np.result_type(*ts).type

    def n_astype(self, n, x, d):
        v = np.asarray(self.ev(x))
        t = self._dt(d)
        if t is np.int64 and v.dtype.kind == "f":
            v = np.where(np.abs(v - np.round(v)) < self.SNAP, np.round(v), v)
        r = v.astype(t)
        return r if r.ndim else r[()]

    def n_astype_like(self, n, x, y):
        v, w = np.asarray(self.ev(x)), np.asarray(self.ev(y))
        if v.dtype.kind == "c" and w.dtype.kind != "c" or v.dtype.kind == "f" and w.dtype.kind in "iub":
            raise Fails("in-place result does not fit the array type")
        r = v.astype(w.dtype)
        if r.shape != w.shape:
            raise Fails("in-place result changes shape")
        return r

    def n_len(self, n, x):
        v = self.ev(x)
        if np.ndim(v) == 0 and not isinstance(v, (str, list, tuple, dict)):
            raise Fails("len of a scalar")
        return len(v)

    def n_sizeof(self, n, x):
        return int(np.size(self.ev(x)))

    def n_shapeof(self, n, x):
        return tuple(int(q) for q in np.shape(self.ev(x)))

    def n_ndimof(self, n, x):
        return int(np.ndim(self.ev(x)))

    def n_isinstance(self, n, x, t):
        v = self.ev(x)
        names = [t] if isinstance(t, str) else t.args if isinstance(t, Node) and t.op in ("tuple", "list") else [t]
        out = False
        for q in names:
            if isinstance(q, Node):
                q = q.args[0] if q.op in ("ext", "builtin", "modattr") else q.val if q.op == "const" else show(q)
            q = str(q).split(".")[-1].strip("() ")
            if q == "Number":
                out = out or (not isinstance(v, (np.ndarray, str, tuple, list, dict)) and v is not None)
            elif q == "ndarray":
                out = out or isinstance(v, np.ndarray)
            elif q in ("tuple", "list", "dict", "str"):
                out = out or isinstance(v, {"tuple": tuple, "list": list, "dict": dict, "str": str}[q])
            else:
                raise Undecided("isinstance " + q)
        return out

    # -------------------------------------------------------------- searches
    def n_nz(self, n, x):
        v = np.atleast_1d(np.asarray(self.ev(x)))
        return np.nonzero(v)[0]

    def n_first(self, n, x):
        v = np.nonzero(np.atleast_1d(np.asarray(self.ev(x))))[0]
        if not v.size:
            raise Fails("no such element")
        return int(v[0])

    def n_last(self, n, x):
        v = np.nonzero(np.atleast_1d(np.asarray(self.ev(x))))[0]
        if not v.size:
            raise Fails("no such element")
        return int(v[-1])

    def n_welchlen(self, n, x):
        return len(self.ev(x)[0])

    def n_count(self, n, x):
        return int(np.count_nonzero(self.ev(x)))

    def n_np_argsort(self, n, x, kind=None):
        k = self.ev(kind) if isinstance(kind, Node) else kind
        v = np.asarray(self.ev(x))
        if k == "stable":
            return np.argsort(v, kind="stable")
        # an unstable sort may return equal elements in any order: take the reverse one
        r = np.argsort(v[::-1], kind="stable")
        return len(v) - 1 - r

    def n_np_sort(self, n, x):
        return np.sort(self.ev(x))

    def n_np_diff(self, n, x):
        return np.diff(self.ev(x))

    def n_np_cumsum(self, n, x):
        return np.cumsum(self.ev(x))

    def n_np_append(self, n, *a):
        r = self.ev(a[0])
        for x in a[1:]:
            r = np.append(r, self.ev(x))
        return r

    def n_np_concatenate(self, n, t, *a):
        return np.concatenate([np.atleast_1d(x) for x in self.ev(t)])

    def n_np_delete(self, n, x, i):
        j = self.ev(i)
        j = np.asarray(j)
        if j.dtype.kind == "f":
            j = j.astype(int)
        return np.delete(np.asarray(self.ev(x)), j)

    def n_np_arange(self, n, *a):
        v = [self.ev(x) for x in a]
        lo, hi, st = (0, v[0], 1) if len(v) == 1 else (v[0], v[1], v[2] if len(v) > 2 else 1)
        q = (hi - lo) / st
        if not np.isfinite(q) or q > 1e6:
            raise Fails("arange")
        k = max(0, int(math.ceil(q - self.SNAP)))
        r = lo + st * np.arange(k)
        return r

    def n_range(self, n, *a):
        return self.n_np_arange(n, *a)

    def n_np_linspace(self, n, a, b, k, ep):
        kk = self.ev(k)
        return np.linspace(self.ev(a), self.ev(b), int(intlike(kk)), endpoint=bool(self.ev(ep)))

    def n_np_interp(self, n, x, xp, fp, left, right):
        kw = {}
        l, r = self.ev(left), self.ev(right)
        if l is not None:
            kw["left"] = l
        if r is not None:
            kw["right"] = r
        return np.interp(self.ev(x), self.ev(xp), self.ev(fp), **kw)

    def n_np_polyfit(self, n, x, y, d):
        x, y = np.asarray(self.ev(x), dtype=float), np.asarray(self.ev(y), dtype=float)
        return np.polyfit(x, y, int(self.ev(d)))

    def n_np_nan_to_num(self, n, x, v):
        return np.nan_to_num(self.ev(x), nan=self.ev(v))

    def _fft(self, f, x, m, ax):
        k = self.ev(m)
        return f(np.asarray(self.ev(x)), None if k is None else int(intlike(k)), **({"axis": int(self.ev(ax[0]))} if ax else {}))

    def n_fft(self, n, x, m, *ax):
        return self._fft(np.fft.fft, x, m, ax)

    def n_ifft(self, n, x, m, *ax):
        return self._fft(np.fft.ifft, x, m, ax)

    def n_rfft(self, n, x, m, *ax):
        return self._fft(np.fft.rfft, x, m, ax)

    def n_irfft(self, n, x, m, *ax):
        return self._fft(np.fft.irfft, x, m, ax)

    def n_fftfreq(self, n, k, d):
        return np.fft.fftfreq(int(intlike(self.ev(k))), self.ev(d))

    def n_simpson(self, n, y, x, dx, *ax):
        from scipy.integrate import simpson
        xv = self.ev(x)
        kw = {"axis": int(self.ev(ax[0]))} if ax else {}
        yv = np.asarray(self.ev(y))
        if xv is None:
            return simpson(yv, dx=self.ev(dx), **kw)
        return simpson(yv, x=np.asarray(xv), **kw)

    def n_trapezoid(self, n, y, x, dx, *ax):
        from scipy.integrate import trapezoid
        xv = self.ev(x)
        kw = {"axis": int(self.ev(ax[0]))} if ax else {}
        if xv is None:
            return trapezoid(np.asarray(self.ev(y)), dx=self.ev(dx), **kw)
        return trapezoid(np.asarray(self.ev(y)), x=np.asarray(xv), **kw)

    def n_hilbert(self, n, x):
        from scipy.signal import hilbert
        return hilbert(np.asarray(self.ev(x)))

    def n_gammaf(self, n, x):
        from scipy.special import gamma
        return gamma(self.ev(x))

    def n_gammainc(self, n, a, x):
        from scipy.special import gammainc
        return gammainc(self.ev(a), self.ev(x))

    def n_welch(self, n, *a):
        from scipy.signal import welch
        names = ("fs", "window", "nperseg", "noverlap", "nfft", "detrend", "return_onesided", "scaling", "axis",
                 "average")
        kw = {k: self.ev(v) for k, v in zip(names, a[1:])}
        for k in ("nperseg", "noverlap", "nfft"):
            if kw[k] is not None:
                kw[k] = int(intlike(kw[k]))
        return welch(np.asarray(self.ev(a[0])), **kw)

    def n_random(self, n, name, shape, cnt, *params):
        nm = name if isinstance(name, str) else name.args[1]
        if isinstance(shape, Node):
            raise Undecided("random shape")
        sh = self._shape(shape)
        c = cnt if isinstance(cnt, int) else cnt.args[1]
        rs = np.random.RandomState(1000 + c)
        if nm == "rand":
            return rs.rand(*sh)
        if nm in ("randn", "normal", "standard_normal"):
            r = rs.randn(*sh)
        elif nm in ("randint", "integers"):
            r = rs.randint(0, 5, size=sh)
        else:
            r = rs.rand(*sh) * 3
        h = int(hashlib.md5(repr((nm, [repr(self.ev(p)) for p in params])).encode()).hexdigest()[:6], 16)
        return r * (1 + h / 2 ** 24)

    # -------------------------------------------------------------- loops
    def _rng(self, lo, hi):
        l, h = int(intlike(self.ev(lo))), int(intlike(self.ev(hi)))
        if h - l > 4000:
            raise Undecided("long loop")
        return range(l, h)

    def n_fill(self, n, init, it, lo, hi, e):
        return self._fill(init, it, lo, hi, it, e)

    def n_fillg(self, n, init, it, lo, hi, idx, e):
        return self._fill(init, it, lo, hi, idx, e)

    def _fill(self, init, it, lo, hi, idx, e):
        rng = self._rng(lo, hi)
        lst = init.op == "list"
        out = [] if lst else np.array(self.ev(init))
        if lst:
            out = list(np.asarray(self.ev(init))) if init.args else []
        for k in rng:
            old = self.bind(it, k)
            try:
                v = self.ev(e)
                if lst:
                    out.append(v)
                else:
                    j = self.idx(idx)
                    if isinstance(j, int) and not -out.shape[0] <= j < out.shape[0]:
                        raise Fails("store out of range")
                    out = self._put(out, j, v)
            finally:
                self.unbind(it, old)
        if lst:
            return np.asarray(out) if out else np.zeros((0,))
        return out

    def n_filtermap(self, n, init, it, lo, hi, c, e):
        lst = init.op == "list"
        out = list(np.ravel(self.ev(init))) if not (lst and not init.args) else []
        for k in self._rng(lo, hi):
            old = self.bind(it, k)
            try:
                if bool(np.all(self.ev(c))):
                    out.append(self.ev(e))
            finally:
                self.unbind(it, old)
        if not out and not lst:
            return np.asarray(self.ev(init))
        return np.asarray(out) if out else np.zeros((0,))

    def n_lappend(self, n, x, v):
        b = self.ev(x)
        b = list(b) if not isinstance(b, np.ndarray) else list(b)
        return np.asarray(b + [self.ev(v)])

    def n_sumover(self, n, it, lo, hi, e):
        r = 0
        for k in self._rng(lo, hi):
            old = self.bind(it, k)
            try:
                r = self._ar(np.add, r, self.ev(e))
            finally:
                self.unbind(it, old)
        return r

    def n_exists(self, n, it, lo, hi, c):
        for k in self._rng(lo, hi):
            old = self.bind(it, k)
            try:
                if bool(np.all(self.ev(c))):
                    return True
            finally:
                self.unbind(it, old)
        return False

    def n_lastval(self, n, it, lo, hi, e):
        rng = self._rng(lo, hi)
        if not len(rng):
            raise Fails("loop without iterations")
        old = self.bind(it, rng[-1])
        try:
            return self.ev(e)
        finally:
            self.unbind(it, old)

    def n_rec(self, n, j, depth, names, it, lo, hi, inits, nexts, cond):
        mus = [mk("mu", depth, nm) for nm in names]
        key = ("rec", depth, names, it if isinstance(it, Node) else 0, lo, hi, tuple(x.nid for x in inits),
               tuple(x.nid for x in nexts), cond.nid if isinstance(cond, Node) else 0,
               tuple((x.nid, self.env[x][1]) for x in sorted(free_iters(n), key=lambda q: q.nid) if x in self.env))
        r = self.memo.get(key)
        if r is None:
            def val(x):
                try:
                    return self.ev(x)
                except Fails as ex:
                    return Poison(ex)
            vals = [val(x) for x in inits]
            olds = [self.env.get(m) for m in mus]
            oldit = self.env.get(it) if isinstance(it, Node) else None

            def setall(vs):
                for m, v in zip(mus, vs):
                    self.bind(m, v)
            try:
                isnone = it is None or (isinstance(it, Node) and it.op == "const")
                ks = None if isnone else iter(self._rng(lo, hi))
                cnt = 0
                hascond = isinstance(cond, Node) and cond.op != "const"
                if ks is None and hascond:
                    step = scalar_step(self, mus, vals, nexts, cond)
                    if step is not None:
                        vals = iterate_scalar(step, vals)
                        hascond, ks = False, iter(())
                while True:
                    if ks is not None:
                        k = next(ks, None)
                        if k is None:
                            break
                    setall(vals)
                    if ks is not None:
                        self.bind(it, k)
                    if hascond and not bool(np.all(self.ev(cond))):
                        break
                    vals = [val(x) for x in nexts]
                    cnt += 1
                    if cnt > 6000:
                        raise Undecided("iteration does not end")
            finally:
                for m, o in zip(mus, olds):
                    self.unbind(m, o)
                if isinstance(it, Node) and it.op == "iter":
                    self.unbind(it, oldit)
            r = vals
            self.memo[key] = r
        v = r[j if isinstance(j, int) else int(j.args[1])]
        if isinstance(v, Poison):
            raise v.ex
        return v

    # -------------------------------------------------------------- strings
    def n_strop(self, n, name, s, *a):
        return getattr(self.ev(s), self.ev(name))(*[self.ev(x) for x in a])

    # -------------------------------------------------------------- uninterpreted and library functions
    def pkg(self, n):
        name = n.op[4:]
        args = [self.ev(x) if x.op != "undef" else None for x in n.args]
        f = self.interp.get(name)
        if f is not None:
            return f(*args)
        return unint(name, args)

    def ext(self, n):
        path = n.op[4:]
        if path == "exponweib.ppf":
            from scipy.stats import exponweib
            q, a, c, loc, sc = [self.ev(x) for x in n.args]
            return exponweib.ppf(q, a, c, loc=loc, scale=sc)
        if len(n.args) != 2 or not isinstance(n.args[0], tuple):
            if path == "numpy.matmul":
                return np.matmul(*[self.ev(x) for x in n.args])
            raise Undecided(path)
        args = [self.ev(x) for x in n.args[0]]
        kw = {k: self.ev(v) for k, v in n.args[1]}
        if path == "call":
            raise Undecided("call of external object")
        if path.startswith("method."):
            f = getattr(args[0] if not isinstance(args[0], (float, int)) else np.asarray(args[0]), path[7:])
            return f(*args[1:], **kw)
        if path.startswith("ndarray."):
            raise Undecided(path)
        root = path.split(".")[0]
        if path in PURE_PATH and not any(isinstance(x, np.ndarray) for x in args):
            return getattr(os.path, path.split(".")[-1])(*args, **kw)
        if root not in ("numpy", "scipy", "math", "builtins", "operator", "cmath", "statistics", "bisect"):
            raise Undecided(path)
        if "random" in path or path.split(".")[-1] in ("open", "print", "input", "eval", "exec", "save", "savetxt", "load",
                                                      "system", "__import__", "compile", "globals", "setattr",
                                                      "tofile", "memmap", "fromfile", "loadtxt", "genfromtxt",
                                                      "savez", "delattr", "breakpoint", "exit", "quit"):
            raise Undecided(path)
        parts = path.split(".")
        f = None
        for k in range(len(parts) - 1, 0, -1):
            try:
                f = importlib.import_module(".".join(parts[:k]))
            except ImportError:
                continue
            try:
                for p in parts[k:]:
                    f = getattr(f, p)
            except AttributeError:
                f = None
            break
        if f is None or not callable(f):
            raise Undecided(path)
        args = [np.array(x) if isinstance(x, np.ndarray) else x for x in args]
        return f(*args, **kw)


# functions of a file name that do not look at the file system
PURE_PATH = {"os.path." + q for q in ("dirname", "basename", "splitext", "join", "normpath", "split", "isabs", "normcase")}


class _NoCode(Exception):
    pass


def scalar_step(ev, mus, vals, nexts, cond):
    """The step of a loop over scalars as one function of its loop variables; None where the terms are not plain arithmetic."""
    if any(isinstance(v, Poison) and not isinstance(v.ex, Fails) for v in vals):
        return None
    for v in vals:
        if not isinstance(v, Poison) and not (isinstance(v, (int, float, np.number)) or isinstance(v, np.ndarray) and v.ndim == 0):
            return None
    lines, names, consts = [], {}, {}
    var = {m: "m%d" % i for i, m in enumerate(mus)}
    mset = set(mus)

    def const(v):
        k = "c%d" % len(consts)
        consts[k] = v
        return k

    def depends(n):
        return bool(mset & set(free_iters(n)))

    def go(n):
        if n in var:
            return var[n]
        if n in names:
            return names[n]
        if not depends(n):
            v = ev.ev(n)
            if isinstance(v, (bool, np.bool_)):
                v = bool(v)
            elif isinstance(v, (int, float, np.number)) or isinstance(v, np.ndarray) and v.ndim == 0:
                v = np.float64(v) if np.asarray(v).dtype.kind in "fiu" else None
            else:
                v = None
            if v is None:
                raise _NoCode
            names[n] = const(v)
            return names[n]
        o, a = n.op, n.args
        if o == "poly":
            ts, by = [], {}
            for mono, coef in a[0]:
                t, c0 = [], np.float64(num(coef))
                for at, e in mono:
                    p = num(e)
                    if depends(at):
                        x = go(at)
                        t.append(x if p == 1 else "power(%s, %r)" % (x, float(p)))
                    else:
                        x = ev.ev(at)
                        if not isinstance(x, (int, float, np.number)) and not (isinstance(x, np.ndarray) and x.ndim == 0):
                            raise _NoCode("constant")
                        c0 = c0 * np.power(np.float64(x), float(p))
                t = "*".join(t)
                by[t] = by.get(t, 0.0) + c0
            for t, c0 in by.items():
                ts.append(const(c0) + ("*" + t if t else ""))
            e = "+".join(ts)
        elif o in ("add", "mul"):
            e = ("+" if o == "add" else "*").join(go(x) for x in a)
        elif o == "sub":
            e = "%s-%s" % (go(a[0]), go(a[1]))
        elif o == "div":
            e = "divide(%s, %s)" % (go(a[0]), go(a[1]))
        elif o == "neg":
            e = "-%s" % go(a[0])
        elif o == "pow":
            e = "power(%s, %s)" % (go(a[0]), go(a[1]))
        elif o in ("sqrt", "exp", "log", "abs", "tanh", "sinh", "cosh", "sin", "cos", "sign") and len(a) == 1:
            e = "%s(%s)" % (o, go(a[0]))
        elif o in ("gammaf",):
            e = "gamma(%s)" % go(a[0])
        elif o == "gammainc":
            e = "gammainc(%s, %s)" % (go(a[0]), go(a[1]))
        elif o in ("lt0", "le0", "eq0"):
            e = {"lt0": "%s < 0", "le0": "%s <= 0", "eq0": "%s == 0"}[o] % go(a[0])
        elif o in ("lt", "le", "eq", "ne") and len(a) == 2:
            e = "%s %s %s" % (go(a[0]), {"lt": "<", "le": "<=", "eq": "==", "ne": "!="}[o], go(a[1]))
        elif o == "not":
            e = "not %s" % go(a[0])
        elif o in ("and", "or"):
            e = (" %s " % o).join("bool(%s)" % go(x) for x in a)
        elif o == "gamma":
            e = "%s if %s else %s" % (go(a[1]), go(a[0]), go(a[2]))
        elif o in ("max2", "min2"):
            e = "%s(%s, %s)" % ({"max2": "maximum", "min2": "minimum"}[o], go(a[0]), go(a[1]))
        else:
            raise _NoCode(getattr(n, "op", None))
        k = "v%d" % len(names)
        lines.append("    %s = %s" % (k, e))
        names[n] = k
        return k
    try:
        c = go(cond)
        lines.append("    if not %s: return None" % c)
        outs = [go(x) for x in nexts]
    except (_NoCode, Undecided, Fails):
        return None
    from scipy.special import gamma, gammainc
    env = dict(consts, power=np.power, divide=np.divide, gamma=gamma, gammainc=gammainc, maximum=np.maximum, minimum=np.minimum,
               abs=abs, **{k: U1[k] for k in ("sqrt", "exp", "log", "tanh", "sinh", "cosh", "sin", "cos", "sign")})
    src = "def step(%s):\n%s\n    return (%s,)\n" % (", ".join(var[m] for m in mus), "\n".join(lines), ", ".join(outs))
    exec(compile(src, "<loop of the value graph>", "exec"), env)
    return env["step"]


ENDLESS = 400000


def iterate_scalar(step, vals):
    vals = tuple(v if isinstance(v, Poison) else np.float64(v) for v in vals)
    n = 0
    while True:
        try:
            r = step(*vals)
        except TypeError:
            raise Undecided("loop over values that are not numbers")
        if r is None:
            return list(vals)
        vals = r
        n += 1
        if n > ENDLESS:
            raise Fails("the loop does not end")


def unint(name, args):
    """A fixed, structureless interpretation of an unknown function: positive, spread over (1, 2)."""
    h = hashlib.md5(name.encode())
    for a in args:
        if isinstance(a, (str, bool)) or a is None:
            h.update(repr(a).encode())
            continue
        v = np.asarray(a)
        if v.dtype.kind == "O":
            h.update(repr(a).encode())
            continue
        v = np.round(np.asarray(v, dtype=complex), 9) + 0.0
        h.update(repr([("%.9g" % (z.real + 0.0), "%.9g" % (z.imag + 0.0)) for z in np.ravel(v)]).encode())
    return 1.0 + int(h.hexdigest()[:8], 16) / 2 ** 32


# differences below this are rounding of cancelling terms (inputs are of order one)
NOISE = 1e-13


class FloatEv(Ev):
    """The operations as written, in double precision, without any tolerance."""
    SNAP = 0.0
    CLOSE = 0.0


def same(x, y, tol=1e-7, scalar_shape=False):
    """Equality of two values up to rounding."""
    if isinstance(x, (tuple,)) or isinstance(y, (tuple,)):
        if not (isinstance(x, tuple) and isinstance(y, tuple)) or len(x) != len(y):
            return False
        return all(same(p, q, tol, scalar_shape) for p, q in zip(x, y))
    if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
        return x == y if type(x) is type(y) else False
    if isinstance(x, dict) or isinstance(y, dict):
        return x == y
    a, b = np.asarray(x), np.asarray(y)
    if a.dtype.kind in "OUS" or b.dtype.kind in "OUS":
        try:
            return list(x) == list(y)
        except TypeError:
            return x == y
    if a.shape != b.shape:
        if scalar_shape or a.size != b.size:
            return False
        if a.size > 1 and a.ndim == b.ndim:
            return False
        a, b = a.ravel(), b.ravel()
    if a.size == 0:
        return True
    a, b = a.astype(complex), b.astype(complex)
    na, nb = np.isnan(a), np.isnan(b)
    if (na != nb).any():
        return False
    ok = ~na
    inf = np.isinf(a) | np.isinf(b)
    if inf.any():
        if not np.all(a[inf & ok] == b[inf & ok]):
            return False
        ok = ok & ~inf
    if not ok.any():
        return True
    d = np.abs(a[ok] - b[ok])
    sc = max(float(np.max(np.abs(a[ok]))), float(np.max(np.abs(b[ok]))))
    rel = np.maximum(np.abs(a[ok]), np.abs(b[ok]))
    # elements are compared with their own size, down to the rounding level of the whole array
    return bool(np.all(d <= tol * rel + 1e-11 * sc + NOISE))
