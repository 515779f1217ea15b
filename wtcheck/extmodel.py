"""What numpy, scipy, math, matplotlib, builtins and container methods mean for the value graph."""
from __future__ import annotations

from fractions import Fraction

from .ir import C, FALSE, INF, MINUS1, NAN, NONE, ONE, PI, TRUE, UNDEF, ZERO, Node, mk, of_plot, show

CONSTS = {
    "numpy.pi": PI, "math.pi": PI, "scipy.constants.pi": PI, "numpy.inf": INF, "math.inf": INF, "numpy.nan": NAN,
    "math.nan": NAN, "numpy.newaxis": NONE, "numpy.Inf": INF, "numpy.NaN": NAN, "numpy.infty": INF,
    "sys.float_info.epsilon": C(2.220446049250313e-16), "math.e": C(2.718281828459045),
    "numpy.e": C(2.718281828459045), "math.tau": mk("mul", C(2), PI), "scipy.constants.g": C(9.80665),
    "sys.float_info.max": C(1.7976931348623157e308), "sys.maxsize": C(9223372036854775807),
    "typing.TYPE_CHECKING": FALSE, "sys.float_info.min": C(2.2250738585072014e-308),
}

DT = {
    "builtins.float": "float", "numpy.float64": "float", "numpy.double": "float", "numpy.floating": "float",
    "numpy.float_": "float", "numpy.longdouble": "float", "builtins.complex": "complex",
    "numpy.complex128": "complex", "numpy.complex_": "complex", "numpy.cdouble": "complex",
    "numpy.complexfloating": "complex", "builtins.int": "int", "numpy.int64": "int", "numpy.int_": "int",
    "numpy.intp": "int", "numpy.integer": "int", "numpy.int32": "int32", "numpy.float32": "float32",
    "numpy.float16": "float16", "numpy.complex64": "complex64", "builtins.bool": "bool", "numpy.bool_": "bool",
    "numpy.int16": "int16", "numpy.int8": "int8", "numpy.single": "float32", "numpy.uint8": "uint8",
    "builtins.object": "object", "numpy.bool": "bool", "numpy.uint64": "int", "numpy.csingle": "complex64",
}
DTS = {"float64": "float", "f8": "float", "d": "float", "float": "float", "<f8": "float", "f": "float32",
       "float32": "float32", "f4": "float32", "complex128": "complex", "c16": "complex", "complex": "complex",
       "D": "complex", "int64": "int", "i8": "int", "int": "int", "i": "int32", "int32": "int32", "bool": "bool",
       "?": "bool", "complex64": "complex64", "c8": "complex64", "double": "float", "O": "object"}

UF1 = {"sqrt": "sqrt", "exp": "exp", "log": "log", "log10": "log10", "log2": "log2", "sin": "sin", "cos": "cos",
       "tan": "tan", "arcsin": "arcsin", "arccos": "arccos", "arctan": "arctan", "sinh": "sinh", "cosh": "cosh",
       "tanh": "tanh", "abs": "abs", "absolute": "abs", "fabs": "abs", "floor": "floor", "ceil": "ceil",
       "rint": "round", "trunc": "trunc", "fix": "trunc", "sign": "sign", "conj": "conj", "conjugate": "conj",
       "negative": "neg", "isnan": "isnan", "isinf": "isinf", "isfinite": "isfinite", "logical_not": "not",
       "expm1": "expm1", "log1p": "log1p", "cbrt": "cbrt", "imag": "imag", "angle": "angle", "spacing": "spacing",
       "deg2rad": "radians", "radians": "radians", "rad2deg": "degrees", "degrees": "degrees", "invert": "not",
       "bitwise_not": "not"}
UF2 = {"add": "add", "subtract": "sub", "multiply": "mul", "divide": "div", "true_divide": "div", "power": "pow",
       "float_power": "pow", "mod": "mod", "remainder": "mod", "floor_divide": "floordiv", "maximum": "max2",
       "minimum": "min2", "fmax": "max2", "fmin": "min2", "less": "lt", "less_equal": "le", "equal": "eq",
       "not_equal": "ne", "logical_and": "and", "logical_or": "or", "logical_xor": "ne", "hypot": "hypot",
       "arctan2": "arctan2", "bitwise_and": "and", "bitwise_or": "or"}
RED = {"sum": "np.sum", "mean": "np.mean", "average": "np.mean", "amax": "np.amax", "max": "np.amax", "amin": "np.amin",
       "min": "np.amin", "std": "np.std", "var": "np.var", "prod": "np.prod", "all": "np.all", "any": "np.any",
       "median": "np.median", "argmax": "np.argmax", "argmin": "np.argmin", "nanmax": "np.nanmax",
       "nanmin": "np.nanmin", "nanmean": "np.nanmean", "nansum": "np.nansum", "ptp": "np.ptp",
       "count_nonzero": "np.count", "nanstd": "np.nanstd", "nanvar": "np.nanvar", "product": "np.prod"}

ALIAS = {
    "numpy.trapz": "scipy.integrate.trapezoid", "numpy.trapezoid": "scipy.integrate.trapezoid",
    "scipy.integrate.trapz": "scipy.integrate.trapezoid", "scipy.integrate.simps": "scipy.integrate.simpson",
    "scipy.fft.fft": "numpy.fft.fft", "scipy.fft.ifft": "numpy.fft.ifft", "scipy.fft.rfft": "numpy.fft.rfft",
    "scipy.fft.irfft": "numpy.fft.irfft", "scipy.fftpack.fft": "numpy.fft.fft", "scipy.fftpack.ifft": "numpy.fft.ifft",
    "math.fabs": "numpy.abs", "math.pow": "numpy.power", "cmath.exp": "numpy.exp", "math.gamma": "scipy.special.gamma",
    "operator.add": "numpy.add", "operator.mul": "numpy.multiply", "operator.sub": "numpy.subtract",
    "operator.truediv": "numpy.divide", "operator.ge": "numpy.greater_equal", "operator.gt": "numpy.greater",
    "operator.le": "numpy.less_equal", "operator.lt": "numpy.less", "operator.neg": "numpy.negative",
    "cmath.sqrt": "numpy.sqrt", "numpy.lib.scimath.sqrt": "numpy.emath.sqrt", "math.hypot": "numpy.hypot",
    "functools.reduce": "functools.reduce", "scipy.stats.distributions.rayleigh.ppf": "scipy.stats.rayleigh.ppf",
    "math.fsum": "numpy.sum", "math.isclose": "math.isclose", "math.dist": "math.dist",
}

PURE_ROOTS = ("numpy", "scipy", "math", "cmath", "operator", "itertools", "functools", "builtins", "numbers", "copy",
              "fractions", "statistics", "bisect", "collections", "typing", "decimal", "string", "re", "enum",
              "dataclasses", "abc", "types", "__future__")


def ext_attr(ip, path):
    path = ALIAS.get(path, path)
    if path in CONSTS:
        return CONSTS[path]
    return mk("ext", path)


def dt(ip, v, st):
    """dtype argument."""
    if v is None or v is NONE:
        return NONE
    c = v
    if c.op == "ext":
        return C(DT.get(c.args[0], c.args[0]))
    c = ip.deref(v, st)
    if c.op == "const" and isinstance(c.val, str):
        return C(DTS.get(c.val, c.val))
    if c.op == "extobj" and c.args[0] == "numpy.dtype":
        return dt(ip, c.args[1], st)
    return c


def dtname(ip, d):
    """'float' / 'int' / ... of a normalised dtype node, or None."""
    if d.op == "const" and isinstance(d.val, str):
        return {"float32": "float", "float16": "float", "complex64": "complex", "int32": "int", "int16": "int",
                "int8": "int", "uint8": "int"}.get(d.val, d.val)
    if d.op == "dtypeof":
        return ip.dtype(d.args[0])
    if d.op == "resulttype":
        return ip.ctx.dtypeval(mk("resulttype", *[x for x in d.args]))
    return None


class B:
    """Bound call arguments."""

    def __init__(self, names, args, kw):
        self.d = {}
        self.extra = []
        self.ok = True
        names = list(names)
        for n, a in zip(names, args):
            self.d[n] = a
        if len(args) > len(names):
            self.ok = False
        for k, v in kw.items():
            if k in self.d or k not in names:
                self.ok = self.ok and k in ("out", "where", "keepdims", "overwrite_x", "overwrite_data", "casting",
                                            "check_finite", "workers", "order", "subok", "like", "dtype",
                                            "overwrite_input", "norm", "copy")
            self.d[k] = v

    def get(self, n, default=NONE):
        return self.d.get(n, default)

    def has(self, n):
        v = self.d.get(n)
        return v is not None and v is not NONE


def kind_of(ip, v, st):
    sh = ip.deref_shallow(v, st)
    if sh.op in ("list", "lappend"):
        return "list"
    if sh.op in ("fill", "filtermap") and sh.args[0].op == "list":
        return "list"
    if sh.op == "tuple":
        return "tuple"
    if sh.op == "dict":
        return "dict"
    if sh.op == "obj":
        return "obj"
    c = ip.deref(v, st)
    if c.op == "const":
        if c.val is None:
            return "none"
        return "str" if isinstance(c.val, str) else "scalar"
    if c.op in ("fstr", "strop"):
        return "str"
    if c.op in ("func", "closure", "bound", "cls", "module", "ext", "extobj"):
        return "other"
    if c.op == "sym":
        k = ip.ctx.m(c, "kind")
        if k:
            return k
    if c.op == "gamma":
        a, b = kind_of(ip, c.args[1], st), kind_of(ip, c.args[2], st)
        return a if a == b else None
    s = ip.shape(c)
    if s is not None:
        if s != ():
            return "array"
        return "array0" if c.op == "asarray0" else "scalar"
    if c.op in ("np.append", "filtermap", "nz", "np.delete", "store", "np.concatenate", "fill", "np.sort", "ravel", "np.argsort"):
        return "array"
    if c.op == "index" and isinstance(c.args[1], Node) and kind_of(ip, c.args[1], st) == "array":
        return "array"
    return None


def isinstance_(ip, v, t, st):
    if t.op == "tuple":
        out = FALSE
        for x in t.args:
            r = isinstance_(ip, v, x, st)
            if r is TRUE:
                return TRUE
            if r is not FALSE:
                out = r if out is FALSE else mk("or", out, r)
        return out
    if t.op == "bitor" or t.op == "or":
        return isinstance_(ip, v, mk("tuple", *t.args), st)
    c = ip.deref(v, st)
    if c.op == "gamma" and kind_of(ip, v, st) is None:
        a = isinstance_(ip, c.args[1], t, st)
        b = isinstance_(ip, c.args[2], t, st)
        return a if a is b else mk("gamma", c.args[0], a, b)
    k = kind_of(ip, v, st)
    if t.op == "cls":
        if c.op == "obj":
            return C((t.args[0], t.args[1]) in ip.mro(ip.objcls[c.args[0]]))
        return FALSE if k is not None else mk("isinstance", c, t)
    if t.op != "ext" or k is None:
        return mk("isinstance", c, C(t.args[0] if t.op == "ext" else show(t)))
    p = t.args[0]
    if p in ("numpy.ndarray", "numpy.typing.NDArray"):
        return C(k in ("array", "array0"))
    if p in ("builtins.list", "collections.abc.MutableSequence"):
        return C(k == "list")
    if p == "builtins.tuple":
        return C(k == "tuple")
    if p in ("collections.abc.Sequence", "typing.Sequence"):
        return C(k in ("list", "tuple", "str"))
    if p in ("collections.abc.Iterable", "typing.Iterable"):
        return C(k in ("list", "tuple", "str", "array", "dict"))
    if p == "builtins.str":
        return C(k == "str")
    if p == "builtins.dict":
        return C(k == "dict")
    num = k in ("scalar",)
    d = ip.dtype(c) if num else None
    if p in ("numbers.Number",):
        return C(num)
    if not num:
        return FALSE
    if d is None:
        return mk("isinstance", c, C(p))
    if p in ("numbers.Real",):
        return C(d in ("int", "float", "bool"))
    if p in ("numbers.Complex",):
        return TRUE
    if p in ("builtins.float",):
        return C(d == "float")
    if p in ("builtins.int", "numbers.Integral"):
        return C(d in ("int", "bool"))
    if p in ("builtins.complex",):
        return C(d == "complex")
    if p in ("builtins.bool", "numpy.bool_"):
        return C(d == "bool")
    return mk("isinstance", c, C(p))


def array_attr(ip, o, name, st, node):
    """Attribute of a non-object value."""
    sh = ip.deref_shallow(o, st)
    if sh.op in ("extobj",):
        if name == "eps" and sh.args[0] == "numpy.finfo":
            return C(2.220446049250313e-16)
        if name == "tiny" and sh.args[0] == "numpy.finfo":
            return C(2.2250738585072014e-308)
        return mk("extbound", sh, name)
    if of_plot(sh):
        return mk("extbound", sh, name)
    if sh.op in ("list", "tuple", "dict", "lappend") or ip._isstr(sh) or (sh.op == "const" and isinstance(sh.val, str)):
        return mk("pybound", o, name)
    if sh.op in ("func", "closure", "bound"):
        if name in ("__name__", "__doc__", "__qualname__"):
            return C(str(sh.args[-1]) if sh.op == "func" else "f")
        if name == "reduce":
            return ip.opaque("reduce")
        return ip.opaque("function attribute")
    c = ip.deref(o, st)
    if name in ("shape", "size", "ndim"):
        return shape_attr(ip, c, name)
    if name == "dtype":
        return mk("dtypeof", c)
    if c.op in ("dtypeof", "resulttype") and name == "kind":
        d = dtname(ip, c)
        return C({"float": "f", "complex": "c", "int": "i", "bool": "b"}[d]) if d else ip.opaque("dtype kind")
    if c.op in ("dtypeof", "resulttype") and name == "type":
        return c
    if name == "T":
        s = ip.shape(c)
        if s is not None and len(s) <= 1:
            return o
        return mk("vfn", o, "transpose") if ip.isref(o) else ip.box(mk("transpose", c), st, node)
    if name in ("real", "imag"):
        if ip.isref(o):
            return mk("vfn", o, name)
        return mk(name, c)
    if name == "flat":
        return mk("vfn", o, "ravel") if ip.isref(o) else ip.box(mk("ravel", c), st, node)
    if c.op == "extobj":
        return mk("extbound", c, name)
    if c.op == "dtypeof":
        return mk("extbound", c, name)
    return mk("pybound", o, name)


def shape_attr(ip, c, name):
    s = ip.shape(c)
    if name == "shape":
        return mk("tuple", *s) if s is not None else mk("shapeof", c)
    if name == "ndim":
        return C(len(s)) if s is not None else mk("ndimof", c)
    if s is None:
        return mk("sizeof", c)
    r = ONE
    for d in s:
        r = d if r is ONE else mk("mul", r, d)
    return ip.canon(r)


def shape_arg(ip, v, st):
    sh = ip.deref_shallow(v, st)
    if sh.op in ("tuple", "list"):
        return tuple(ip.canon(ip.deref(x, st)) for x in sh.args)
    c = ip.canon(ip.deref(v, st))
    if c.op == "tuple":
        return tuple(c.args)
    if c.op == "shapeof":
        return None
    if c.op == "gamma" and any(x.op in ("tuple",) for x in c.args):
        return None
    return (c,)


def is_const(v):
    return v is not None and v.op == "const"


def call(ip, f, args, kw, st, node):
    if f.op == "pybound":
        return method(ip, f.args[0], f.args[1], args, kw, st, node)
    if f.op == "extbound":
        return extmethod(ip, f.args[0], f.args[1], args, kw, st, node)
    if f.op == "extobj":
        return ext_generic(ip, "call", [f] + list(args), kw, st, node)
    path = ALIAS.get(f.args[0], f.args[0])
    ip.extcalls.add(path)
    root = path.split(".")[0]
    if root in ("matplotlib", "plt", "pylab", "seaborn"):
        return plot_call(ip, path, args, kw, st, node)
    h = HANDLERS.get(path)
    if h is not None:
        r = h(ip, path, args, kw, st, node)
        if r is not None:
            return r
    mod, _, fn = path.rpartition(".")
    if mod in ("numpy", "math", "cmath", "numpy.ma", "jax.numpy"):
        r = ufunc(ip, mod, fn, args, kw, st, node)
        if r is not None:
            return r
    return ext_generic(ip, path, args, kw, st, node)


def out_arg(ip, b, content, st, node):
    o = b.d.get("out")
    if o is not None and o is not NONE:
        sh = ip.deref_shallow(o, st)
        if sh.op == "tuple" and len(sh.args) == 1:
            o = sh.args[0]
        ip.write_back(o, mk("store", ip.deref(o, st), mk("slice", NONE, NONE, NONE), content), st, node)
        return o
    return ip.box(content, st, node)


def ufunc(ip, mod, fn, args, kw, st, node):
    if any(k not in ("out", "dtype", "casting", "axis", "where", "keepdims", "ddof", "initial", "a", "x", "order", "kind",
                     "weights") for k in kw):
        return None
    D = lambda v: ip.deref(v, st)  # noqa: E731
    if fn in UF1 and fn not in ("real",):
        b = B(("x", "out"), args, kw)
        if not b.ok or b.has("where") or "x" not in b.d:
            return None
        c = D(b.d["x"])
        r = mk(UF1[fn], c)
        if mod == "math" and fn in ("floor", "ceil", "trunc"):
            r = mk("int", r)
        return out_arg(ip, b, r, st, node)
    if fn in UF2 and mod != "math":
        b = B(("x1", "x2", "out"), args, kw)
        if not b.ok or b.has("where") or "x2" not in b.d:
            return None
        return out_arg(ip, b, mk(UF2[fn], D(b.d["x1"]), D(b.d["x2"])), st, node)
    if fn in ("greater", "greater_equal"):
        b = B(("x1", "x2", "out"), args, kw)
        if not b.ok or b.has("where"):
            return None
        return out_arg(ip, b, mk("lt" if fn == "greater" else "le", D(b.d["x2"]), D(b.d["x1"])), st, node)
    if fn == "square":
        b = B(("x", "out"), args, kw)
        return out_arg(ip, b, mk("pow", D(b.d["x"]), C(2)), st, node)
    if fn == "reciprocal":
        b = B(("x", "out"), args, kw)
        return out_arg(ip, b, mk("div", ONE, D(b.d["x"])), st, node)
    if fn in RED:
        b = B(("a", "axis", "dtype", "out"), args, kw)
        if fn in ("amax", "max", "amin", "min", "all", "any"):
            b = B(("a", "axis", "out"), args, kw)
        if not b.ok or b.has("where") or b.has("initial") or b.has("keepdims") and D(b.d["keepdims"]) is not FALSE:
            return None
        if b.has("dtype"):
            return None
        c = D(b.d["a"])
        if b.has("weights"):
            if fn != "average":
                return None
            w = D(b.d["weights"])
            if b.has("axis"):
                return None
            return out_arg(ip, b, mk("div", mk("np.sum", mk("mul", c, w)), mk("np.sum", w)), st, node)
        op = RED[fn]
        ex = []
        if b.has("axis"):
            ax = ip.canon(D(b.d["axis"]))
            s = ip.shape(c)
            if not (s is not None and len(s) == 1 and is_const(ax) and ax.val in (0, -1)):
                ex.append(ax)
        if b.has("ddof"):
            dd = ip.canon(D(b.d["ddof"]))
            if not (is_const(dd) and dd.val == 0):
                if not ex:
                    ex.append(NONE)
                ex.append(dd)
        r = mk(op, c, *ex)
        if fn == "average" and ex:
            pass
        return out_arg(ip, b, r, st, node)
    return None


def ext_generic(ip, path, args, kw, st, node):
    """Unmodelled external function: a pure uninterpreted term unless it is known to act on its arguments."""
    ip.unmodelled.add(path)
    root = path.split(".")[0]
    if root not in PURE_ROOTS and path not in ("call",):
        ip.event("ext-call", st, node, path=path)
    for k in ("overwrite_x", "overwrite_data", "overwrite_input", "overwrite_a", "overwrite_b", "inplace"):
        if k in kw and args:
            c = ip.deref(kw[k], st)
            if not (is_const(c) and not c.val):
                if ip.isref(args[0]):
                    ip.write_back(args[0], ip.opaque("overwritten"), st, node)
    if kw.get("out") is not None and kw["out"] is not NONE:
        o = kw["out"]
        if ip.isref(o):
            ip.write_back(o, ip.opaque("out"), st, node)
            return o
    cs = [ip.deref(a, st) for a in args]
    ks = tuple((k, ip.deref(v, st)) for k, v in sorted(kw.items()))
    for v in list(args) + list(kw.values()):
        sh = ip.deref_shallow(v, st) if isinstance(v, Node) else v
        if sh.op in ("closure", "func", "bound"):
            # a callback: its effects are not followed
            ip.event("opaque", st, node, why="callback to " + path)
    r = mk("ext:" + path, tuple(cs), ks)
    return ip.box(r, st, node)


# ---------------------------------------------------------------------- plotting and other effects
def plot_call(ip, path, args, kw, st, node):
    cs = tuple(ip.deref(a, st) for a in args)
    ks = tuple((k, ip.deref(v, st)) for k, v in sorted(kw.items()))
    fn = path.split(".")[-1]
    ip.event("plt", st, node, fn=fn, path=path, args=cs, kw=ks, recv=None)
    o = mk("extobj", "plt." + fn, len(ip.events))
    if fn == "subplots":
        return mk("tuple", o, mk("extobj", "plt.axes", len(ip.events)))
    return o


def extmethod(ip, o, name, args, kw, st, node):
    p = o.args[0] if o.op == "extobj" else ""
    if isinstance(p, str) and p.startswith("plt."):
        cs = tuple(ip.deref(a, st) for a in args)
        ks = tuple((k, ip.deref(v, st)) for k, v in sorted(kw.items()))
        ip.event("plt", st, node, fn=name, path=p + "." + name, args=cs, kw=ks, recv=o)
        return mk("extobj", "plt." + name, len(ip.events))
    if of_plot(o):
        return extmethod(ip, mk("extobj", "plt." + str(o.args[1]), len(ip.events)), name, args, kw, st, node)
    if p == "rng":
        return rng_draw(ip, name, args, kw, st, node, gen=o)
    if p == "file":
        ip.event("file", st, node, fn=name)
        return mk("extobj", "file", len(ip.events))
    cs = [o] + [ip.deref(a, st) for a in args]
    if isinstance(p, str) and p.startswith("numpy."):
        return ip.box(mk("ext:" + p + "." + name, tuple(cs), tuple((k, ip.deref(v, st)) for k, v in sorted(kw.items()))),
                      st, node)
    ip.event("ext-call", st, node, path="%s.%s" % (p, name))
    return mk("extobj", "%s.%s" % (p, name), tuple(cs))


def rng_draw(ip, name, args, kw, st, node, gen=None):
    ip.rngcount += 1
    cs = [ip.deref(a, st) for a in args]
    shape = None
    params = ()
    if name in ("rand", "randn"):
        shape = tuple(ip.canon(c) for c in cs)
    elif name in ("random", "random_sample", "standard_normal", "ranf", "sample"):
        b = B(("size",), args, kw)
        shape = shape_arg(ip, b.d["size"], st) if b.has("size") else ()
    elif name in ("uniform", "normal", "randint", "integers", "rayleigh", "exponential", "vonmises", "choice"):
        b = B(("low", "high", "size") if name in ("uniform", "randint", "integers") else
              ("loc", "scale", "size") if name in ("normal", "vonmises") else ("scale", "size"), args,
              {k: v for k, v in kw.items()})
        if b.has("size"):
            shape = shape_arg(ip, b.d["size"], st)
        else:
            shape = ()
        params = tuple(ip.deref(b.d[k], st) for k in sorted(b.d) if k != "size")
        if name == "uniform":
            lo = ip.deref(b.d["low"], st) if b.has("low") else ZERO
            hi = ip.deref(b.d["high"], st) if b.has("high") else ONE
            ip.event("rng", st, node, fn=name, gen=gen, shape=shape)
            r = mk("random", "rand", shape if shape is not None else NONE, ip.rngcount)
            return ip.box(mk("add", lo, mk("mul", mk("sub", hi, lo), r)), st, node)
    ip.event("rng", st, node, fn=name, gen=gen, shape=shape)
    nm = "rand" if name in ("rand", "random", "random_sample", "ranf", "sample") else name
    return ip.box(mk("random", nm, shape if shape is not None else NONE, ip.rngcount, *params), st, node)


# ---------------------------------------------------------------------- methods of arrays, lists, strings, dicts
def method(ip, o, name, args, kw, st, node):
    sh = ip.deref_shallow(o, st)
    D = lambda v: ip.deref(v, st)  # noqa: E731
    if sh.op == "const" and isinstance(sh.val, str) or ip._isstr(sh):
        c = D(o)
        if c.op == "const":
            cs = [D(a) for a in args]
            if name in ("lower", "upper", "strip", "casefold", "capitalize", "title", "startswith", "endswith",
                        "replace", "split", "swapcase", "lstrip", "rstrip", "isdigit", "join") and \
                    all(x.op == "const" for x in cs) and not kw:
                r = getattr(c.val, name)(*[x.val for x in cs])
                if isinstance(r, list):
                    return ip.new_loc(mk("list", *[C(x) for x in r]), st)
                return C(r)
        return mk("strop", C(name), c, *[D(a) for a in args])
    if sh.op in ("list", "lappend") or (sh.op in ("fill", "filtermap", "mu", "rec") and name in
                                        ("append", "extend", "insert")):
        if name == "append":
            if sh.op == "list":
                ip.write_back(o, mk("list", *(sh.args + (args[0],))), st, node)
            else:
                ip.write_back(o, mk("lappend", D(o), D(args[0])), st, node)
            return NONE
        if sh.op == "list":
            if name == "extend":
                seq = ip.iterate(args[0], st, node)
                if seq is not None and seq[0] == "seq":
                    ip.write_back(o, mk("list", *(sh.args + tuple(seq[1]))), st, node)
                    return NONE
            if name == "copy":
                return ip.new_loc(sh, st, "fresh", node)
            if name == "pop":
                k = ip.canon(D(args[0])).val if args else -1
                if isinstance(k, int) and -len(sh.args) <= k < len(sh.args):
                    a = list(sh.args)
                    v = a.pop(k)
                    ip.write_back(o, mk("list", *a), st, node)
                    return v
            if name == "insert" and is_const(ip.canon(D(args[0]))):
                a = list(sh.args)
                a.insert(ip.canon(D(args[0])).val, args[1])
                ip.write_back(o, mk("list", *a), st, node)
                return NONE
            if name == "reverse":
                ip.write_back(o, mk("list", *reversed(sh.args)), st, node)
                return NONE
            if name == "index" and not kw and len(args) == 1:
                return ip.box(mk("first", mk("eq", D(o), D(args[0]))), st, node)
        if name in ("sort", "extend", "insert", "remove", "clear", "pop", "reverse"):
            ip.write_back(o, ip.opaque("list." + name), st, node)
            return NONE if name != "pop" else ip.opaque("list.pop", st, node)
        if name == "index":
            return ip.box(mk("first", mk("eq", D(o), D(args[0]))), st, node)
        if name == "count":
            return mk("np.count", mk("eq", D(o), D(args[0])))
    if sh.op == "tuple" and name in ("index", "count"):
        return ip.box(mk("ext:tuple." + name, (D(o), D(args[0])), ()), st, node)
    if sh.op == "objdict" and args and name in ("get", "setdefault", "pop"):
        k = ip.canon(D(args[0]))
        if k.op == "const" and isinstance(k.val, str):
            ob, at = sh.args[0], st.objs[sh.args[0].args[0]]
            h = ip.has_own(ob, k.val, st)
            r = ip.decide(h, st)
            dflt = args[1] if len(args) > 1 else NONE
            if r is False:
                if name == "setdefault":
                    at[k.val] = dflt
                return dflt
            v = ip.drop_undef(at[k.val])
            if r is None:
                v = ip.join_val(h, v, dflt)
            if name == "setdefault":
                at[k.val] = v
            elif name == "pop":
                at[k.val] = UNDEF
            return v
    if sh.op == "objdict" and name in ("items", "keys", "values", "copy"):
        q = ip.own_items(sh.args[0], st)
        if q is not None:
            if name == "copy":
                return ip.new_loc(mk("dict", tuple(q)), st, "fresh", node)
            return mk("tuple", *[mk("tuple", *kv) if name == "items" else kv[name == "values"] for kv in q])
    if sh.op == "dict":
        if name == "get":
            k = D(args[0])
            dflt = args[1] if len(args) > 1 else NONE
            if k.op == "const" and all(kk.op == "const" for kk, _ in sh.args[0]):
                for kk, v in sh.args[0]:
                    if kk.val == k.val:
                        return v
                return dflt
            r = dflt
            for kk, v in reversed(sh.args[0]):
                r = ip.join_val(mk("eq", k, kk), v, r)
            return r
        if name in ("items", "values", "keys"):
            if name == "keys":
                return mk("tuple", *[k for k, _ in sh.args[0]])
            return mk("iterdesc", name, o)
        if name == "copy":
            return ip.new_loc(sh, st, "fresh", node)
        if name == "update" and len(args) == 1:
            d2 = ip.deref_shallow(args[0], st)
            if d2.op == "dict":
                items = [(k, v) for k, v in sh.args[0] if all(k is not kk for kk, _ in d2.args[0])]
                ip.write_back(o, mk("dict", tuple(items) + d2.args[0]), st, node)
                return NONE
        if name == "setdefault":
            k = D(args[0])
            for kk, v in sh.args[0]:
                if kk is k:
                    return v
            ip.write_back(o, mk("dict", sh.args[0] + ((k, args[1] if len(args) > 1 else NONE),)), st, node)
            return args[1] if len(args) > 1 else NONE
        ip.write_back(o, ip.opaque("dict." + name), st, node)
        return ip.opaque("dict." + name, st, node)
    # arrays
    if name in INPLACE:
        c = D(o)
        if name == "sort":
            new = mk("np.sort", c)
        elif name == "fill":
            new = mk("full_like", c, D(args[0]))
        else:
            new = mk("ext:ndarray." + name, (c,) + tuple(D(a) for a in args), ())
        if ip.isref(o):
            ip.write_back(o, new, st, node)
        return NONE
    if name == "flatten":
        return ip.new_loc(mk("ravel", D(o)), st, "fresh", node)
    if name == "copy":
        return ip.new_loc(D(o), st, "fresh", node)
    if name == "item":
        if args:
            return ip.getitem(o, args[0], st, node)
        return ip.box(mk("item", D(o)), st, node)
    if name == "tolist":
        return ip.box(mk("tolist", D(o)), st, node)
    if name in ("tofile", "dump", "mkdir", "touch", "write_text", "write_bytes", "unlink", "rmdir", "symlink_to", "hardlink_to"):
        ip.event("file", st, node, fn=name)
        return NONE
    if name == "view" and not args:
        return o
    if name == "astype":
        b = B(("dtype", "order", "casting", "subok", "copy"), args, kw)
        return HANDLERS["numpy.astype"](ip, "", [o] + list(args), kw, st, node)
    if name == "is_integer":
        return mk("eq", D(o), mk("round", D(o)))
    m = {"conjugate": "conj", "max": "amax", "min": "amin"}.get(name, name)
    if name in ARRAY_METHODS:
        return call(ip, mk("ext", "numpy." + m), [o] + list(args), kw, st, node)
    c = D(o)
    ip.unmodelled.add("method:" + name)
    if c.op == "opaque" or ip.shape(c) is None:
        ip.event("unknown-call", st, node, fn="." + name)
        lab = ip.label_of(o)
        if lab:
            ip.event("escape", st, node, label=lab[0])
    return ip.box(mk("ext:method." + name, tuple([c] + [D(a) for a in args]),
                     tuple((k, D(v)) for k, v in sorted(kw.items()))), st, node)


INPLACE = {"sort", "fill", "put", "partition", "itemset", "resize", "setfield", "setflags"}
ARRAY_METHODS = {"sum", "mean", "max", "min", "std", "var", "prod", "all", "any", "argmax", "argmin", "argsort",
                 "ravel", "reshape", "transpose", "conj", "conjugate", "cumsum", "cumprod", "nonzero", "clip", "round",
                 "dot", "squeeze", "repeat", "take", "searchsorted", "ptp", "diagonal", "trace", "swapaxes",
                 "compress"}


# ---------------------------------------------------------------------- handlers
HANDLERS = {}


def reg(*paths):
    def deco(f):
        for p in paths:
            HANDLERS[p] = f
        return f
    return deco


def _alloc(op, fillv):
    def h(ip, path, args, kw, st, node):
        b = B(("shape", "dtype", "order"), args, kw)
        if not b.ok:
            return None
        s = shape_arg(ip, b.d["shape"], st)
        if s is None:
            sc = ip.deref(b.d["shape"], st)
            return ip.box(mk("zeros_like", mk("unshape", sc), dt(ip, b.get("dtype"), st)), st, node)
        d = dt(ip, b.get("dtype"), st)
        if op == "zeros":
            return ip.new_loc(mk("zeros", s, d if d is not NONE else C("float")), st, "fresh", node)
        if op == "empty":
            if any(ip.canon(x) is ZERO for x in s):
                return ip.new_loc(mk("zeros", s, d if d is not NONE else C("float")), st, "fresh", node)
            return ip.new_loc(mk("empty", s, d if d is not NONE else C("float")), st, "fresh", node)
        return ip.new_loc(mk("full", s, _cast(ip, fillv, d if d is not NONE else C("float"))), st, "fresh", node)
    return h


def _cast(ip, c, d):
    n = dtname(ip, d) if d is not NONE else None
    if n == "float" and ip.dtype(c) in ("int", "bool"):
        return mk("float", c)
    if n is not None and d is not NONE:
        return mk("astype", c, d)
    return c


reg("numpy.zeros")(_alloc("zeros", ZERO))
reg("numpy.empty", "numpy.ndarray")(_alloc("empty", ZERO))
reg("numpy.ones")(_alloc("full", ONE))


@reg("numpy.full")
def h_full(ip, path, args, kw, st, node):
    b = B(("shape", "fill_value", "dtype"), args, kw)
    s = shape_arg(ip, b.d["shape"], st)
    v = ip.deref(b.d["fill_value"], st)
    if s is None or ip.shape(v) not in ((), None):
        return None
    d = dt(ip, b.get("dtype"), st)
    return ip.new_loc(mk("full", s, _cast(ip, v, d) if d is not NONE else v), st, "fresh", node)


@reg("numpy.zeros_like", "numpy.ones_like", "numpy.empty_like", "numpy.full_like")
def h_like(ip, path, args, kw, st, node):
    full = path.endswith("full_like")
    b = B(("a", "fill_value", "dtype") if full else ("a", "dtype"), args, kw)
    if not b.ok and "shape" in b.d:
        return None
    c = ip.deref(b.d["a"], st)
    d = dt(ip, b.get("dtype"), st)
    s = ip.shape(c)
    if d is NONE:
        d = mk("dtypeof", c)
    n = dtname(ip, d)
    if n is not None and d.op != "const":
        d = C(n)
    v = ZERO if path.endswith("zeros_like") else ONE if path.endswith("ones_like") else None
    if full:
        v = ip.deref(b.d["fill_value"], st)
    if s is None:
        return ip.new_loc(mk("full_like", c, v if v is not None else ZERO, d), st, "fresh", node)
    if v is ZERO and not full:
        return ip.new_loc(mk("zeros", s, d), st, "fresh", node)
    if v is None:
        return ip.new_loc(mk("empty", s, d), st, "fresh", node)
    return ip.new_loc(mk("full", s, _cast(ip, v, d)), st, "fresh", node)


def dyadic(v):
    return not isinstance(v, complex) and v == v and (Fraction(v).denominator & (Fraction(v).denominator - 1)) == 0 and Fraction(v).denominator < 2 ** 20


@reg("numpy.arange", "builtins.range")
def h_arange(ip, path, args, kw, st, node):
    b = B(("start", "stop", "step", "dtype"), args, kw)
    a = [ip.deref(x, st) for x in args]
    if kw and path == "numpy.arange":
        if "stop" in b.d:
            a = [ip.deref(b.get("start", ZERO), st) if "start" in b.d else ZERO, ip.deref(b.d["stop"], st)]
            if "step" in b.d:
                a.append(ip.deref(b.d["step"], st))
        elif "step" in b.d:
            a = [ZERO, ip.deref(b.d["start"], st), ip.deref(b.d["step"], st)]
    a = [x for x in a][:3]
    if len(a) == 1:
        a = [ZERO, a[0]]
    if len(a) == 2:
        a.append(ONE)
    r = mk("np.arange", *a)
    if path == "numpy.arange" and not all(x.op == "const" for x in a) and not (a[2].op == "const" and dyadic(a[2].val)):
        n = ip.ctx.whole(mk("div", mk("sub", a[1], a[0]), a[2]))
        if n is not None:
            ip.event("arange", st, node, n=n, step=a[2])
    d = dt(ip, b.get("dtype"), st)
    if d is not NONE:
        r = mk("astype", r, d)
    return ip.new_loc(r, st, "fresh", node) if path == "numpy.arange" else r


@reg("numpy.linspace")
def h_linspace(ip, path, args, kw, st, node):
    b = B(("start", "stop", "num", "endpoint", "retstep", "dtype"), args, kw)
    if not b.ok or b.has("dtype") or b.has("retstep") and ip.deref(b.d["retstep"], st) is not FALSE:
        return None
    ep = TRUE
    if "endpoint" in b.d:
        ep = ip.truth(b.d["endpoint"], st)
    return ip.new_loc(mk("np.linspace", ip.deref(b.d["start"], st), ip.deref(b.d["stop"], st),
                         ip.deref(b.d["num"], st) if "num" in b.d else C(50), ep), st, "fresh", node)


def _to_array(ip, v, st, copy, d, node):
    """np.array / np.asarray of a value."""
    sh = ip.deref_shallow(v, st)
    c = ip.deref(v, st)
    k = kind_of(ip, v, st)
    fresh = copy or k != "array" or not ip.isref(v)
    if d is not NONE:
        n = dtname(ip, d)
        if n is None or ip.dtype(c) != n or (d.op == "const" and d.val != n):
            return ip.new_loc(mk("astype", c, d), st, "fresh", node)
    if not fresh:
        return v
    if k is None and not copy and ip.isref(v):
        return v
    if k == "scalar":
        return ip.box(c, st, node)
    if k == "list" and sh.op == "sym":
        m = ip.ctx.m(sh, "shape")
        c = mk("fromlist", c)
    if sh.op in ("list", "tuple") and sh.args and ip.dtype(c) in ("float", "int", "complex", "bool"):
        c = mk("astype", c, C(ip.dtype(c)))
    return ip.new_loc(c, st, "fresh", node)


@reg("numpy.array", "numpy.copy", "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray",
     "numpy.asarray_chkfinite", "numpy.asfarray")
def h_array(ip, path, args, kw, st, node):
    b = B(("a", "dtype", "copy", "order", "subok", "ndmin"), args, {("a" if k == "object" else k): v for k, v in kw.items()})
    if path != "numpy.array":
        b = B(("a", "dtype", "order"), args, kw)
    if b.has("ndmin"):
        return None
    copy = path in ("numpy.array", "numpy.copy")
    if "copy" in b.d and path == "numpy.array":
        cv = ip.deref(b.d["copy"], st)
        if is_const(cv) and not cv.val:
            copy = False
    d = dt(ip, b.get("dtype"), st)
    if path == "numpy.asfarray":
        d = C("float")
    return _to_array(ip, b.d["a"], st, copy, d if path != "numpy.copy" else NONE, node)


@reg("numpy.atleast_1d")
def h_atleast(ip, path, args, kw, st, node):
    if len(args) != 1:
        return None
    c = ip.deref(args[0], st)
    s = ip.shape(c)
    if s is None:
        return None
    if s == ():
        return ip.new_loc(mk("list", c), st, "fresh", node)
    return _to_array(ip, args[0], st, False, NONE, node)


@reg("numpy.astype")
def h_astype(ip, path, args, kw, st, node):
    b = B(("x", "dtype", "order", "casting", "subok", "copy"), args, kw)
    c = ip.deref(b.d["x"], st)
    d = dt(ip, b.get("dtype"), st)
    same = dtname(ip, d) is not None and dtname(ip, d) == ip.dtype(c)
    if "copy" in b.d and is_const(ip.deref(b.d["copy"], st)) and not ip.deref(b.d["copy"], st).val and same:
        return b.d["x"]
    r = mk("astype", c, d)
    if ip.shape(c) == ():
        return ip.box(r, st, node)
    return ip.new_loc(r, st, "fresh", node)


@reg("numpy.real")
def h_real(ip, path, args, kw, st, node):
    if ip.isref(args[0]):
        c = ip.deref(args[0], st)
        if ip.shape(c) != ():
            return mk("vfn", args[0], "real")
    return ip.box(mk("real", ip.deref(args[0], st)), st, node)


@reg("numpy.where")
def h_where(ip, path, args, kw, st, node):
    D = lambda v: ip.deref(v, st)  # noqa: E731
    if len(args) == 3:
        c = D(args[0])
        cc = ip.canon(c)
        if not ip.ctx.is_bool(cc):
            c = mk("ne", c, ZERO)
        return ip.box(mk("gamma", c, D(args[1]), D(args[2])), st, node)
    return h_nonzero(ip, path, args, kw, st, node)


@reg("numpy.nonzero")
def h_nonzero(ip, path, args, kw, st, node):
    if len(args) != 1 or kw:
        return None
    c = ip.deref(args[0], st)
    s = ip.shape(c)
    if s is not None and len(s) > 1:
        return mk("tuple", *[ip.box(mk("index", mk("ext:numpy.nonzero", (c,), ()), C(k)), st, node)
                             for k in range(len(s))])
    return mk("tuple", ip.new_loc(mk("nz", _bool(ip, c)), st, "fresh", node))


@reg("numpy.flatnonzero")
def h_flatnonzero(ip, path, args, kw, st, node):
    return ip.new_loc(mk("nz", _bool(ip, ip.deref(args[0], st))), st, "fresh", node)


def _bool(ip, c):
    return c if ip.ctx.is_bool(ip.canon(c)) else mk("ne", c, ZERO)


@reg("numpy.diff")
def h_diff(ip, path, args, kw, st, node):
    b = B(("a", "n", "axis"), args, kw)
    c = ip.deref(b.d["a"], st)
    s = ip.shape(c)
    if "n" in b.d and ip.canon(ip.deref(b.d["n"], st)) is not ONE or len(b.d) > 1 and not (
            s is not None and len(s) == 1 and set(b.d) <= {"a", "n", "axis"}):
        return None
    return ip.new_loc(mk("np.diff", c), st, "fresh", node)


def _unary(op):
    def h(ip, path, args, kw, st, node):
        if len(args) != 1 or kw:
            return None
        return ip.box(mk(op, ip.deref(args[0], st)), st, node)
    return h


for _p, _o in {"numpy.cumsum": "np.cumsum", "scipy.signal.hilbert": "hilbert", "scipy.special.gamma": "gammaf",
               "numpy.emath.sqrt": "csqrt"}.items():
    reg(_p)(_unary(_o))


@reg("numpy.sort", "builtins.sorted")
def h_sort(ip, path, args, kw, st, node):
    kw = dict(kw)
    kw.pop("kind", None)
    rev = kw.pop("reverse", None)
    ax = kw.pop("axis", None)
    if len(args) != 1 or (set(kw) - {"key"}):
        return None
    if kw.get("key") is not None and kw["key"] is not NONE:
        return _sort_by(ip, args[0], kw["key"], rev, st, node)
    c = ip.deref(args[0], st)
    r = mk("np.sort", c)
    if rev is not None:
        t = ip.canon(ip.deref(rev, st))
        if t is TRUE:
            r = mk("flip", r)
        elif t is not FALSE:
            return None
    return ip.new_loc(r, st, "fresh", node)


def _sort_by(ip, x, key, rev, st, node):
    """sorted(x, key=f, reverse=r): the elements of x in the order of a stable argsort of f(x)."""
    seq = ip.iterate(x, st, node)
    if seq is None:
        return None
    if seq[0] == "seq":
        n = C(len(seq[1]))
        X = mk("list", *[ip.deref(v, st) for v in seq[1]])
        K = mk("list", *[ip.deref(ip.call(key, [v], {}, st, node), st) for v in seq[1]])
        ident = False
    else:
        n = seq[1]
        it = mk("iter", ip.loop_depth)
        ip.loop_depth += 1
        try:
            e = ip.deref(seq[2](it, st), st)
            k = ip.deref(ip.call(key, [seq[2](it, st)], {}, st, node), st)
        finally:
            ip.loop_depth -= 1
        ident = e is it
        X, K = mk("fill", mk("list"), it, ZERO, n, e), mk("fill", mk("list"), it, ZERO, n, k)
    if rev is not None:
        t = ip.canon(ip.deref(rev, st))
        if t is TRUE:
            K = mk("neg", K)
        elif t is not FALSE:
            return None
    order = mk("np.argsort", K, C("stable"))
    return ip.new_loc(order if ident else mk("index", X, order), st, "fresh", node)


@reg("numpy.lexsort")
def h_lexsort(ip, path, args, kw, st, node):
    """Last key first; the indices themselves as secondary key: a stable sort of the primary key."""
    if len(args) != 1 or kw:
        return None
    seq = ip.iterate(args[0], st, node)
    if seq is None or seq[0] != "seq" or not 1 <= len(seq[1]) <= 2:
        return None
    ks = [ip.deref(v, st) for v in seq[1]]
    if len(ks) == 2:
        s = ip.shape(ks[1])
        if s is None or len(s) != 1 or ip.canon(ks[0]) is not ip.canon(mk("np.arange", ZERO, s[0], ONE)) and \
                ip.canon(ks[0]) is not ip.canon(mk("np.arange", s[0])):
            return None
    return ip.new_loc(mk("np.argsort", ks[-1], C("stable")), st, "fresh", node)


@reg("numpy.take")
def h_take(ip, path, args, kw, st, node):
    b = B(("a", "indices", "axis", "out", "mode"), args, kw)
    if not b.ok or b.has("out") or b.has("mode"):
        return None
    s = ip.shape(ip.deref(b.d["a"], st))
    if s is None or len(s) != 1:
        return None
    if b.has("axis") and ip.canon(ip.deref(b.d["axis"], st)) not in (ZERO, MINUS1):
        return None
    r = ip.getitem(b.d["a"], b.d["indices"], st, node)
    return ip.new_loc(ip.deref(r, st), st, "fresh", node) if ip.shape(ip.deref(r, st)) else r


@reg("numpy.column_stack", "numpy.vstack", "numpy.stack")
def h_colstack(ip, path, args, kw, st, node):
    """Rows or columns out of a sequence of one-dimensional arrays of one length."""
    b = B(("tup", "axis"), args, {{"arrays": "tup"}.get(k, k): v for k, v in kw.items()})
    if not b.ok:
        return None
    ax = MINUS1 if path.endswith("column_stack") else ZERO
    if b.has("axis"):
        if not path.endswith(".stack"):
            return None
        ax = ip.canon(ip.deref(b.d["axis"], st))
    if ax not in (ZERO, ONE, MINUS1):
        return None
    seq = ip.iterate(b.d["tup"], st, node)
    if seq is None or seq[0] != "seq" or not seq[1]:
        return None
    rows = [ip.deref(v, st) for v in seq[1]]
    shp = [ip.shape(r) for r in rows]
    if any(q is None or len(q) != 1 for q in shp):
        return None
    if any(ip.canon(q[0]) is not ip.canon(shp[0][0]) for q in shp):
        return None
    m = mk("list", *rows)
    return ip.new_loc(m if ax is ZERO else mk("transpose", m), st, "fresh", node)


@reg("numpy.argsort")
def h_argsort(ip, path, args, kw, st, node):
    b = B(("a", "axis", "kind", "order"), args, kw)
    if "stable" in kw:
        b.d["kind"] = C("stable") if ip.deref(kw["stable"], st) is TRUE else NONE
    k = ip.deref(b.get("kind"), st)
    stable = is_const(k) and k.val in ("stable", "mergesort")
    c = ip.deref(b.d["a"], st)
    s = ip.shape(c)
    if "axis" in b.d and not (s is not None and len(s) == 1):
        return None
    return ip.new_loc(mk("np.argsort", c, C("stable" if stable else "quick")), st, "fresh", node)


@reg("numpy.flip", "numpy.flipud")
def h_flip(ip, path, args, kw, st, node):
    b = B(("m", "axis"), args, kw)
    v = b.d["m"]
    c = ip.deref(v, st)
    s = ip.shape(c)
    if s is not None and len(s) > 1 and path == "numpy.flip" and not b.has("axis"):
        return None
    if s is None and b.has("axis"):
        return None
    if ip.isref(v):
        return mk("vfn", v, "flip")
    return ip.box(mk("flip", c), st, node)


@reg("numpy.append")
def h_append(ip, path, args, kw, st, node):
    b = B(("arr", "values", "axis"), args, kw)
    if b.has("axis"):
        return None
    return ip.new_loc(mk("np.append", ip.deref(b.d["arr"], st), ip.deref(b.d["values"], st)), st, "fresh", node)


@reg("numpy.concatenate", "numpy.hstack")
def h_concat(ip, path, args, kw, st, node):
    b = B(("arrays", "axis"), args, kw)
    if b.has("axis") and ip.canon(ip.deref(b.d["axis"], st)) is not ZERO:
        return None
    c = ip.deref(b.d["arrays"], st)
    if c.op not in ("tuple", "list"):
        return None
    shp = [ip.shape(x) for x in c.args]
    if any(s is not None and len(s) > 1 for s in shp):
        return None
    return ip.new_loc(mk("np.concatenate", mk("tuple", *c.args)), st, "fresh", node)


@reg("numpy.delete")
def h_delete(ip, path, args, kw, st, node):
    b = B(("arr", "obj", "axis"), args, kw)
    if b.has("axis"):
        return None
    return ip.new_loc(mk("np.delete", ip.deref(b.d["arr"], st), ip.deref(b.d["obj"], st)), st, "fresh", node)


@reg("numpy.reshape")
def h_reshape(ip, path, args, kw, st, node):
    if "order" in kw:
        return None
    a = list(args)
    v = a[0]
    shp = a[1:] if len(a) > 1 else [kw.get("newshape", kw.get("shape"))]
    if len(shp) == 1:
        s = shape_arg(ip, shp[0], st)
    else:
        s = tuple(ip.canon(ip.deref(x, st)) for x in shp)
    if s is None:
        return None
    c = ip.deref(v, st)
    # resolve -1
    if any(x is MINUS1 for x in s):
        tot = shape_attr(ip, c, "size")
        if tot.op == "sizeof":
            if len(s) == 1:
                return mk("vfn", v, "ravel") if ip.isref(v) else ip.box(mk("ravel", c), st, node)
            return ip.box(mk("ext:numpy.reshape", (c, mk("tuple", *s)), ()), st, node)
        rest = ONE
        for x in s:
            if x is not MINUS1:
                rest = mk("mul", rest, x)
        q = ip.canon(mk("div", tot, rest))
        s = tuple(q if x is MINUS1 else x for x in s)
    if len(s) == 1:
        return mk("vfn", v, "ravel") if ip.isref(v) else ip.box(mk("ravel", c), st, node)
    if ip.isref(v):
        return mk("vfn", v, "reshape", s)
    return ip.box(mk("reshape", c, s), st, node)


@reg("numpy.ravel")
def h_ravel(ip, path, args, kw, st, node):
    if kw:
        return None
    return mk("vfn", args[0], "ravel") if ip.isref(args[0]) else ip.box(mk("ravel", ip.deref(args[0], st)), st, node)


@reg("numpy.squeeze")
def h_squeeze(ip, path, args, kw, st, node):
    c = ip.deref(args[0], st)
    s = ip.shape(c)
    if s is not None and len(s) <= 1 and not (s and s[0] is ONE):
        return args[0]
    return None


@reg("numpy.transpose")
def h_transpose(ip, path, args, kw, st, node):
    if len(args) != 1 or kw:
        return None
    return mk("vfn", args[0], "transpose") if ip.isref(args[0]) else ip.box(mk("transpose", ip.deref(args[0], st)), st, node)


@reg("numpy.clip")
def h_clip(ip, path, args, kw, st, node):
    b = B(("a", "a_min", "a_max", "out"), args, {{"min": "a_min", "max": "a_max"}.get(k, k): v for k, v in kw.items()})
    c = ip.deref(b.d["a"], st)
    if b.has("a_min"):
        c = mk("max2", c, ip.deref(b.d["a_min"], st))
    if b.has("a_max"):
        c = mk("min2", c, ip.deref(b.d["a_max"], st))
    return out_arg(ip, b, c, st, node)


@reg("numpy.round", "numpy.around", "numpy.round_", "builtins.round")
def h_round(ip, path, args, kw, st, node):
    if len(args) > 1 or kw:
        d = args[1] if len(args) > 1 else kw.get("decimals", kw.get("ndigits"))
        if d is None or ip.canon(ip.deref(d, st)) is not ZERO:
            return None
    c = mk("round", ip.deref(args[0], st))
    if path.startswith("builtins") and len(args) == 1:
        c = mk("int", c)
    return ip.box(c, st, node)


@reg("numpy.fft.fft", "numpy.fft.ifft", "numpy.fft.rfft", "numpy.fft.irfft")
def h_fft(ip, path, args, kw, st, node):
    b = B(("a", "n", "axis", "norm"), args, {{"x": "a"}.get(k, k): v for k, v in kw.items()})
    if not b.ok or b.has("norm"):
        return None
    c = ip.deref(b.d["a"], st)
    s = ip.shape(c)
    ex = ()
    if b.has("axis"):
        ax = ip.canon(ip.deref(b.d["axis"], st))
        if not (is_const(ax) and ax.val in (-1, 0) and s is not None and len(s) == 1) and ax is not MINUS1:
            ex = (ax,)
    if b.has("overwrite_x") and ip.isref(b.d["a"]):
        o = ip.deref(b.d["overwrite_x"], st)
        if not (is_const(o) and not o.val):
            ip.write_back(b.d["a"], ip.opaque("overwritten"), st, node)
    return ip.new_loc(mk(path.rsplit(".", 1)[1], c, ip.deref(b.get("n"), st), *ex), st, "fresh", node)


@reg("numpy.fft.fftfreq", "scipy.fft.fftfreq", "numpy.fft.rfftfreq", "scipy.fft.rfftfreq")
def h_fftfreq(ip, path, args, kw, st, node):
    b = B(("n", "d"), args, kw)
    n = ip.deref(b.d["n"], st)
    d = ip.deref(b.d["d"], st) if "d" in b.d else ONE
    if path.endswith("rfftfreq"):
        k = mk("np.arange", ZERO, mk("add", mk("floordiv", n, C(2)), ONE), ONE)
        return ip.new_loc(mk("div", k, mk("mul", n, d)), st, "fresh", node)
    return ip.new_loc(mk("fftfreq", n, d), st, "fresh", node)


@reg("numpy.interp")
def h_interp(ip, path, args, kw, st, node):
    b = B(("x", "xp", "fp", "left", "right", "period"), args, kw)
    if not b.ok or b.has("period"):
        return None
    D = lambda v: ip.deref(v, st)  # noqa: E731
    return ip.box(mk("np.interp", D(b.d["x"]), D(b.d["xp"]), D(b.d["fp"]), D(b.get("left")), D(b.get("right"))), st, node)


@reg("numpy.polyfit")
def h_polyfit(ip, path, args, kw, st, node):
    b = B(("x", "y", "deg"), args, kw)
    if not b.ok or len(b.d) != 3:
        return None
    return ip.new_loc(mk("np.polyfit", *[ip.deref(b.d[k], st) for k in ("x", "y", "deg")]), st, "fresh", node)


@reg("scipy.integrate.simpson", "scipy.integrate.trapezoid")
def h_simpson(ip, path, args, kw, st, node):
    b = B(("y", "x", "dx", "axis"), args, kw)
    if not b.ok:
        return None
    y = ip.deref(b.d["y"], st)
    s = ip.shape(y)
    ex = ()
    if b.has("axis"):
        ax = ip.canon(ip.deref(b.d["axis"], st))
        if not (ax is MINUS1 or (s is not None and len(s) == 1)):
            ex = (ax,)
    op = path.rsplit(".", 1)[1]
    return ip.box(mk(op, y, ip.deref(b.get("x"), st), ip.deref(b.d["dx"], st) if "dx" in b.d else ONE, *ex), st, node)


@reg("scipy.signal.welch")
def h_welch(ip, path, args, kw, st, node):
    names = ("x", "fs", "window", "nperseg", "noverlap", "nfft", "detrend", "return_onesided", "scaling", "axis",
             "average")
    d = {"fs": C(1.0), "window": C("hann"), "nperseg": NONE, "noverlap": NONE, "nfft": NONE, "detrend": C("constant"),
         "return_onesided": TRUE, "scaling": C("density"), "axis": MINUS1, "average": C("mean")}
    b = B(names, args, kw)
    if not b.ok:
        return None
    vals = [ip.deref(b.d[n], st) if n in b.d else d[n] for n in names]
    n = mk("welch", *vals)
    ip.keepcalls.append(("scipy.signal.welch", dict(zip(names, vals)), tuple(st.pc), ip.where(node)))
    return mk("tuple", ip.new_loc(mk("index", n, ZERO), st, "fresh", node),
              ip.new_loc(mk("index", n, ONE), st, "fresh", node))


@reg("scipy.special.gammainc", "scipy.special.gammaincc")
def h_gammainc(ip, path, args, kw, st, node):
    if len(args) != 2:
        return None
    r = mk("gammainc", ip.deref(args[0], st), ip.deref(args[1], st))
    if path.endswith("cc"):
        r = mk("sub", ONE, r)
    return ip.box(r, st, node)


@reg("scipy.stats.rayleigh.ppf")
def h_rayleigh(ip, path, args, kw, st, node):
    b = B(("q", "loc", "scale"), args, kw)
    D = lambda v: ip.deref(v, st)  # noqa: E731
    q = D(b.d["q"])
    sc = D(b.d["scale"]) if "scale" in b.d else ONE
    loc = D(b.d["loc"]) if "loc" in b.d else ZERO
    # quantile of the Rayleigh distribution: scale * sqrt(-2 log(1-q))
    return ip.box(mk("add", loc, mk("mul", sc, mk("sqrt", mk("mul", C(-2), mk("log", mk("sub", ONE, q)))))), st, node)


@reg("scipy.stats.exponweib.ppf")
def h_exponweib(ip, path, args, kw, st, node):
    b = B(("q", "a", "c", "loc", "scale"), args, kw)
    D = lambda v: ip.deref(v, st)  # noqa: E731
    if not b.ok:
        return None
    return ip.box(mk("ext:exponweib.ppf", D(b.d["q"]), D(b.d["a"]), D(b.d["c"]), D(b.d["loc"]) if "loc" in b.d else ZERO,
                     D(b.d["scale"]) if "scale" in b.d else ONE), st, node)


@reg("numpy.isclose", "math.isclose")
def h_isclose(ip, path, args, kw, st, node):
    return ip.box(mk("ext:" + path, tuple(ip.deref(a, st) for a in args),
                     tuple((k, ip.deref(v, st)) for k, v in sorted(kw.items()))), st, node)


@reg("numpy.dot", "numpy.inner", "numpy.vdot", "numpy.matmul")
def h_dot(ip, path, args, kw, st, node):
    if len(args) != 2 or kw:
        return None
    a, b = ip.deref(args[0], st), ip.deref(args[1], st)
    sa, sb = ip.shape(a), ip.shape(b)
    if sa is not None and sb is not None and len(sa) == 1 and len(sb) == 1:
        return ip.box(mk("np.sum", mk("mul", mk("conj", a) if path.endswith("vdot") else a, b)), st, node)
    return None


# effects on arguments
@reg("numpy.random.shuffle", "numpy.put", "numpy.place", "numpy.putmask", "numpy.copyto", "numpy.fill_diagonal",
     "numpy.add.at", "numpy.subtract.at", "numpy.put_along_axis", "numpy.multiply.at", "heapq.heapify",
     "random.shuffle")
def h_mut(ip, path, args, kw, st, node):
    v = args[0] if args else list(kw.values())[0]
    c = ip.deref(v, st)
    cs = [ip.deref(a, st) for a in args[1:]]
    if path == "numpy.copyto" and not kw:
        new = mk("store", c, mk("slice", NONE, NONE, NONE), cs[0])
    elif path == "numpy.putmask" and ip.shape(cs[1]) == ():
        new = mk("store", c, cs[0], cs[1])
    elif path == "numpy.place" and ip.shape(cs[1]) == ():
        new = mk("store", c, cs[0], cs[1])
    else:
        new = ip.opaque(path)
    if "random" in path:
        ip.event("rng", st, node, fn=path, gen=None, shape=None)
    if ip.isref(v):
        ip.write_back(v, new, st, node)
    return NONE


@reg("numpy.nan_to_num")
def h_nan_to_num(ip, path, args, kw, st, node):
    b = B(("x", "copy", "nan", "posinf", "neginf"), args, kw)
    c = ip.deref(b.d["x"], st)
    r = mk("np.nan_to_num", c, ip.deref(b.d["nan"], st) if "nan" in b.d else ZERO)
    cp = ip.deref(b.d["copy"], st) if "copy" in b.d else TRUE
    if is_const(cp) and not cp.val and ip.isref(b.d["x"]):
        ip.write_back(b.d["x"], r, st, node)
        return b.d["x"]
    return ip.box(r, st, node)


@reg("copy.deepcopy", "copy.copy")
def h_copy(ip, path, args, kw, st, node):
    return deepcopy(ip, args[0], st, node, {})


def deepcopy(ip, v, st, node, memo):
    if v.nid in memo:
        return memo[v.nid]
    if v.op == "obj":
        o = ip.new_obj(ip.objcls[v.args[0]], st)
        memo[v.nid] = o
        for k, x in list(st.objs[v.args[0]].items()):
            st.objs[o.args[0]][k] = deepcopy(ip, x, st, node, memo)
        return o
    if ip.isref(v):
        sh = ip.deref_shallow(v, st)
        if sh.op == "list":
            return ip.new_loc(mk("list", *[deepcopy(ip, x, st, node, memo) for x in sh.args]), st, "fresh", node)
        if sh.op == "dict":
            return ip.new_loc(mk("dict", tuple((k, deepcopy(ip, x, st, node, memo)) for k, x in sh.args[0])), st,
                              "fresh", node)
        r = ip.new_loc(ip.deref(v, st), st, "fresh", node)
        memo[v.nid] = r
        return r
    if v.op == "tuple":
        return mk("tuple", *[deepcopy(ip, x, st, node, memo) for x in v.args])
    return v


# shape queries and type queries
@reg("numpy.size", "numpy.shape", "numpy.ndim")
def h_size(ip, path, args, kw, st, node):
    if len(args) != 1:
        b = B(("a", "axis"), args, kw)
        s = ip.shape(ip.deref(b.d["a"], st))
        ax = ip.canon(ip.deref(b.get("axis"), st))
        if path == "numpy.size" and s is not None and is_const(ax) and isinstance(ax.val, int):
            return s[ax.val]
        return None
    return shape_attr(ip, ip.deref(args[0], st), path.split(".")[1])


@reg("numpy.result_type", "numpy.promote_types", "numpy.find_common_type")
def h_rt(ip, path, args, kw, st, node):
    out = []
    for a in args:
        if a.op == "ext":
            out.append(C(DT.get(a.args[0], a.args[0])))
        else:
            c = ip.deref(a, st)
            out.append(C(DTS.get(c.val, c.val)) if c.op == "const" and isinstance(c.val, str) else c)
    r = mk("resulttype", *out)
    n = ip.ctx.dtypeval(mk("resulttype", *[x if x.op in ("const", "dtypeof", "resulttype") else ip.canon(x) for x in out]))
    return C(n) if n else r


@reg("numpy.dtype")
def h_dtype(ip, path, args, kw, st, node):
    return dt(ip, args[0], st)


@reg("numpy.issubdtype")
def h_issub(ip, path, args, kw, st, node):
    a = dt(ip, args[0], st)
    n = dtname(ip, a)
    t = args[1].args[0] if args[1].op == "ext" else None
    if n is None or t is None:
        return None
    fam = {"numpy.integer": ("int",), "numpy.signedinteger": ("int",), "numpy.floating": ("float",),
           "numpy.inexact": ("float", "complex"), "numpy.complexfloating": ("complex",),
           "numpy.number": ("int", "float", "complex"), "numpy.bool_": ("bool",), "builtins.float": ("float",),
           "numpy.float64": ("float",), "builtins.int": ("int",)}.get(t)
    return C(n in fam) if fam else None


@reg("numpy.iscomplexobj", "numpy.isrealobj")
def h_iscplx(ip, path, args, kw, st, node):
    d = ip.dtype(ip.deref(args[0], st))
    if d is None:
        return None
    return C((d == "complex") == path.endswith("iscomplexobj"))


@reg("numpy.isscalar")
def h_isscalar(ip, path, args, kw, st, node):
    k = kind_of(ip, args[0], st)
    return C(k in ("scalar", "str")) if k else None


# builtins
@reg("builtins.len")
def b_len(ip, path, args, kw, st, node):
    v = args[0]
    sh = ip.deref_shallow(v, st)
    if sh.op in ("list", "tuple"):
        return C(len(sh.args))
    if sh.op == "dict":
        return C(len(sh.args[0]))
    if sh.op == "const" and isinstance(sh.val, str):
        return C(len(sh.val))
    if sh.op == "obj":
        f = ip.find_method(ip.objcls[sh.args[0]], "__len__")
        if f:
            return ip.call_func(f, sh, [], {}, st, node)
    c = ip.deref(v, st)
    s = ip.shape(c)
    if s:
        return s[0]
    return mk("len", c)


@reg("builtins.sum")
def b_sum(ip, path, args, kw, st, node):
    b = B(("x", "start"), args, kw)
    v = b.d["x"]
    start = ip.deref(b.d["start"], st) if "start" in b.d else ZERO
    seq = None
    sh = ip.deref_shallow(v, st)
    if v.op == "iterdesc" or sh.op in ("list", "tuple"):
        seq = ip.iterate(v, st, node)
    if seq is not None and seq[0] == "seq":
        r = start
        for x in seq[1]:
            r = ip.deref(x, st) if r is ZERO else mk("add", r, ip.deref(x, st))
        return ip.box(r, st, node)
    if seq is not None:
        it = mk("iter", 90)
        return ip.box(mk("add", start, mk("sumover", it, ZERO, seq[1], ip.deref(seq[2](it, st), st))), st, node)
    c = ip.deref(v, st)
    s = ip.shape(c)
    if s is not None and len(s) > 1:
        r = mk("np.sum", c, ZERO)
    else:
        r = mk("np.sum", c)
    if start is not ZERO:
        r = mk("add", start, r)
    return ip.box(r, st, node)


@reg("builtins.max", "builtins.min")
def b_max(ip, path, args, kw, st, node):
    op2, op1 = ("max2", "np.amax") if path.endswith("max") else ("min2", "np.amin")
    if kw.get("key") is not None and kw["key"] is not NONE:
        return None
    if len(args) == 1:
        sh = ip.deref_shallow(args[0], st)
        if args[0].op == "iterdesc":
            seq = ip.iterate(args[0], st, node)
            if seq is None:
                return None
            if seq[0] == "seq":
                args = seq[1]
            else:
                it = mk("iter", 90)
                return ip.box(mk(op1, mk("fill", mk("list"), it, ZERO, seq[1], ip.deref(seq[2](it, st), st))), st, node)
        elif sh.op in ("list", "tuple"):
            if not sh.args:
                if "default" in kw:
                    return kw["default"]
                ip.event("raise", st, node, exc="ValueError")
                from .interp import Dead
                ip.die("raise", st)
                raise Dead()
            args = list(sh.args)
        else:
            c = ip.deref(args[0], st)
            r = mk(op1, c)
            if "default" in kw:
                r = mk("gamma", mk("lt", ZERO, shape_attr(ip, c, "size")), r, ip.deref(kw["default"], st))
            return ip.box(r, st, node)
    r = ip.deref(args[0], st)
    for x in args[1:]:
        r = mk(op2, r, ip.deref(x, st))
    return ip.box(r, st, node)


@reg("builtins.abs")
def b_abs(ip, path, args, kw, st, node):
    return ip.box(mk("abs", ip.deref(args[0], st)), st, node)


@reg("builtins.pow")
def b_pow(ip, path, args, kw, st, node):
    return ip.box(mk("pow", ip.deref(args[0], st), ip.deref(args[1], st)), st, node)


@reg("builtins.int", "builtins.float", "builtins.complex", "numpy.float64", "numpy.int64", "numpy.int_",
     "numpy.complex128", "numpy.double", "numpy.intp")
def b_num(ip, path, args, kw, st, node):
    if not args:
        return ZERO
    c = ip.deref(args[0], st)
    s = ip.shape(c)
    n = DT[path]
    if s is not None and s != ():
        if path.startswith("numpy"):
            return ip.box(mk("astype", c, C(n)), st, node)
        c = mk("item", c)
    if n == "complex":
        if len(args) == 2:
            return mk("add", c, mk("mul", C(1j), ip.deref(args[1], st)))
        return c
    if c.op == "const" and isinstance(c.val, str):
        try:
            return C(float(c.val) if n == "float" else int(c.val))
        except ValueError:
            return ip.opaque("number")
    if c.op == "const" and n == "int" and isinstance(c.val, (int, float)):
        return C(int(c.val))
    return mk(n, c)


@reg("numpy.float32", "numpy.single", "numpy.float16", "numpy.half", "numpy.int32", "numpy.int16", "numpy.int8", "numpy.complex64", "numpy.csingle")
def b_narrow(ip, path, args, kw, st, node):
    n = DT.get(path) or dtname(ip, C(path.rsplit(".", 1)[1]))
    if not args or n is None:
        return ip.opaque("number")
    return ip.box(mk("astype", ip.deref(args[0], st), C(n)), st, node)


@reg("builtins.bool", "numpy.bool_")
def b_bool(ip, path, args, kw, st, node):
    if not args:
        return FALSE
    return ip.truth(args[0], st)


@reg("builtins.isinstance")
def b_isinstance(ip, path, args, kw, st, node):
    return isinstance_(ip, args[0], args[1], st)


@reg("builtins.issubclass")
def b_issubclass(ip, path, args, kw, st, node):
    return None


@reg("builtins.hasattr")
def b_hasattr(ip, path, args, kw, st, node):
    n = ip.deref(args[1], st)
    if n.op != "const":
        return None
    sh = ip.deref_shallow(args[0], st)
    if sh.op != "obj":
        k = kind_of(ip, args[0], st)
        if k in ("array", "scalar", "list", "tuple", "str", "none"):
            import math  # noqa: F401
            names = {"array": {"shape", "dtype", "size", "ndim", "T", "__len__", "__iter__", "flatten", "ravel",
                               "__array__", "astype", "copy", "real", "imag", "tolist"},
                     "scalar": {"real", "imag"}, "list": {"__len__", "__iter__", "append", "copy"},
                     "tuple": {"__len__", "__iter__"}, "str": {"__len__", "__iter__", "lower"}, "none": set()}[k]
            if n.val in ("shape", "__len__", "__iter__", "dtype", "size", "ndim", "__array__", "append"):
                return C(n.val in names)
            return mk("hasattr", ip.deref(args[0], st), n)
    return ip.hasattr_(sh, n.val, st)


@reg("builtins.vars")
def b_vars(ip, path, args, kw, st, node):
    sh = ip.deref_shallow(args[0], st) if len(args) == 1 else None
    if sh is not None and sh.op == "obj":
        return mk("objdict", sh)
    return None


@reg("builtins.getattr")
def b_getattr(ip, path, args, kw, st, node):
    n = ip.deref(args[1], st)
    if n.op != "const":
        return None
    if len(args) == 3:
        sh = ip.deref_shallow(args[0], st)
        h = ip.hasattr_(sh, n.val, st) if sh.op == "obj" else mk("hasattr", ip.deref(args[0], st), n)
        r = ip.decide(h, st)
        if r is True:
            return ip.getattr(args[0], n.val, st, node)
        if r is False:
            return args[2]
        nev = len(ip.events)
        a = ip.getattr(args[0], n.val, st, node)
        del ip.events[nev:]
        return ip.join_val(h, a, args[2])
    return ip.getattr(args[0], n.val, st, node)


@reg("builtins.setattr")
def b_setattr(ip, path, args, kw, st, node):
    n = ip.deref(args[1], st)
    if n.op != "const":
        ip.event("opaque", st, node, why="setattr")
        return NONE
    ip.setattr(args[0], n.val, args[2], st, node)
    return NONE


@reg("builtins.enumerate")
def b_enum(ip, path, args, kw, st, node):
    start = args[1] if len(args) > 1 else kw.get("start", ZERO)
    return mk("iterdesc", "enumerate", args[0], ip.deref(start, st))


@reg("builtins.zip")
def b_zip(ip, path, args, kw, st, node):
    return mk("iterdesc", "zip", *args)


@reg("builtins.slice", "numpy.s_")
def b_slice(ip, path, args, kw, st, node):
    a = [ip.deref(x, st) for x in args]
    if len(a) == 1:
        a = [NONE, a[0], NONE]
    elif len(a) == 2:
        a = a + [NONE]
    return mk("slice", *a) if len(a) == 3 else None


@reg("builtins.reversed")
def b_rev(ip, path, args, kw, st, node):
    return mk("iterdesc", "reversed", args[0])


@reg("builtins.map")
def b_map(ip, path, args, kw, st, node):
    return mk("iterdesc", "map", *args)


@reg("builtins.iter")
def b_iter(ip, path, args, kw, st, node):
    return args[0]


@reg("builtins.list", "builtins.tuple", "builtins.set", "builtins.frozenset")
def b_list(ip, path, args, kw, st, node):
    t = "tuple" if path.endswith("tuple") else "list"
    if not args:
        return ip.new_loc(mk("list"), st, "fresh", node) if t == "list" else mk("tuple")
    sh = ip.deref_shallow(args[0], st)
    if args[0].op == "iterdesc" or sh.op in ("list", "tuple", "dict", "np.arange"):
        seq = ip.iterate(args[0], st, node)
        if seq is not None and seq[0] == "seq":
            r = mk(t, *seq[1])
            return ip.new_loc(r, st, "fresh", node) if t == "list" else r
        if seq is not None:
            it = mk("iter", 91)
            return ip.new_loc(mk("fill", mk("list"), it, ZERO, seq[1], ip.deref(seq[2](it, st), st)), st, "fresh", node)
        return None
    return ip.new_loc(ip.deref(args[0], st), st, "fresh", node)


@reg("builtins.dict", "collections.OrderedDict")
def b_dict(ip, path, args, kw, st, node):
    items = []
    if args:
        d = ip.deref_shallow(args[0], st)
        if d.op == "dict":
            items = list(d.args[0])
        else:
            return None
    items += [(C(k), v) for k, v in kw.items()]
    return ip.new_loc(mk("dict", tuple(items)), st, "fresh", node)


@reg("builtins.all", "builtins.any")
def b_all(ip, path, args, kw, st, node):
    op = "np.all" if path.endswith("all") else "np.any"
    sh = ip.deref_shallow(args[0], st)
    if args[0].op == "iterdesc" or sh.op in ("list", "tuple"):
        seq = ip.iterate(args[0], st, node)
        if seq is not None and seq[0] == "seq":
            r = TRUE if op == "np.all" else FALSE
            for x in seq[1]:
                t = ip.truth(x, st)
                if t is (TRUE if op == "np.all" else FALSE):
                    continue
                if t is (FALSE if op == "np.all" else TRUE):
                    return t
                r = t if r.op == "const" else mk("and" if op == "np.all" else "or", r, t)
            return r
    c = ip.deref(args[0], st)
    if c.op == "fill" and c.args[0].op == "list":
        _, it, lo, hi, e = c.args
        e = _bool(ip, e)
        r = mk("exists", it, lo, hi, e if op == "np.any" else mk("not", e))
        return r if op == "np.any" else mk("not", r)
    return mk(op, _bool(ip, c) if not ip.ctx.is_bool(ip.canon(c)) else c)


@reg("builtins.print")
def b_print(ip, path, args, kw, st, node):
    ip.event("print", st, node)
    return NONE


@reg("builtins.open", "io.open")
def b_open(ip, path, args, kw, st, node):
    ip.event("file", st, node, fn="open")
    return mk("extobj", "file", len(ip.events))


@reg("numpy.save", "numpy.savez", "numpy.savetxt", "numpy.savez_compressed", "pickle.dump", "json.dump", "os.remove",
     "os.makedirs", "os.mkdir", "os.rename", "os.unlink", "shutil.rmtree", "shutil.copy", "os.system",
     "subprocess.run", "subprocess.Popen", "shutil.move")
def h_file(ip, path, args, kw, st, node):
    ip.event("file", st, node, fn=path)
    return NONE


@reg("sys.stdout.write", "sys.stderr.write", "sys.stdout.flush")
def h_stdout(ip, path, args, kw, st, node):
    ip.event("print", st, node)
    return NONE


@reg("numpy.seterr", "numpy.set_printoptions", "warnings.simplefilter", "warnings.filterwarnings",
     "os.environ.update", "os.chdir", "locale.setlocale", "random.seed", "numpy.seterrcall", "os.putenv",
     "warnings.resetwarnings", "sys.setrecursionlimit", "numpy.random.set_state", "numpy.setbufsize", "gc.disable", "gc.enable",
     "gc.collect", "signal.signal", "faulthandler.enable", "decimal.setcontext", "sys.setswitchinterval", "os.umask", "time.tzset")
def h_glob(ip, path, args, kw, st, node):
    ip.event("global-write", st, node, name=path)
    return NONE


@reg("builtins.id")
def h_id(ip, path, args, kw, st, node):
    """Identity: one number per object or location."""
    v = args[0]
    if v.op in ("obj", "ref"):
        return C((1 if v.op == "obj" else 2) * 1000003 + 16 * v.args[0])
    return mk("opaque", "id", "", v.nid)


@reg("warnings.warn")
def h_warn(ip, path, args, kw, st, node):
    c = None
    cat = kw.get("category") or (args[1] if len(args) > 1 else None)
    ip.event("warn", st, node, cat=show(cat) if cat is not None else "")
    return NONE


@reg("warnings.catch_warnings", "numpy.errstate", "contextlib.suppress", "contextlib.nullcontext",
     "numpy.printoptions")
def h_ctxm(ip, path, args, kw, st, node):
    return mk("extobj", path)


@reg("builtins.UserWarning", "builtins.ValueError", "builtins.Exception", "builtins.TypeError",
     "builtins.RuntimeError", "builtins.DeprecationWarning", "builtins.RuntimeWarning", "builtins.KeyError",
     "builtins.AssertionError", "builtins.IndexError", "builtins.NotImplementedError")
def h_exc(ip, path, args, kw, st, node):
    return mk("extobj", path)


@reg("numpy.random.seed")
def h_seed(ip, path, args, kw, st, node):
    a = ip.deref(args[0], st) if args else (ip.deref(kw["seed"], st) if "seed" in kw else NONE)
    ip.event("seed", st, node, arg=a, gen=None)
    return NONE


@reg("numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator", "numpy.random.PCG64",
     "random.Random")
def h_rng(ip, path, args, kw, st, node):
    a = ip.deref(args[0], st) if args else (ip.deref(kw["seed"], st) if "seed" in kw else NONE)
    ip.rngcount += 1
    o = mk("extobj", "rng", a, ip.rngcount)
    ip.event("seed", st, node, arg=a, gen=o)
    return o


def _rng(name):
    def h(ip, path, args, kw, st, node):
        return rng_draw(ip, name, args, kw, st, node)
    return h


for _n in ("rand", "randn", "random", "random_sample", "uniform", "normal", "randint", "standard_normal", "choice",
           "rayleigh", "exponential", "permutation", "ranf", "sample", "vonmises"):
    reg("numpy.random." + _n)(_rng(_n))
for _n in ("random", "uniform", "gauss", "normalvariate", "randint", "choice"):
    reg("random." + _n)(_rng(_n))


@reg("functools.partial")
def h_partial(ip, path, args, kw, st, node):
    return mk("partial", args[0], tuple(args[1:]), tuple(sorted(kw.items())))


@reg("functools.reduce")
def h_reduce(ip, path, args, kw, st, node):
    seq = ip.iterate(args[1], st, node)
    if seq is None or seq[0] != "seq":
        return None
    xs = list(seq[1])
    r = args[2] if len(args) > 2 else xs.pop(0)
    for x in xs:
        r = ip.call(args[0], [r, x], {}, st, node)
    return r


@reg("builtins.type")
def b_type(ip, path, args, kw, st, node):
    if len(args) == 1 and args[0].op == "obj":
        return mk("cls", *ip.objcls[args[0].args[0]])
    return None


@reg("builtins.super")
def b_super(ip, path, args, kw, st, node):
    return None


@reg("builtins.callable")
def b_callable(ip, path, args, kw, st, node):
    sh = ip.deref_shallow(args[0], st)
    return C(sh.op in ("func", "closure", "bound", "cls", "ext", "partial"))


@reg("builtins.str", "builtins.repr", "builtins.format")
def b_str(ip, path, args, kw, st, node):
    c = ip.deref(args[0], st) if args else C("")
    if c.op == "const":
        return C(str(c.val))
    return mk("strop", C("str"), c)


@reg("builtins.divmod")
def b_divmod(ip, path, args, kw, st, node):
    a, b = ip.deref(args[0], st), ip.deref(args[1], st)
    return mk("tuple", mk("floordiv", a, b), mk("mod", a, b))


@reg("numpy.divmod")
def n_divmod(ip, path, args, kw, st, node):
    return b_divmod(ip, path, args, kw, st, node)


@reg("numpy.modf", "math.modf")
def n_modf(ip, path, args, kw, st, node):
    a = ip.deref(args[0], st)
    return mk("tuple", ip.box(mk("sub", a, mk("trunc", a)), st), ip.box(mk("trunc", a), st))


@reg("numpy.finfo")
def h_finfo(ip, path, args, kw, st, node):
    return mk("extobj", "numpy.finfo")


@reg("numpy.array_equal")
def h_array_equal(ip, path, args, kw, st, node):
    if len(args) != 2 or kw:
        return None
    a, b = ip.deref(args[0], st), ip.deref(args[1], st)
    return mk("np.all", mk("eq", a, b)) if ip.shape(a) == ip.shape(b) and ip.shape(a) else None


@reg("numpy.heaviside")
def h_heaviside(ip, path, args, kw, st, node):
    x, h0 = ip.deref(args[0], st), ip.deref(args[1], st)
    return ip.box(mk("gamma", mk("lt", x, ZERO), ZERO, mk("gamma", mk("eq", x, ZERO), h0, ONE)), st, node)


@reg("operator.itemgetter", "operator.attrgetter")
def h_itemgetter(ip, path, args, kw, st, node):
    return None


@reg("numpy.sum", "numpy.add.reduce")
def h_npsum(ip, path, args, kw, st, node):
    return ufunc(ip, "numpy", "sum", args, kw, st, node)


@reg("numpy.maximum.reduce")
def h_maxred(ip, path, args, kw, st, node):
    return ufunc(ip, "numpy", "amax", args, kw, st, node)


@reg("numpy.minimum.reduce")
def h_minred(ip, path, args, kw, st, node):
    return ufunc(ip, "numpy", "amin", args, kw, st, node)


@reg("math.isnan", "math.isinf", "math.isfinite")
def m_isx(ip, path, args, kw, st, node):
    return mk(path[5:], ip.deref(args[0], st))


@reg("math.log")
def m_log(ip, path, args, kw, st, node):
    x = ip.deref(args[0], st)
    if len(args) == 2:
        return mk("div", mk("log", x), mk("log", ip.deref(args[1], st)))
    return mk("log", x)


@reg("math.prod")
def m_prod(ip, path, args, kw, st, node):
    return ip.box(mk("np.prod", ip.deref(args[0], st)), st, node)


@reg("numpy.ix_", "numpy.r_", "numpy.c_")
def h_none(ip, path, args, kw, st, node):
    return None
