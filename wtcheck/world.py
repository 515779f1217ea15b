"""A hypothesis (declared inputs) together with an abstract interpreter run."""
from __future__ import annotations

import ast
import os
import sys

from . import pkg as pkgmod
from .ctx import Context
from .interp import Dead, Frame, Interp, State, Unsupported
from .ir import C, NONE, Node, mk

sys.setrecursionlimit(20000)
REPO = os.environ.get("WTCHECK_REPO", "/repo")
_PKG = {}


def package(root=None):
    root = root or REPO
    p = _PKG.get(root)
    if p is None:
        p = pkgmod.Package(root)
        d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "specs")
        for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            if f.endswith(".py"):
                path = os.path.join(d, f)
                with open(path) as fh:
                    tree = ast.parse(fh.read(), path)
                if f == "forms.py":  # the same definitions, some of them in computational form
                    with open(os.path.join(d, "ref.py")) as fh:
                        tree.body = ast.parse(fh.read(), path).body + tree.body
                p.add(pkgmod.ModuleInfo("wtspec." + f[:-3], "wtspec/" + f, tree, False))
        _PKG[root] = p
    return p


class Missing(Exception):
    """A public entry point named by a property no longer exists."""


def lit(v):
    if isinstance(v, Node):
        return v
    if isinstance(v, (tuple,)):
        return mk("tuple", *[lit(x) for x in v])
    return C(v)


class World:
    def __init__(self, pkg=None, keep=(), ctx=None):
        self.pkg = pkg or package()
        self.ctx = ctx or Context()
        self.ip = Interp(self.pkg, self.ctx, keep)
        self.st = State()
        anym = next(iter(self.pkg.modules.values()))
        self.fr = Frame(anym, "<check>")
        self.args = {}
        self.argcontent = {}
        self.failed = None
        self.forms = False

    # ---- inputs
    def sym(self, name, **kw):
        return self.ctx.declare(name, **kw)

    def int(self, name, lo=None, **kw):
        if lo is not None:
            kw["lo"] = lo
        return self.ctx.declare(name, int=True, shape=(), dtype="int", **kw)

    def num(self, name, **kw):
        kw.setdefault("dtype", "float")
        return self.ctx.declare(name, shape=(), **kw)

    def arr(self, name, shape, dtype="float", **kw):
        """A caller-owned array: declared symbol in its own location, labelled with its origin."""
        shape = tuple(lit(s) for s in shape)
        self.ctx.declare(name, shape=shape, dtype=dtype, **kw)
        v = self.ip.arg(self.st, name)
        self.args[name] = v
        return v

    @property
    def orig(self):
        """Content of every caller-owned location before any call."""
        out = {}
        for n, v in self.args.items():
            out[v.args[0]] = self.argcontent.get(v.args[0], mk("sym", self.labels_name(v.args[0])))
        return out

    def labels_name(self, loc):
        lab = self.ip.labels.get(loc, ("", None))[0]
        return lab[4:] if lab.startswith("arg:") else None

    def lst(self, name, items):
        v = self.ip.new_loc(mk("list", *[lit(x) for x in items]), self.st, "arg:" + name)
        self.args[name] = v
        self.argcontent[v.args[0]] = self.st.heap[v.args[0]]
        return v

    def box(self, content, label="fresh"):
        return self.ip.new_loc(content, self.st, label)

    # ---- running
    def fn(self, dotted):
        if self.forms and dotted.startswith("ref:"):
            dotted = "forms:" + dotted[4:]
        m, qual = self.pkg.find(dotted)
        if m is None:
            raise Missing(dotted)
        r = self.pkg.lookup_def(m, qual)
        if r is None:
            # an alias, a partial or a decorated value
            fr = Frame(m, "<check>")
            head = qual.split(".")[0]
            v = self.ip.from_import(m.name, head) if head in m.assigns or head in m.imports else None
            if v is None or v.op == "opaque":
                raise Missing(dotted)
            return v
        mm, d, q = r
        if isinstance(d, ast.ClassDef):
            return mk("cls", mm.name, q)
        return self.ip.def_value(mm, d, q) if hasattr(self.ip, "def_value") and d.decorator_list else mk("func", mm.name, q)

    def call(self, dotted, *args, **kw):
        f = dotted if isinstance(dotted, Node) else self.fn(dotted)
        self.ip.curfr = self.fr
        self.st.env = {}
        self.st.path = self.st.lpath = ()
        return self.ip.call(f, [lit(a) for a in args], {k: lit(v) for k, v in kw.items()}, self.st, None)

    def method(self, obj, name, *args, **kw):
        self.ip.curfr = self.fr
        f = self.ip.getattr(obj, name, self.st, None)
        return self.call(f, *args, **kw)

    def attr(self, obj, name):
        self.ip.curfr = self.fr
        return self.ip.getattr(obj, name, self.st, None)

    def unpack2(self, v, n=2):
        self.ip.curfr = self.fr
        return tuple(self.ip.unpack(v, n, self.st, None))

    def raw(self, v):
        return self.ip.deref(v, self.st)

    def val(self, v):
        return self.ctx.canon(self.ip.deref(v, self.st))

    def assume(self, cond):
        self.st.pc += (cond,)
        self.ctx.assumed += (self.ctx.canon(cond),)

    def events(self, *kinds):
        return [e for e in self.ip.events if e.kind in kinds]
