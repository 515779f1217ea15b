"""Abstract interpreter: lowers a function and everything it calls inside the package to a value graph.

One pass over the syntax with joins at control-flow merges (gated phi nodes), a heap of abstract locations for
mutable values (so that aliasing and in-place updates are seen), closed forms for loops, and a list of effects.
No value is ever computed; the analysed package is neither imported nor executed.
"""
from __future__ import annotations

import ast

from .ir import C, FALSE, FULLSLICE, MINUS1, NONE, ONE, TRUE, UNDEF, ZERO, Node, free_iters, mk, of_plot, show, walk
from .ctx import subst, TooBig

MAXUNROLL = 24
MAXDEPTH = 40


class Unsupported(Exception):
    pass


class Event:
    __slots__ = ("kind", "pc", "info", "where", "stack")

    def __init__(self, kind, pc, info, where, stack=()):
        self.kind, self.pc, self.info, self.where, self.stack = kind, tuple(pc), info, where, stack

    def __repr__(self):
        return "%s@%s %s" % (self.kind, self.where, self.info)


class State:
    __slots__ = ("env", "heap", "objs", "pc", "path", "lpath", "seq")

    def __init__(self):
        self.env, self.heap, self.objs = {}, {}, {}
        self.pc, self.path, self.lpath = (), (), ()
        self.seq = 0

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.objs = {k: dict(v) for k, v in self.objs.items()}
        s.pc, s.path, s.lpath = self.pc, self.path, self.lpath
        return s


class Frame:
    def __init__(self, module, qual, closure=None, cls=None):
        self.module, self.qual = module, qual
        self.returns = []
        self.loops = []
        self.closure = closure or {}
        self.cls = cls
        self.globals = set()
        self.selfv = None
        self.localnames = None


REFS = {"ref", "view", "vfn"}


def conj(cs):
    cs = list(cs)
    if not cs:
        return TRUE
    r = cs[0]
    for c in cs[1:]:
        r = mk("and", r, c)
    return r


class Interp:
    def __init__(self, pkg, ctx, keep=()):
        self.pkg, self.ctx = pkg, ctx
        self.keep = set(keep)
        self.events = []
        self.nloc = 0
        self.labels = {}  # loc -> (origin, where)
        self.nobj = 0
        self.objcls = {}
        self.deaths = []
        self.depth = 0
        self.loop_depth = 0
        self.modvals = {}
        self.closures = {}
        self.origin = {}
        self.callstack = []
        self.nopaque = 0
        self.rngcount = 0
        self.exitseq = 0
        self.exitflag = None
        self.rest = None
        self.keepcalls = []
        self.steps = 0
        self.functions = set()
        self.callsites = 0
        self.extcalls = set()
        self.globheap = {}
        self.globobjs = {}
        self.unmodelled = set()
        self.cur = None
        self.curfr = None

    # ------------------------------------------------------------------ utilities
    def where(self, node=None):
        fr = self.curfr
        ln = getattr(node, "lineno", None) or getattr(self.cur, "lineno", 0)
        return (fr.module.path if fr else "?", fr.qual if fr else "?", ln)

    def event(self, kind, st, node=None, **info):
        e = Event(kind, st.pc, info, self.where(node), tuple(self.callstack))
        self.events.append(e)
        return e

    def opaque(self, why, st=None, node=None):
        self.nopaque += 1
        w = self.where(node)
        n = mk("opaque", why, "%s:%s" % (w[0], w[2]), self.nopaque)
        if st is not None:
            self.event("opaque", st, node, why=why)
        return n

    def new_loc(self, content, st, label="fresh", node=None):
        self.nloc += 1
        st.heap[self.nloc] = content
        self.labels[self.nloc] = (label, self.where(node))
        return mk("ref", self.nloc)

    def new_obj(self, key, st):
        self.nobj += 1
        st.objs[self.nobj] = {}
        self.objcls[self.nobj] = key
        return mk("obj", self.nobj)

    def arg(self, st, name, label=None):
        """Boxed array parameter."""
        return self.new_loc(mk("sym", name), st, label or ("arg:" + name))

    def isref(self, v):
        return v.op in REFS or (v.op == "gamma" and (self.isref(v.args[1]) or self.isref(v.args[2])))

    def deref(self, v, st):
        """Content of a value, without references (objects stay)."""
        o = v.op
        if o == "ref":
            k = v.args[0]
            c = st.heap.get(k)
            if c is None:
                c = self.globheap.get(k)
            if c is None:
                return mk("opaque", "dangling", "", k)
            return self.deref(c, st) if self._hasref(c) else c
        if o == "view":
            return mk("index", self.deref(v.args[0], st), v.args[1])
        if o == "vfn":
            return mk(v.args[1], self.deref(v.args[0], st), *v.args[2:])
        if self._hasref(v):
            return mk(o, *[self._deref_arg(a, st) for a in v.args])
        return v

    def _deref_arg(self, a, st):
        if isinstance(a, Node):
            return self.deref(a, st)
        if isinstance(a, tuple):
            return tuple(self._deref_arg(x, st) for x in a)
        return a

    _hr = {}

    def _hasref(self, n):
        r = self._hr.get(n.nid)
        if r is None:
            if n.op in REFS:
                r = True
            else:
                r = any(self._hasref(k) for k in n.kids())
            self._hr[n.nid] = r
        return r

    SCALARISH = {"const", "func", "cls", "module", "ext", "bound", "closure", "obj", "tuple", "undef", "isinstance",
                 "len", "super", "pi", "inf", "nan", "slice", "extobj", "iterdesc", "dtypeof", "resulttype"}

    def box(self, c, st, node=None, label="fresh"):
        """Give a freshly computed content a location unless it is immutable."""
        if c.nid not in self.origin:
            self.origin[c.nid] = self.where(node)
        if c.op in self.SCALARISH or c.op in REFS:
            return c
        if c.op == "gamma" and self.isref(c):
            return c
        if c.op in ("list", "dict", "set"):
            return self.new_loc(c, st, label, node)
        s = self.shape(c)
        if s == ():
            return c
        return self.new_loc(c, st, label, node)

    def canon(self, c):
        return self.ctx.canon(c)

    def shape(self, c):
        try:
            return self.ctx.shape(self.ctx.canon(c))
        except RecursionError:
            return None

    def dtype(self, c):
        return self.ctx.dtype(self.ctx.canon(c))

    def decide(self, cond, st):
        return self.ctx.decide(cond, [self.ctx.canon(p) for p in st.pc])

    # ------------------------------------------------------------------ joins
    def join_val(self, c, a, b):
        if a is b:
            return a
        if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
            return mk("tuple", *[self.join_val(c, x, y) for x, y in zip(a.args, b.args)])
        return mk("gamma", c, a, b)

    def join(self, c, s1, s2):
        r = State()
        for k in list(s1.env) + [k for k in s2.env if k not in s1.env]:
            r.env[k] = self.join_val(c, s1.env.get(k, UNDEF), s2.env.get(k, UNDEF))
        for k in list(s1.heap) + [k for k in s2.heap if k not in s1.heap]:
            if k not in s1.heap:
                r.heap[k] = s2.heap[k]
            elif k not in s2.heap:
                r.heap[k] = s1.heap[k]
            else:
                x, y = s1.heap[k], s2.heap[k]
                r.heap[k] = x if x is y else self.join_content(c, x, y)
        for k in list(s1.objs) + [k for k in s2.objs if k not in s1.objs]:
            if k not in s1.objs:
                r.objs[k] = dict(s2.objs[k])
            elif k not in s2.objs:
                r.objs[k] = dict(s1.objs[k])
            else:
                o1, o2 = s1.objs[k], s2.objs[k]
                r.objs[k] = {a: self.join_val(c, o1.get(a, UNDEF), o2.get(a, UNDEF))
                             for a in list(o1) + [a for a in o2 if a not in o1]}
        return r

    def join_content(self, c, x, y):
        if x.op == y.op == "list" and len(x.args) == len(y.args):
            return mk("list", *[self.join_val(c, a, b) for a, b in zip(x.args, y.args)])
        if x.op == "list" and y.op == "list" and len(x.args) == len(y.args) + 1 and x.args[:-1] == y.args:
            return mk("gamma", c, mk("lappend", y, x.args[-1]), y)
        return mk("gamma", c, x, y)

    def merge_records(self, recs):
        """Chain of (path conditions, state, extra) in order of occurrence; the last is the default."""
        st = recs[-1][1]
        val = recs[-1][2]
        for path, s, v in reversed(recs[:-1]):
            c = conj(path)
            st2 = self.join(c, s, st)
            st2.pc, st2.path, st2.lpath = st.pc, st.path, st.lpath
            if val is not None:
                val = self.join_val(c, v, val)
            st = st2
        return st, val

    def facts_from(self, mark, pc0):
        """Negations of the ways control left since mark."""
        out = []
        for kind, pc in self.deaths[mark:]:
            extra = pc[len(pc0):]
            if extra:
                out.append(mk("not", conj(extra)))
        return tuple(out)

    def die(self, kind, st):
        self.deaths.append((kind, st.pc))

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, st, fr):
        for s in body:
            st = self.exec_stmt(s, st, fr)
            if st is None:
                return None
        return st

    def exec_stmt(self, s, st, fr):
        self.steps += 1
        if self.steps > 60000:
            raise Unsupported("analysis budget exceeded")
        self.cur = s
        self.curfr = fr
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s at line %s" % (type(s).__name__, s.lineno))
        try:
            return m(s, st, fr)
        except Dead:
            return None

    def s_Pass(self, s, st, fr):
        return st

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return st
        self.eval(s.value, st, fr)
        return st

    def s_Assign(self, s, st, fr):
        v = self.eval(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
        return st

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st, fr), st, fr)
        return st

    def s_Import(self, s, st, fr):
        for a in s.names:
            if a.asname:
                st.env[a.asname] = self.modvalue(a.name)
            else:
                st.env[a.name.split(".")[0]] = self.modvalue(a.name.split(".")[0])
        return st

    def s_ImportFrom(self, s, st, fr):
        base = self.pkg._relbase(fr.module, s)
        for a in s.names:
            st.env[a.asname or a.name] = self.from_import(base, a.name)
        return st

    def s_Global(self, s, st, fr):
        fr.globals.update(s.names)
        return st

    def s_Nonlocal(self, s, st, fr):
        raise Unsupported("nonlocal")

    def s_FunctionDef(self, s, st, fr):
        k = len(self.closures) + 1
        self.closures[k] = (fr.module, s, dict(st.env), fr.qual + "." + s.name, fr.closure)
        v = mk("closure", k)
        for d in reversed(s.decorator_list):
            v = self.opaque("decorator", st, s)
        st.env[s.name] = v
        self.closures[k][2][s.name] = v
        return st

    def s_ClassDef(self, s, st, fr):
        raise Unsupported("local class")

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env[t.id] = UNDEF
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, st, fr)
                if o.op == "obj":
                    st.objs[o.args[0]][t.attr] = UNDEF
            elif isinstance(t, ast.Subscript) and self.del_item(t, st, fr):
                continue
            else:
                self.eval(t.value, st, fr)
                self.event("opaque", st, s, why="del subscript")
        return st

    def del_item(self, t, st, fr):
        o = self.deref_shallow(self.eval(t.value, st, fr), st)
        if o.op == "objdict":
            k = self.deref(self.eval(t.slice, st, fr), st)
            if k.op == "const":
                st.objs[o.args[0].args[0]][k.val] = UNDEF
                return True
        return False

    def s_Assert(self, s, st, fr):
        c = self.truth(self.eval(s.test, st, fr), st)
        r = self.decide(c, st)
        if r is True:
            return st
        s2 = st.copy()
        nc = mk("not", c)
        if r is None:
            s2.pc += (nc,)
        self.event("raise", s2, s, exc="AssertionError")
        self.die("raise", s2)
        if r is False:
            return None
        st.pc += (c,)
        return st

    def s_Raise(self, s, st, fr):
        exc = "Exception"
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            exc = ast.unparse(e)
        self.event("raise", st, s, exc=exc)
        self.die("raise", st)
        return None

    def s_Return(self, s, st, fr):
        v = self.eval(s.value, st, fr) if s.value is not None else NONE
        fr.returns.append((st.path, st, v, s.lineno))
        self.exitseq += 1
        st.seq = self.exitseq
        self.die("return", st)
        return None

    def s_Break(self, s, st, fr):
        fr.loops[-1]["breaks"].append((st.lpath, st, None))
        self.exitseq += 1
        st.seq = self.exitseq
        self.die("break", st)
        return None

    def s_Continue(self, s, st, fr):
        fr.loops[-1]["conts"].append((st.lpath, st, None))
        self.die("continue", st)
        return None

    def s_If(self, s, st, fr):
        c = self.truth(self.eval(s.test, st, fr), st)
        r = self.decide(c, st)
        if r is True:
            return self.exec_block(s.body, st, fr)
        if r is False:
            return self.exec_block(s.orelse, st, fr)
        return self.branch(c, st, lambda a: self.exec_block(s.body, a, fr), lambda a: self.exec_block(s.orelse, a, fr))

    def branch(self, c, st, f1, f2):
        pc0, path0, lpath0 = st.pc, st.path, st.lpath
        nc = mk("not", c)
        mark = len(self.deaths)
        s1 = st.copy()
        s1.pc, s1.path, s1.lpath = pc0 + (c,), path0 + (c,), lpath0 + (c,)
        try:
            r1 = f1(s1)
        except Dead:
            r1 = None
        mark2 = len(self.deaths)
        s2 = st.copy()
        s2.pc, s2.path, s2.lpath = pc0 + (nc,), path0 + (nc,), lpath0 + (nc,)
        try:
            r2 = f2(s2)
        except Dead:
            r2 = None
        jumps = lambda d: any(k in ("break", "continue") for k, _ in d)  # noqa: E731
        if r1 is None and r2 is None:
            return None
        if r1 is None or r2 is None:
            r = r2 if r1 is None else r1
            dead = self.deaths[mark:mark2] if r1 is None else self.deaths[mark2:]
            live = self.deaths[mark2:] if r1 is None else self.deaths[mark:mark2]
            add = ()
            if jumps(dead) or jumps(live):
                add = (nc if r1 is None else c,)
                for k, pc in live:
                    if k in ("break", "continue") and pc[len(pc0):]:
                        add += (mk("not", conj(pc[len(pc0):])),)
            r.path, r.lpath = path0 + add, lpath0 + add
            return r
        r = self.join(c, r1, r2)
        r.pc = pc0 + self.facts_from(mark, pc0)
        add = ()
        for k, pc in self.deaths[mark:]:
            if k in ("break", "continue") and pc[len(pc0):]:
                add += (mk("not", conj(pc[len(pc0):])),)
        r.path, r.lpath = path0 + add, lpath0 + add
        return r

    def s_With(self, s, st, fr):
        for it in s.items:
            v = self.eval(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
        return self.exec_block(s.body, st, fr)

    def s_Try(self, s, st, fr):
        base = st.copy()
        nev = len(self.events)
        st2 = self.exec_block(s.body, st, fr)
        if s.handlers:
            caught = [e for e in self.events[nev:] if e.kind == "raise"]
            self.event("opaque", base, s, why="try")
            res = st2
            for h in s.handlers:
                self.nopaque += 1
                c = mk("caught", self.where(s)[2], self.nopaque)
                hs = base.copy()
                hs.pc += (c,)
                hs.path += (c,)
                hs.lpath += (c,)
                if h.name:
                    hs.env[h.name] = self.opaque("exception")
                hr = self.exec_block(h.body, hs, fr)
                if hr is None:
                    continue
                if res is None:
                    res = hr
                else:
                    j = self.join(c, hr, res)
                    j.pc, j.path, j.lpath = base.pc, base.path, base.lpath
                    res = j
            for e in caught:
                e.kind = "raise-caught"
            st2 = res
        if st2 is not None and s.orelse:
            st2 = self.exec_block(s.orelse, st2, fr)
        if s.finalbody:
            if st2 is None:
                self.exec_block(s.finalbody, base.copy(), fr)
                return None
            st2 = self.exec_block(s.finalbody, st2, fr)
        return st2

    def s_AugAssign(self, s, st, fr):
        op = self.BIN[type(s.op).__name__]
        t = s.target
        rhs = self.eval(s.value, st, fr)
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, st, fr, t)
            v = self.aug(op, cur, rhs, st, s)
            if v is not None:
                self.assign(t, v, st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fr)
            cur = self.getattr(o, t.attr, st, t)
            v = self.aug(op, cur, rhs, st, s)
            if v is not None:
                self.setattr(o, t.attr, v, st, s)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st, fr)
            i = self.eval_index(t.slice, st, fr)
            cur = self.getitem(b, i, st, t)
            v = self.binop(op, cur, rhs, st, s)
            self.setitem(b, i, v, st, s)
        return st

    def aug(self, op, cur, rhs, st, node):
        """None when the update was done in place."""
        if self.isref(cur):
            c = self.deref(cur, st)
            if c.op in ("list", "lappend", "filtermap") and op == "add":
                r = self.deref_shallow(rhs, st)
                if c.op == "list" and r.op in ("list", "tuple"):
                    cc = self.deref_shallow(cur, st)
                    self.write_back(cur, mk("list", *(cc.args + r.args)), st, node)
                    return None
            s = self.shape(c)
            if s is not None and len(s) >= 1 and c.op not in ("list",):
                self.write_back(cur, mk("astype_like", mk(op, c, self.deref(rhs, st)), c), st, node)
                return None
            if s is None:
                lab = self.label_of(cur)
                if lab and (lab[0].startswith("arg:") or lab[0].startswith("self.")):
                    self.event("maybe-mutate", st, node, label=lab[0])
        return self.binop(op, cur, rhs, st, node)

    def label_of(self, v):
        while v.op in ("view", "vfn"):
            v = v.args[0]
        if v.op == "ref":
            return self.labels.get(v.args[0])
        return None

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globals:
                self.event("global-write", st, t, name=fr.module.name + "." + t.id)
                self.modvals[(fr.module.name, t.id)] = self.opaque("global")
                return
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.unpack(v, n, st, t, star)
            for e, x in zip(t.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fr)
            self.setattr(o, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st, fr)
            i = self.eval_index(t.slice, st, fr)
            self.setitem(b, i, v, st, t)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, st, node, star=()):
        c = self.deref_shallow(v, st)
        if c.op in ("tuple", "list"):
            if star:
                k = star[0]
                rest = len(c.args) - (n - 1)
                return list(c.args[:k]) + [self.new_loc(mk("list", *c.args[k:k + rest]), st, "fresh", node)] + list(
                    c.args[k + rest:])
            if len(c.args) == n:
                return list(c.args)
            raise Unsupported("unpack length")
        if c.op == "gamma":
            a = self.unpack(c.args[1], n, st, node)
            b = self.unpack(c.args[2], n, st, node)
            return [self.join_val(c.args[0], x, y) for x, y in zip(a, b)]
        seq = self.iterate(v, st, node)
        if seq is not None and seq[0] == "seq" and len(seq[1]) == n:
            return seq[1]
        return [self.getitem(v, C(k), st, node) for k in range(n)]

    # ------------------------------------------------------------------ loops
    def iterate(self, v, st, node):
        """('seq', [values]) | ('sym', count, elem(it, state)) | None."""
        if v.op == "iterdesc":
            return self.iter_special(v, st, node)
        c = self.deref_shallow(v, st)
        if c.op in ("tuple", "list"):
            return ("seq", list(c.args))
        if c.op == "const" and isinstance(c.val, str):
            return ("seq", [C(ch) for ch in c.val])
        if c.op == "np.arange" or c.op == "range":
            a = list(c.args)
            lo, hi, step = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else ONE)
            cl, ch, cs = self.canon(lo), self.canon(hi), self.canon(step)
            if all(x.op == "const" for x in (cl, ch, cs)) and isinstance(cs.val, int) and cs.val:
                import math
                n = max(0, math.ceil((ch.val - cl.val) / cs.val))
                if n <= MAXUNROLL:
                    return ("seq", [self.canon(mk("add", lo, C(cs.val * k))) for k in range(n)])
            n = self.canon(mk("max2", mk("ceil", mk("div", mk("sub", hi, lo), step)), ZERO))
            return ("sym", n, lambda it, s=None: mk("add", lo, mk("mul", step, it)) if not (lo is ZERO and step is ONE) else it)
        if c.op == "dict":
            return ("seq", [k for k, _ in c.args[0]])
        if c.op == "objdict":
            q = self.own_items(c.args[0], st)
            return ("seq", [k for k, _ in q]) if q is not None else None
        if c.op == "gamma":
            return None
        cc = self.deref(v, st)
        cs = self.canon(cc)
        if cs.op in ("np.arange",):
            return self.iterate(cs, st, node)
        if cs.op in ("tuple", "list") and len(cs.args) <= MAXUNROLL:
            return ("seq", list(cs.args))
        s = self.shape(cc)
        if s is not None and len(s) >= 1:
            n = self.canon(s[0])
            if n.op == "const" and isinstance(n.val, int) and n.val <= MAXUNROLL:
                return ("seq", [self.getitem(v, C(k), st, node) for k in range(n.val)])
            return ("sym", n, lambda it, s=st: self.getitem(v, it, s, node))
        if s is None and c.op not in ("obj", "ext", "extobj", "opaque", "undef"):
            return ("sym", mk("len", cc), lambda it, s=st: self.getitem(v, it, s, node))
        return None

    def iter_special(self, v, st, node):
        kind = v.args[0]
        if kind == "enumerate":
            sub = self.iterate(v.args[1], st, node)
            start = v.args[2]
            if sub is None:
                return None
            if sub[0] == "seq":
                return ("seq", [mk("tuple", self.canon(mk("add", start, C(k))), x) for k, x in enumerate(sub[1])])
            return ("sym", sub[1], lambda it, s=st: mk("tuple", it if start is ZERO else mk("add", start, it), sub[2](it, s)))
        if kind == "zip":
            subs = [self.iterate(x, st, node) for x in v.args[1:]]
            if any(s is None for s in subs) or not subs:
                return None
            if any(s[0] == "seq" for s in subs):
                lens = [len(s[1]) for s in subs if s[0] == "seq"]
                if all(s[0] == "seq" for s in subs):
                    n = min(lens)
                    return ("seq", [mk("tuple", *[s[1][k] for s in subs]) for k in range(n)])
                return None
            n = subs[0][1]
            for s in subs[1:]:
                n = self.canon(mk("min2", n, s[1]))
            return ("sym", n, lambda it, s=st: mk("tuple", *[b[2](it, s) for b in subs]))
        if kind == "reversed":
            sub = self.iterate(v.args[1], st, node)
            if sub is None:
                return None
            if sub[0] == "seq":
                return ("seq", list(reversed(sub[1])))
            return ("sym", sub[1], lambda it, s=st: sub[2](self.canon(mk("sub", mk("sub", sub[1], ONE), it)), s))
        if kind == "items":
            d = self.deref_shallow(v.args[1], st)
            if d.op == "dict":
                return ("seq", [mk("tuple", k, x) for k, x in d.args[0]])
        if kind == "values":
            d = self.deref_shallow(v.args[1], st)
            if d.op == "dict":
                return ("seq", [x for _, x in d.args[0]])
        if kind == "map":
            fn = v.args[1]
            subs = [self.iterate(x, st, node) for x in v.args[2:]]
            if len(subs) == 1 and subs[0] is not None:
                b = subs[0]
                if b[0] == "seq":
                    return ("seq", [self.call(fn, [x], {}, st, node) for x in b[1]])
                return ("sym", b[1], lambda it, s=st: self.call(fn, [b[2](it, s)], {}, s, node))
        return None

    def s_For(self, s, st, fr):
        return self.for_over(s, self.eval(s.iter, st, fr), st, fr)

    def for_over(self, s, itv, st, fr):
        c = self.deref_shallow(itv, st)
        if c.op == "gamma":  # one of two sequences
            r = self.decide(c.args[0], st)
            if r is not None:
                return self.for_over(s, c.args[1 if r else 2], st, fr)
            return self.branch(c.args[0], st, lambda a: self.for_over(s, c.args[1], a, fr), lambda a: self.for_over(s, c.args[2], a, fr))
        seq = self.iterate(itv, st, s)
        if seq is None:
            return self.opaque_loop(s, st, fr, "iterable not understood")
        if seq[0] == "seq" and len(seq[1]) <= MAXUNROLL:
            return self.unroll(s, seq[1], st, fr)
        if seq[0] == "seq":
            return self.opaque_loop(s, st, fr, "long literal")
        return self.sym_loop(s, st, fr, seq[1], seq[2], s.target)

    def unroll(self, s, vals, st, fr):
        rec = {"breaks": [], "conts": []}
        path0, lpath0 = st.path, st.lpath
        breaks = []
        broke = ()
        for v in vals:
            fr.loops.append({"breaks": [], "conts": []})
            st.lpath = ()
            pc0, p0 = st.pc, st.path
            mark = len(self.deaths)
            self.assign(s.target, v, st, fr)
            end = self.exec_block(s.body, st, fr)
            rec = fr.loops.pop()
            breaks += [(broke + p, b, None) for p, b, _ in rec["breaks"]]
            outs = list(rec["conts"])
            if end is not None:
                outs.append(((), end, None))
            nb = tuple(mk("not", conj(p)) for p, b, _ in rec["breaks"] if p)
            if not outs:
                st = None
                break
            m, _ = self.merge_records(outs)
            if len(outs) > 1:
                m = m.copy() if m is outs[-1][1] else m
                m.pc = pc0 + self.facts_from(mark, pc0)
            m.path = p0 + nb
            broke = ()
            st = m
        if st is not None:
            st.lpath = lpath0
            if s.orelse:
                st = self.exec_block(s.orelse, st, fr)
        if breaks:
            recs = list(breaks)
            if st is not None:
                recs.append(((), st, None))
            pcs = st.pc if st is not None else recs[-1][1].pc
            st, _ = self.merge_records(recs)
            if len(recs) > 1:
                st.pc = tuple(p for p in pcs if all(p in r[1].pc for r in recs))
            st.path = path0
            st.lpath = lpath0
        elif st is not None:
            st.path = path0
            st.lpath = lpath0
        return st

    def assigned_names(self, body):
        out = set()
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.id)
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    out.add(n.target.id)
        return out

    def opaque_loop(self, s, st, fr, why):
        """Everything the body may change becomes unknown."""
        self.event("opaque", st, s, why="loop: " + why)
        names = self.assigned_names([s])
        for nm in names:
            st.env[nm] = self.opaque("loop")
        nev, nd, nr = len(self.events), len(self.deaths), len(fr.returns)
        s2 = st.copy()
        fr.loops.append({"breaks": [], "conts": []})
        try:
            end = self.exec_block(s.body, s2, fr)
        finally:
            recs = fr.loops.pop()
        ends = [e for e in [end] if e is not None] + [r[1] for r in recs["breaks"] + recs["conts"]]
        rets = fr.returns[nr:]
        for e in ends + [r[1] for r in rets]:
            for l, c in e.heap.items():
                if l in st.heap and st.heap[l] is not c:
                    st.heap[l] = self.opaque("loop")
            for k, at in e.objs.items():
                if k in st.objs:
                    for a, v in at.items():
                        if st.objs[k].get(a) is not v:
                            st.objs[k][a] = self.opaque("loop")
        for nm in names:
            st.env[nm] = self.opaque("loop")
        del self.deaths[nd:]
        if rets:
            del fr.returns[nr:]
            c = self.opaque("returned in loop")
            fr.returns.append((st.path + (c,), st.copy(), self.opaque("returned in loop"), s.lineno))
        return st

    def _restore(self, marks, fr):
        nev, nd, nr, nk = marks
        del self.events[nev:]
        del self.deaths[nd:]
        del fr.returns[nr:]
        del self.keepcalls[nk:]

    def _marks(self, fr):
        return (len(self.events), len(self.deaths), len(fr.returns), len(self.keepcalls))

    def body_run(self, body, st, fr, bind):
        """Execute a loop body once; returns (end state or None, record)."""
        fr.loops.append({"breaks": [], "conts": []})
        st.lpath = ()
        pc0 = st.pc
        mark = len(self.deaths)
        try:
            if bind is not None:
                bind(st)
            end = self.exec_block(body, st, fr)
        finally:
            rec = fr.loops.pop()
        outs = list(rec["conts"])
        if end is not None:
            outs.append(((), end, None))
        if not outs:
            return None, rec
        m, _ = self.merge_records(outs)
        if len(outs) > 1:
            m.pc = pc0 + self.facts_from(mark, pc0)
        return m, rec

    def discover(self, body, st, fr, bind, depth, cond=None):
        """Run the body with placeholders for what it changes; returns (keys, final run data)."""
        names = self.assigned_names(body)
        locs, attrs = set(), set()
        marks = self._marks(fr)
        loc0 = self.nloc
        rng0 = self.rngcount
        for _ in range(5):
            self._restore(marks, fr)
            self.rngcount = rng0
            s1 = st.copy()
            mus = {}
            for nm in sorted(names):
                v = st.env.get(nm)
                if v is not None and v is not UNDEF:
                    mus[("n", nm)] = self._mu_for(depth, nm, v, st)
            for l in sorted(locs):
                mus[("l", l)] = self._mu_for(depth, "@%d" % l, mk("ref", l), st, content=True)
            for k, a in sorted(attrs):
                mus[("a", (k, a))] = self._mu_for(depth, ".%d.%s" % (k, a), st.objs[k].get(a, UNDEF), st)
            for key, (mu, val) in mus.items():
                if key[0] == "n":
                    s1.env[key[1]] = self._mu_box(mu, val, s1, st)
                elif key[0] == "l":
                    s1.heap[key[1]] = mu
                else:
                    k, a = key[1]
                    s1.objs[k][a] = self._mu_box(mu, val, s1, st)
            start = s1.copy()
            condc = None
            if cond is not None:
                condc = self.truth(self.eval(cond, s1, fr), s1)
                s1.pc += (condc,)
            end, rec = self.body_run(body, s1, fr, bind)
            new = False
            rets = fr.returns[marks[2]:]
            for e in [end] + [r[1] for r in rec["breaks"]] + [r[1] for r in rets]:
                if e is None:
                    continue
                for l, c in e.heap.items():
                    if l in start.heap and start.heap[l] is not c and l not in locs:
                        if l in st.heap:
                            locs.add(l)
                            new = True
                for k, at in e.objs.items():
                    if k in st.objs:
                        for a, v in at.items():
                            if start.objs[k].get(a, UNDEF) is not v and (k, a) not in attrs:
                                attrs.add((k, a))
                                new = True
            if not new:
                return mus, start, end, rec, rets, marks, condc
        raise Unsupported("loop does not stabilise")

    def _mu_for(self, depth, nm, v, st, content=False):
        mu = mk("mu", depth, nm)
        return mu, v

    def _mu_box(self, mu, v, s1, st):
        if v is UNDEF:
            return mu
        if v.op in ("obj", "func", "cls", "module", "ext", "bound", "closure", "extobj"):
            return v
        self._mu_types(mu, self.deref(v, st))
        if self.isref(v) or v.op in ("list",):
            return self.new_loc(mu, s1, "loopvar")
        return mu

    def _mu_types(self, mu, c):
        cc = self.canon(c)
        self.ctx._shape.pop(mu.nid, None)
        self.ctx._shape[mu.nid] = self.ctx.shape(cc) if cc.op not in ("list",) else None
        d = self.ctx.dtype(cc)
        self.ctx._dtype[mu.nid] = d
        for n in list(self.ctx._canon):
            pass

    def sym_loop(self, s, st, fr, count, elem, target):
        depth = self.loop_depth
        it = mk("iter", depth)

        def bind(x):
            self.assign(target, elem(it, x), x, fr)

        self.loop_depth += 1
        try:
            try:
                r = self.summarise(s, s.body, st, fr, count, it, depth, bind)
            except (Unsupported, TooBig) as e:
                return self.opaque_loop(s, st, fr, str(e))
        finally:
            self.loop_depth -= 1
        if r is None:
            return None
        if self.exitflag is not None:
            return self.loop_else(s, r, fr)
        # loop variable after the loop
        last = self.canon(mk("sub", count, ONE))
        try:
            self.assign(target, elem(last, r), r, fr)
        except Exception:
            pass
        if s.orelse:
            r = self.exec_block(s.orelse, r, fr)
        return r

    def loop_else(self, s, r, fr):
        flag = self.exitflag
        if not s.orelse:
            return r
        if not flag[2]:
            return self.exec_block(s.orelse, r, fr)
        return self.branch(mk("and", flag[0], mk("not", flag[1])), r, lambda x: x,
                           lambda x: self.exec_block(s.orelse, x, fr))

    def summarise(self, s, body, st, fr, count, it, depth, bind, cond=None):
        pc0 = st.pc
        mus, start, end, rec, rets, marks, condc = self.discover(body, st, fr, bind, depth, cond)
        self.exitflag = None
        if rec["breaks"] or rets:
            return self.search_loop(s, st, fr, count, it, depth, mus, end, rec, rets, marks, condc)
        if end is None:
            raise Unsupported("loop body never ends")
        ents = {}
        for key, (mu, v) in mus.items():
            if key[0] == "n":
                init = self.deref(v, st)
                nv = end.env.get(key[1], UNDEF)
            elif key[0] == "l":
                init = self.deref(v, st)
                nv = mk("ref", key[1])
            else:
                init = self.deref(v, st) if v is not UNDEF else UNDEF
                nv = end.objs[key[1][0]].get(key[1][1], UNDEF)
            nxt = self.deref(nv, end)
            ents[key] = (mu, init, nxt, v, nv)
        fresh = {}
        if cond is None:
            final, closed = self.solve(ents, it, count, depth, None)
        else:
            cnt, itw = self.while_count(ents, condc, depth, it)
            if cnt is not None:
                count = cnt
                final, closed = self.solve(ents, it, count, depth, None)
            else:
                final, closed = self.solve(ents, None, None, depth, condc)
        # build the state after the loop
        out = st.copy()
        # locations created inside the body may be reachable from final values: keep their content closed
        for key, (mu, init, nxt, v, nv) in ents.items():
            val = final[key]
            if key[0] == "n":
                if nv is v or (val is init):
                    out.env[key[1]] = v
                else:
                    out.env[key[1]] = self._rebox(v, nv, val, out, s)
            elif key[0] == "l":
                out.heap[key[1]] = val
            else:
                out.objs[key[1][0]][key[1][1]] = v if val is init else self._rebox(v, nv, val, out, s)
        lastmap = None
        if cond is None and count is not None:
            for nm, nv in end.env.items():
                if ("n", nm) in mus or (nm in st.env and st.env[nm] is not UNDEF):
                    continue
                c = self.deref(nv, end)
                c = self._at_last(c, closed, it, count)
                out.env[nm] = self._rebox(nv, nv, c, out, s)
        rest = self.rest
        for nm in list(end.env):
            if nm in st.env and st.env[nm] is not UNDEF:
                continue
            nv = end.env[nm]
            c = out.env.get(nm)
            if c is not None and not self._has_mu(self.deref(c, out), depth):
                continue
            c = self.deref(nv, end)
            if _funclike(nv) or nv.op == "obj":
                out.env[nm] = nv
            elif self._has_mu(c, depth) or cond is not None:
                out.env[nm] = self._rebox(nv, nv, rest(nm, UNDEF, c), out, s)
        # events of the body: close over the iterator
        for e in self.events[marks[0]:]:
            extra = e.pc[len(pc0):]
            if extra:
                c = subst(conj(extra), closed) if closed else conj(extra)
                if self._has_mu(c, depth):
                    flag = mk("mu", depth, "@ev")
                    c = rest("@ev", FALSE, mk("or", flag, conj(extra)))
                elif it in free_iters(c) and count is not None:
                    c = mk("exists", it, ZERO, count, c)
                e.pc = pc0 + (c,)
            for k, x in list(e.info.items()):
                if isinstance(x, Node) and closed:
                    e.info[k] = subst(x, closed)
        nd = []
        for kind, pc in self.deaths[marks[1]:]:
            extra = pc[len(pc0):]
            if kind == "raise" and extra:
                c = subst(conj(extra), closed) if closed else conj(extra)
                if self._has_mu(c, depth):
                    flag = mk("mu", depth, "@ev")
                    c = rest("@ev", FALSE, mk("or", flag, conj(extra)))
                elif it in free_iters(c) and count is not None:
                    c = mk("exists", it, ZERO, count, c)
                nd.append((kind, pc0 + (c,)))
        self.deaths[marks[1]:] = nd
        out.pc = pc0 + tuple(mk("not", conj(pc[len(pc0):])) for k, pc in nd)
        out.path, out.lpath = st.path, st.lpath
        return out

    def _rebox(self, v, nv, val, st, node):
        if self.isref(nv) or self.isref(v):
            return self.new_loc(val, st, "fresh", node)
        return self.box(val, st, node)

    def _at_last(self, c, closed, it, count):
        c = subst(c, closed) if closed else c
        if it in free_iters(c):
            c = subst(c, {it: self.canon(mk("sub", count, ONE))})
        return c

    def while_count(self, ents, condc, depth, it):
        """Trip count of 'while i < n' with an arithmetic counter."""
        c = self.canon(condc)
        if c.op not in ("le0", "lt0"):
            return None, None
        ms = [m for m in free_iters(c) if m.op == "mu"]
        if len(ms) != 1:
            return None, None
        mu = ms[0]
        ent = [e for e in ents.values() if e[0] is mu]
        if not ent:
            return None, None
        _, init, nxt, v, nv = ent[0]
        d = self.canon(mk("sub", nxt, mu))
        if d.op != "const" or free_iters(d):
            return None, None
        p = self.ctx.to_poly(c.args[0])
        a = None
        rest = {}
        for m, co in p.items():
            if any(x is mu for x, e in m):
                if len(m) != 1 or m[0][1] != 1 or a is not None:
                    return None, None
                a = co
            else:
                rest[m] = co
        if a is None or a * self.ctx.to_poly(d).get((), 0) <= 0:
            return None, None
        b = self.ctx.from_poly(rest)
        # a*(init + k d) + b <= 0   ->  k <= (-b - a*init)/(a*d)
        q = mk("div", mk("sub", mk("mul", MINUS1, b), mk("mul", C(a), init)), mk("mul", C(a), d))
        if c.op == "le0":
            n = mk("add", mk("floor", q), ONE)
        else:
            n = mk("ceil", q)
        return self.canon(mk("max2", n, ZERO)), it

    def solve(self, ents, it, count, depth, cond):
        """Closed forms of the loop-carried values: (final, per-iteration substitution)."""
        ctx = self.ctx
        closed, final = {}, {}
        todo = dict(ents)
        nxts = {k: ctx.canon(e[2]) if not _funclike(e[2]) else e[2] for k, e in ents.items()}
        progress = True
        while progress and todo:
            progress = False
            for key in list(todo):
                mu, init, nxt0, v, nv = todo[key]
                if _funclike(v):
                    final[key] = nv
                    del todo[key]
                    progress = True
                    continue
                e = ctx.canon(subst(nxts[key], closed)) if closed else nxts[key]
                r = self.close_one(mu, init, e, it, count, depth)
                if r is not None:
                    fin, cl = r
                    final[key] = fin
                    if cl is not None:
                        closed[mu] = cl
                        del todo[key]
                        progress = True
                    else:
                        # usable after the loop but not at each iteration
                        if not any(mu in free_iters(nxts[k2]) for k2 in todo if k2 != key):
                            del todo[key]
                            progress = True
                        else:
                            final.pop(key)
        keys = list(todo)
        names = tuple(todo[k][0].args[1] for k in keys)
        inits = tuple(todo[k][1] for k in keys)
        nx = tuple(subst(nxts[k], closed) if closed else nxts[k] for k in keys)
        cd = NONE if cond is None else (subst(cond, closed) if closed else cond)

        def rest(name, init, nxt):
            """Value after the loop of something that follows the open recurrences."""
            nn = subst(nxt, closed) if closed else nxt
            j = len(keys)
            if it is not None:
                return mk("rec", j, depth, names + (name,), it, ZERO, count, inits + (init,), nx + (nn,), NONE)
            return mk("rec", j, depth, names + (name,), NONE, NONE, NONE, inits + (init,), nx + (nn,), cd)
        self.rest = rest
        if todo:
            for j, k in enumerate(keys):
                if it is not None:
                    final[k] = mk("rec", j, depth, names, it, ZERO, count, inits, nx, NONE)
                else:
                    final[k] = mk("rec", j, depth, names, NONE, NONE, NONE, inits, nx, cd)
        # variables that were closed for iteration use but not final
        for key, e in ents.items():
            if key not in final:
                final[key] = self.opaque("loop value")
        return final, closed

    def close_one(self, mu, init, e, it, count, depth):
        ctx = self.ctx
        if e is mu:
            return init, init
        if it is None:
            return None
        fr = free_iters(e)
        mus = [x for x in fr if x.op == "mu" and x.args[0] == depth]
        if not mus:
            last = subst(e, {it: ctx.canon(mk("sub", count, ONE))}) if it in fr else e
            zero = ctx.c_cmp("le", ctx.canon(count), ZERO)
            if zero is FALSE or init is UNDEF:
                fin = last
            else:
                fin = mk("gamma", mk("lt", ZERO, count), last, init)
            cl = None
            if init is not UNDEF:
                prev = subst(e, {it: ctx.canon(mk("sub", it, ONE))}) if it in fr else e
                cl = mk("gamma", mk("eq", it, ZERO), init, prev)
            return fin, cl
        if mus != [mu]:
            # e.g. another array that is read at positions not written yet
            return None
        if _funclike(init) or init is UNDEF:
            return None
        isnum = ctx._isnum(e) and ctx._isnum(ctx.canon(init))
        if isnum:
            d = ctx._arith("sub", e, mu)
            if mu not in free_iters(d) and ctx.shape(ctx.canon(init)) == ():
                if it not in free_iters(d):
                    return (mk("add", init, mk("mul", count, d)), mk("add", init, mk("mul", it, d)))
                it2 = mk("iter", depth + 100)
                return (mk("add", init, mk("sumover", it, ZERO, count, d)),
                        mk("add", init, mk("sumover", it2, ZERO, it, subst(d, {it: it2}))))
        # append
        r = self.match_append(mu, e)
        if r is not None:
            c, val, kind = r
            if mu in free_iters(val) or mu in free_iters(c):
                return None
            if c is TRUE and kind == "list" and init.op == "list" and not init.args:
                return mk("fill", init, it, ZERO, count, val), None
            return mk("filtermap", init, it, ZERO, count, c, val), None
        # running maximum / minimum
        if e.op in ("max2", "min2") and mu in e.args:
            d = e.args[0] if e.args[1] is mu else e.args[1]
            if mu not in free_iters(d):
                return mk(e.op, init, mk("np.amax" if e.op == "max2" else "np.amin",
                                         mk("fill", mk("list"), it, ZERO, count, d))), None
        r = self.match_store(mu, e, it)
        if r is not None:
            idx, val = r
            if mu in free_iters(idx):
                return None
            one = self.one_row(mu, init, e, it, count, depth)
            if one is not None:
                return one
            off = ctx._arith("sub", idx, it) if ctx._isnum(idx) else None
            if off is not None and it not in free_iters(off):
                # reads of the array itself at or beyond the current position still see the old content
                val = self.unread(mu, init, val, it, off)
                if mu in free_iters(val):
                    return None
                lo = off
                hi = ctx._arith("add", ctx.canon(count), off)
                body = val if off is ZERO else ctx.canon(subst(val, {it: ctx._arith("sub", it, off)}))
                return mk("fill", init, it, lo, hi, body), None
            if mu in free_iters(val):
                return None
            return mk("fillg", init, it, ZERO, count, idx, val), None
        return None

    def one_row(self, mu, init, e, it, count, depth):
        """The loop stores in one row only, and reads nothing else of the array."""
        if e.op != "store" or e.args[0] is not mu:
            return None
        k = e.args[1]
        if k.op != "const" or isinstance(k.val, bool) or not isinstance(k.val, int) or len(self.ctx.shape(self.ctx.canon(init)) or ()) != 2:
            return None
        row = mk("index", mu, k)
        mu2 = mk("mu", depth, "%s[%s]" % (mu.args[1], k.val))
        inner = subst(e.args[2], {row: mu2})
        if mu in free_iters(inner):
            return None
        r = self.close_one(mu2, self.canon(mk("index", init, k)), inner, it, count, depth)
        if r is None or mu2 in free_iters(r[0]):
            return None
        return mk("store", init, k, r[0]), None

    def unread(self, mu, init, val, it, off):
        ctx = self.ctx
        rep = {}
        for n in walk(val):
            if n.op == "index" and n.args[0] is mu and ctx._isnum(n.args[1]):
                d = ctx._arith("sub", n.args[1], ctx._arith("add", it, off))
                if d.op == "const" and d.val >= 0:
                    rep[n] = mk("index", init, n.args[1])
        return ctx.canon(subst(val, rep)) if rep else val

    def match_append(self, mu, e):
        if e.op == "gamma":
            c, a, b = e.args
            if b is mu:
                r = self.match_append(mu, a)
                if r:
                    return (self.ctx.c_bool("and", [c, r[0]]), r[1], r[2])
            if a is mu:
                r = self.match_append(mu, b)
                if r:
                    return (self.ctx.c_bool("and", [self.ctx.c_not(c), r[0]]), r[1], r[2])
            return None
        if e.op == "np.append" and len(e.args) == 2 and e.args[0] is mu and self.ctx.shape(e.args[1]) == ():
            return TRUE, e.args[1], "array"
        if e.op == "lappend" and e.args[0] is mu:
            return TRUE, e.args[1], "list"
        return None

    def match_store(self, mu, e, it):
        """store(mu, idx, v), possibly guarded."""
        ctx = self.ctx
        if e.op == "store" and e.args[0] is mu:
            return e.args[1], e.args[2]
        if e.op == "gamma":
            c, a, b = e.args
            ra = self.match_store(mu, a, it) if a is not mu else None
            rb = self.match_store(mu, b, it) if b is not mu else None
            if ra and b is mu:
                return ra[0], mk("gamma", c, ra[1], mk("index", mu, ra[0]))
            if rb and a is mu:
                return rb[0], mk("gamma", c, mk("index", mu, rb[0]), rb[1])
            if ra and rb and ra[0] is rb[0]:
                return ra[0], mk("gamma", c, ra[1], rb[1])
        return None

    def _has_mu(self, n, depth):
        return any(x.op == "mu" and x.args[0] == depth for x in free_iters(n))

    def search_loop(self, s, st, fr, count, it, depth, mus, end, rec, rets, marks, condc):
        """A loop that may be left early: one recurrence with an exit flag."""
        pc0, path0 = st.pc, st.path
        rets = list(rets)
        del fr.returns[marks[2]:]
        exits = [(p, x, None) for p, x, _ in rec["breaks"]] + [(p[len(path0):], x, v) for p, x, v, _ in rets]
        exits.sort(key=lambda r: r[1].seq)
        arity = None
        for p, x, v in exits:
            if v is None:
                continue
            if _funclike(v) or v.op == "obj":
                raise Unsupported("loop returns an object")
            k = len(v.args) if v.op == "tuple" else 0
            if arity is not None and arity != k:
                raise Unsupported("loop returns tuples of different length")
            arity = k
        nv = (arity or 1) if arity is not None else 0

        def flags(v, x, isexit):
            if v is None:
                vals = [UNDEF] * nv
            elif v.op == "tuple":
                vals = [self.deref(q, x) for q in v.args]
            else:
                vals = [self.deref(v, x)]
            return mk("tuple", C(isexit), C(v is not None), *vals)
        recs = [(p, x, flags(v, x, True)) for p, x, v in exits]
        if end is not None:
            recs.append(((), end, flags(None, end, False)))
        m, fl = self.merge_records(recs)
        if fl.op != "tuple":
            raise Unsupported("loop exits")
        # entries of the recurrence
        ents = []
        for key, (mu, v) in mus.items():
            if _funclike(v):
                continue
            init = self.deref(v, st) if v is not UNDEF else UNDEF
            if key[0] == "n":
                q = m.env.get(key[1], UNDEF)
            elif key[0] == "l":
                q = mk("ref", key[1])
            else:
                q = m.objs[key[1][0]].get(key[1][1], UNDEF)
            ents.append([key, mu.args[1], init, self.deref(q, m), q, v])
        for nm, q in m.env.items():
            if ("n", nm) in mus or _funclike(q) or q.op == "obj":
                continue
            if nm in st.env and st.env[nm] is q:
                continue
            init = st.env.get(nm, UNDEF)
            init = self.deref(init, st) if init is not UNDEF else UNDEF
            ents.append([("n", nm), nm, init, self.deref(q, m), q, st.env.get(nm, UNDEF)])
        brk = mk("mu", depth, "@exit")
        ents.append([("x", "brk"), "@exit", FALSE, fl.args[0], None, None])
        ents.append([("x", "ret"), "@ret", FALSE, fl.args[1], None, None])
        for k in range(nv):
            ents.append([("x", k), "@rv%d" % k, UNDEF, fl.args[2 + k], None, None])
        evs = []
        for e in self.events[marks[0]:]:
            extra = e.pc[len(pc0):]
            if extra:
                nm = "@ev%d" % len(evs)
                ents.append([("e", len(evs)), nm, FALSE, mk("or", mk("mu", depth, nm), conj(extra)), None, None])
                evs.append(e)
        names = tuple(e[1] for e in ents)
        inits = tuple(e[2] for e in ents)
        nexts = tuple(e[3] for e in ents)
        cd = mk("not", brk)
        if condc is not None:
            cd = mk("and", cd, condc) if condc is not TRUE else cd
        final = {}
        for j, e in enumerate(ents):
            if count is not None:
                final[e[0]] = mk("rec", j, depth, names, it, ZERO, count, inits, nexts, cd)
            else:
                final[e[0]] = mk("rec", j, depth, names, NONE, NONE, NONE, inits, nexts, cd)
        out = st.copy()
        for key, nm, init, nxt, q, v in ents:
            val = final[key]
            if key[0] == "n":
                if q is not v:
                    out.env[key[1]] = self._rebox(v if v is not UNDEF else q, q, val, out, s)
            elif key[0] == "l":
                out.heap[key[1]] = val
            elif key[0] == "a":
                out.objs[key[1][0]][key[1][1]] = self._rebox(v, q, val, out, s)
        for i, e in enumerate(evs):
            e.pc = pc0 + (final[("e", i)],)
        nd = []
        for i, e in enumerate(evs):
            if e.kind == "raise":
                nd.append(("raise", e.pc))
        self.deaths[marks[1]:] = nd
        out.pc = pc0 + tuple(mk("not", conj(pc[len(pc0):])) for k, pc in nd)
        out.path, out.lpath = st.path, st.lpath
        retf, brkf = final[("x", "ret")], final[("x", "brk")]
        hasbrk = bool(rec["breaks"])
        if nv:
            vals = [final[("x", k)] for k in range(nv)]
            rs = out.copy()
            rs.pc = out.pc + (retf,)
            vs = [self._rebox(NONE, NONE, x, rs, s) for x in vals]
            rv = mk("tuple", *vs) if arity else vs[0]
            rs.path = path0 + (retf,)
            fr.returns.append((rs.path, rs, rv, s.lineno))
            self.exitseq += 1
            rs.seq = self.exitseq
            self.die("return", rs)
            out.pc = out.pc + (mk("not", retf),)
        self.exitflag = (brkf, retf, hasbrk)
        if condc is TRUE and count is None and not hasbrk:
            return "END"
        return out

    def s_While(self, s, st, fr):
        # concrete unrolling when the condition decides at every step
        snap = st.copy()
        marks = self._marks(fr)
        try:
            r = self.while_unroll(s, st, fr)
            if r is not None:
                return r[0]
        except Unsupported:
            pass
        self._restore(marks, fr)
        st = snap
        depth = self.loop_depth
        it = mk("iter", depth)
        self.loop_depth += 1
        try:
            try:
                r = self.summarise(s, s.body, st, fr, None, it, depth, None, cond=s.test)
            except (Unsupported, TooBig) as e:
                return self.opaque_loop(s, st, fr, str(e))
        finally:
            self.loop_depth -= 1
        if r == "END":
            return None
        if r is not None and self.exitflag is not None:
            return self.loop_else(s, r, fr)
        if r is not None and s.orelse:
            r = self.exec_block(s.orelse, r, fr)
        return r

    def while_unroll(self, s, st, fr):
        path0, lpath0 = st.path, st.lpath
        for _ in range(MAXUNROLL + 1):
            c = self.truth(self.eval(s.test, st, fr), st)
            r = self.decide(c, st)
            if r is False:
                st.path, st.lpath = path0, lpath0
                if s.orelse:
                    return (self.exec_block(s.orelse, st, fr),)
                return (st,)
            if r is None:
                return None
            end, rec = self.body_run(s.body, st, fr, None)
            if rec["breaks"] or end is None:
                return None
            st = end
        return None

    # ------------------------------------------------------------------ names
    def modvalue(self, dotted):
        if dotted in self.pkg.modules:
            return mk("module", dotted)
        return mk("ext", dotted)

    def from_import(self, base, name):
        if base in self.pkg.modules:
            full = base + "." + name
            m = self.pkg.modules[base]
            if name in m.defs or name in m.assigns or name in m.imports:
                return self.module_attr(base, name)
            if full in self.pkg.modules:
                return mk("module", full)
            return self.module_attr(base, name)
        if base + "." + name in self.pkg.modules:
            return mk("module", base + "." + name)
        return mk("ext", (base + "." + name) if base else name)

    def module_attr(self, modname, name):
        m = self.pkg.modules[modname]
        key = (modname, name)
        if key in self.modvals:
            return self.modvals[key]
        v = None
        if name in m.defs:
            d = m.defs[name]
            v = self.def_value(m, d, name)
        elif name in m.assigns:
            self.modvals[key] = UNDEF
            v = self.eval_global(m, m.assigns[name], name)
        elif name in m.imports:
            k = m.imports[name]
            v = self.modvalue(k[1]) if k[0] == "mod" else self.from_import(k[1], k[2])
        elif modname + "." + name in self.pkg.modules:
            v = mk("module", modname + "." + name)
        elif name == "__name__":
            v = C(modname)
        elif name == "__file__":
            v = C(m.path)
        else:
            for b in m.stars:
                if b in self.pkg.modules:
                    mm = self.pkg.modules[b]
                    if name in mm.defs or name in mm.assigns or name in mm.imports:
                        v = self.module_attr(b, name)
                        break
        if v is not None:
            self.modvals[key] = v
        return v

    def def_value(self, m, d, qual):
        if isinstance(d, ast.ClassDef):
            return mk("cls", m.name, qual)
        decs = [ast.unparse(x) for x in d.decorator_list]
        bad = [x for x in decs if x.split("(")[0].split(".")[-1] not in
               ("staticmethod", "classmethod", "property", "wraps", "lru_cache", "cache", "deprecated", "njit", "jit",
                "override", "no_type_check", "cached_property", "setter", "overload")]
        if bad:
            return self.apply_decorators(m, d, qual)
        return mk("func", m.name, qual)

    def apply_decorators(self, m, d, qual):
        v = mk("func", m.name, qual)
        fr = Frame(m, "<module>")
        st = State()
        old = self.curfr
        self.curfr = fr
        try:
            for dec in reversed(d.decorator_list):
                f = self.eval(dec, st, fr)
                if f.op in ("func", "closure", "bound"):
                    v = self.call(f, [v], {}, st, dec)
                else:
                    v = self.opaque("decorator")
        except Unsupported:
            v = self.opaque("decorator")
        finally:
            self.curfr = old
        self.globheap.update(st.heap)
        return v

    def eval_global(self, m, expr, name):
        fr = Frame(m, "<module>")
        st = State()
        old, oldc = self.curfr, self.cur
        self.curfr = fr
        nev = len(self.events)
        try:
            v = self.eval(expr, st, fr)
            if v.op == "ref":
                self.labels[v.args[0]] = ("global:%s.%s" % (m.name, name), self.where(expr))
            self.globheap.update(st.heap)
            self.globobjs.update(st.objs)
            return v
        except Unsupported:
            return self.opaque("global")
        finally:
            self.curfr, self.cur = old, oldc
            del self.events[nev:]

    def load_name(self, name, st, fr, node):
        if name in st.env and name not in fr.globals:
            v = st.env[name]
            if v is UNDEF:
                self.undefined(st, node, "UnboundLocalError", name)
            elif v.op == "gamma" and _maybe_undef(v):
                bad = _undef_cond(v)
                cb = self.decide(bad, st)
                if cb is not False:
                    self.undefined(st, node, "UnboundLocalError", name, None if cb else bad)
                v = _drop_undef(v)
            return v
        if name in fr.closure:
            return fr.closure[name]
        v = self.module_attr(fr.module.name, name)
        if v is not None:
            if v.op == "ref" and v.args[0] not in st.heap and v.args[0] in self.globheap:
                st.heap[v.args[0]] = self.globheap[v.args[0]]
            return v
        if name in BUILTINS:
            return mk("ext", "builtins." + name)
        if fr.localnames is not None and name in fr.localnames:
            self.undefined(st, node, "UnboundLocalError", name)
        self.undefined(st, node, "NameError", name, hard=self.closed_module(fr.module.name))
        return self.opaque("name " + name)

    def undefined(self, st, node, exc, name, cond=None, hard=True):
        """A use of a name or attribute that nothing has bound.  Where the binding is known to be
        missing this is an exception; where the analysis cannot see every binding it is only noted."""
        self.event("unbound", st, node, name=name, cond=cond)
        if not hard:
            return
        if cond is not None:
            s2 = st.copy()
            s2.pc += (cond,)
            self.event("raise", s2, node, exc=exc)
            self.die("raise", s2)
            return
        self.event("raise", st, node, exc=exc)
        self.die("raise", st)
        raise Dead()

    def closed_module(self, mname):
        """Every name the module can hold is visible in its source."""
        m = self.pkg.modules.get(mname)
        if m is None:
            return False
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names):
                return False
            if isinstance(n, ast.Name) and n.id in ("globals", "setattr", "exec", "eval", "vars", "locals"):
                return False
            if isinstance(n, ast.FunctionDef) and n.name == "__getattr__":
                return False
        return True

    def closed_class(self, key):
        """Every attribute of the class's instances is visible in the package's source."""
        for k in self.mro(key):
            r = self.class_def(k)
            if r is None:
                return False
            m, d, q = r
            if d.keywords or d.decorator_list or not self.closed_module(m.name):
                return False
            if len(self.mro(k)) == 1 and any(ast.unparse(b) != "object" for b in d.bases):
                return False
        return True

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw, st, node):
        o = f.op
        self.callsites += 1
        if o == "func":
            return self.call_func(f, None, args, kw, st, node)
        if o == "bound":
            return self.call_func(f.args[0], f.args[1], args, kw, st, node)
        if o == "closure":
            m, d, env, qual, outer = self.closures[f.args[0]]
            clo = dict(outer)
            clo.update({k: v for k, v in env.items() if v is not UNDEF})
            return self.run_body(m, d, qual, args, kw, st, node, closure=clo)
        if o == "cls":
            return self.instantiate(f, args, kw, st, node)
        if o in ("ext", "extobj", "extbound", "pybound"):
            from . import extmodel
            return extmodel.call(self, f, args, kw, st, node)
        if o == "gamma":
            c = f.args[0]
            r = self.decide(c, st)
            if r is not None:
                return self.call(f.args[1] if r else f.args[2], args, kw, st, node)
            res = {}

            def go(which):
                def run(s):
                    res[which] = self.call(f.args[which], args, kw, s, node)
                    return s
                return run
            m = self.branch(c, st, go(1), go(2))
            if m is None:
                raise Dead()
            st.env, st.heap, st.objs, st.pc = m.env, m.heap, m.objs, m.pc
            if 1 not in res or 2 not in res:
                return res[1] if 1 in res else res[2]
            return self.join_val(c, res[1], res[2])
        if o == "obj":
            cm = self.find_method(self.objcls[f.args[0]], "__call__")
            if cm:
                return self.call_func(cm, f, args, kw, st, node)
        if o == "partial":
            return self.call(f.args[0], list(f.args[1]) + args, dict(list(f.args[2]) + list(kw.items())), st, node)
        self.event("unknown-call", st, node, fn=show(f, 3))
        for a in list(args) + list(kw.values()):
            lab = self.label_of(a)
            if lab:
                self.event("escape", st, node, label=lab[0])
        return self.box(self.opaque("call"), st, node)

    def func_def(self, f):
        m = self.pkg.modules[f.args[0]]
        r = self.pkg.lookup_def(m, f.args[1])
        if r is None:
            raise Unsupported("function %s not found" % f.args[1])
        return r

    def call_func(self, f, selfv, args, kw, st, node):
        m, d, qual = self.func_def(f)
        if not isinstance(d, ast.FunctionDef):
            raise Unsupported("not a function")
        if selfv is not None:
            args = [selfv] + list(args)
        name = m.name.split(".")[-1] + ":" + qual
        if name in self.keep:
            return self.kept_call(name, m, d, args, kw, st, node, selfv)
        cls = None
        if "." in qual:
            cls = (m.name, qual.rsplit(".", 1)[0])
        nd = len(self.deaths)
        try:
            return self.run_body(m, d, qual, args, kw, st, node, cls=cls)
        except Unsupported as ex:
            if self.depth == 0 or "budget" in str(ex):
                raise
            del self.deaths[nd:]
            self.event("unknown-call", st, node, fn=qual, why=str(ex))
            for a in list(args) + list(kw.values()):
                lab = self.label_of(a)
                if lab:
                    self.event("escape", st, node, label=lab[0])
                if a.op == "obj":
                    for k in list(st.objs.get(a.args[0], {})):
                        st.objs[a.args[0]][k] = self.opaque("after unknown call")
            return self.box(self.opaque("call of " + qual), st, node)

    def kept_call(self, name, m, d, args, kw, st, node, selfv):
        env = self.bind_params(m, d, args, kw, st, node)
        names = [a.arg for a in d.args.posonlyargs + d.args.args + d.args.kwonlyargs]
        vals = []
        for k in names:
            v = env.get(k, UNDEF)
            if v.op == "obj":
                continue
            vals.append(self.deref(v, st))
        n = mk("pkg:" + name, *vals)
        self.keepcalls.append((name, dict(zip(names, [self.deref(env[k], st) if env[k].op != "obj" else env[k]
                                                       for k in names])), tuple(st.pc), self.where(node)))
        nret = self.tuple_arity(m, d)
        if nret:
            return mk("tuple", *[self.box(mk("index", n, C(k)), st, node) for k in range(nret)])
        return self.box(n, st, node)

    def tuple_arity(self, m, d):
        ns = set()
        for x in ast.walk(d):
            if isinstance(x, ast.Return) and x.value is not None:
                ns.add(len(x.value.elts) if isinstance(x.value, ast.Tuple) else 0)
        if len(ns) == 1:
            return ns.pop()
        return 0

    def bind_params(self, m, d, args, kw, st, node):
        a = d.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        kw = dict(kw)
        for k, v in zip(names, args):
            env[k] = v
        if len(args) > len(names):
            if a.vararg:
                env[a.vararg.arg] = mk("tuple", *args[len(names):])
            else:
                self.event("raise", st, node, exc="TypeError", why="too many arguments to " + d.name)
                raise Unsupported("too many arguments for %s" % d.name)
        elif a.vararg:
            env[a.vararg.arg] = mk("tuple")
        for k in list(kw):
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in env:
                    raise Unsupported("duplicate argument " + k)
                env[k] = kw.pop(k)
        if a.kwarg:
            env[a.kwarg.arg] = self.new_loc(mk("dict", tuple((C(k), v) for k, v in kw.items())), st)
        elif kw:
            raise Unsupported("unexpected keyword %s" % sorted(kw))
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defs.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
        for k in names + [x.arg for x in a.kwonlyargs]:
            if k not in env:
                if k not in defs:
                    raise Unsupported("missing argument %s of %s" % (k, d.name))
                env[k] = self.default_value(m, d, k, defs[k], st)
        return env

    def default_value(self, m, d, k, expr, st):
        key = ("default", m.name, d.lineno, k)
        if key not in self.modvals:
            fr = Frame(m, "<default>")
            s0 = State()
            old, oldc = self.curfr, self.cur
            self.curfr = fr
            nev = len(self.events)
            try:
                v = self.eval(expr, s0, fr)
            finally:
                self.curfr, self.cur = old, oldc
                del self.events[nev:]
            if v.op == "ref":
                self.labels[v.args[0]] = ("default:%s.%s" % (d.name, k), self.where(expr))
            self.globheap.update(s0.heap)
            self.modvals[key] = v
        v = self.modvals[key]
        if v.op == "ref" and v.args[0] not in st.heap:
            st.heap[v.args[0]] = self.globheap[v.args[0]]
        return v

    def run_body(self, m, d, qual, args, kw, st, node, closure=None, cls=None):
        if self.depth > MAXDEPTH or sum(1 for c in self.callstack if c[0] == (m.name, qual)) >= 3:
            self.event("unknown-call", st, node, fn=qual, why="recursion")
            return self.box(self.opaque("recursion"), st, node)
        if isinstance(d, ast.Lambda):
            body = None
        else:
            body = d.body
            if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(d)):
                self.event("unknown-call", st, node, fn=qual, why="generator")
                return self.box(self.opaque("generator"), st, node)
        env = self.bind_params(m, d if not isinstance(d, ast.Lambda) else _lam(d), args, kw, st, node)
        fr = Frame(m, qual, closure, cls)
        if body is not None:
            fr.localnames = self.assigned_names(body)
        if cls is not None and args:
            fr.selfv = args[0]
        saved = (st.env, st.path, st.lpath, st.pc)
        savecur = (self.cur, self.curfr)
        self.functions.add(m.path + ":" + qual)
        self.callstack.append(((m.name, qual), self.where(node)))
        self.depth += 1
        mark = len(self.deaths)
        try:
            s = st.copy()
            s.env, s.path, s.lpath = env, (), ()
            self.curfr = fr
            if body is None:
                self.cur = d
                v = self.eval(d.body, s, fr)
                fr.returns.append(((), s, v, d.lineno))
            else:
                end = self.exec_block(body, s, fr)
                if end is not None:
                    fr.returns.append(((), end, NONE, getattr(d, "lineno", 0)))
        finally:
            self.depth -= 1
            self.callstack.pop()
            self.cur, self.curfr = savecur
        if not fr.returns:
            # every path raises
            raise Dead()
        recs = [(p, x, v) for p, x, v, _ in fr.returns]
        res, val = self.merge_records(recs)
        pc0 = saved[3]
        facts = []
        keepd = []
        for kind, pc in self.deaths[mark:]:
            if kind == "raise":
                extra = pc[len(pc0):]
                if extra:
                    facts.append(mk("not", conj(extra)))
                keepd.append((kind, pc))
        self.deaths[mark:] = keepd
        st.heap, st.objs = dict(res.heap), {k: dict(v) for k, v in res.objs.items()}
        st.env, st.path, st.lpath = saved[0], saved[1], saved[2]
        st.pc = pc0 + tuple(facts)
        self.lastreturns = fr.returns
        return val

    # ------------------------------------------------------------------ classes and objects
    def class_def(self, key):
        m = self.pkg.modules[key[0]]
        r = self.pkg.lookup_def(m, key[1])
        return r

    def mro(self, key):
        out = []
        r = self.class_def(key)
        if r is None:
            return out
        m, d, qual = r
        out.append((m.name, qual))
        for b in d.bases:
            try:
                fr = Frame(m, "<class>")
                st = State()
                old = self.curfr
                self.curfr = fr
                v = self.eval(b, st, fr)
                self.curfr = old
            except Unsupported:
                continue
            if v.op == "cls":
                for k in self.mro((v.args[0], v.args[1])):
                    if k not in out:
                        out.append(k)
        return out

    def find_method(self, key, name, after=None):
        mro = self.mro(key)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            m, d, qual = self.class_def(k)
            for s in d.body:
                if isinstance(s, ast.FunctionDef) and s.name == name:
                    return mk("func", m.name, qual + "." + name)
        return None

    def class_attr(self, key, name):
        for k in self.mro(key):
            m, d, qual = self.class_def(k)
            for s in d.body:
                if isinstance(s, (ast.Assign, ast.AnnAssign)):
                    ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                    for t in ts:
                        if isinstance(t, ast.Name) and t.id == name and s.value is not None:
                            kk = ("clsattr", m.name, qual, name)
                            if kk not in self.modvals:
                                self.modvals[kk] = self.eval_global(m, s.value, qual + "." + name)
                            return self.modvals[kk]
        return None

    def instantiate(self, f, args, kw, st, node):
        key = (f.args[0], f.args[1])
        o = self.new_obj(key, st)
        init = self.find_method(key, "__init__")
        if init is not None:
            self.call_func(init, o, args, kw, st, node)
        else:
            r = self.class_def(key)
            if r and r[1].decorator_list:
                # dataclass: fields in order
                fields = [(s.target.id, s.value) for k in reversed(self.mro(key)) for s in self.class_def(k)[1].body
                          if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
                for (nm, dv), v in zip(fields, args):
                    st.objs[o.args[0]][nm] = v
                for nm, v in kw.items():
                    st.objs[o.args[0]][nm] = v
                for nm, dv in fields:
                    if nm not in st.objs[o.args[0]] and dv is not None:
                        st.objs[o.args[0]][nm] = self.eval_global(r[0], dv, nm)
            elif r and any(ast.unparse(b).split(".")[-1] == "NamedTuple" for b in r[1].bases):
                names = [s.target.id for s in r[1].body if isinstance(s, ast.AnnAssign)]
                vals = list(args) + [kw[n] for n in names[len(args):] if n in kw]
                return mk("tuple", *vals)
        return o

    def getattr(self, o, name, st, node):
        k = o.op
        if k == "module":
            v = self.module_attr(o.args[0], name)
            if v is None:
                self.undefined(st, node, "AttributeError", o.args[0] + "." + name,
                               hard=not name.startswith("__") and self.closed_module(o.args[0]))
                return self.opaque("attribute")
            if v.op == "ref" and v.args[0] not in st.heap and v.args[0] in self.globheap:
                st.heap[v.args[0]] = self.globheap[v.args[0]]
            return v
        if k == "ext":
            from . import extmodel
            return extmodel.ext_attr(self, o.args[0] + "." + name)
        if k == "obj":
            at = st.objs.get(o.args[0])
            if at is None:
                at = self.globobjs.get(o.args[0], {})
            if name in at and at[name] is not UNDEF:
                v = at[name]
                if v.op == "gamma" and _maybe_undef(v):
                    bad = _undef_cond(v)
                    cb = self.decide(bad, st)
                    if cb is not False:
                        self.undefined(st, node, "AttributeError", "." + name, None if cb else bad,
                                       hard=self.closed_class(self.objcls[o.args[0]]))
                    v = _drop_undef(v)
                return v
            key = self.objcls[o.args[0]]
            if name == "__class__":
                return mk("cls", *key)
            if name == "__dict__":
                return mk("objdict", o)
            f = self.find_method(key, name)
            if f is not None:
                m, d, _ = self.func_def(f)
                decs = [ast.unparse(x).split("(")[0].split(".")[-1] for x in d.decorator_list]
                if "property" in decs or "cached_property" in decs:
                    return self.call_func(f, o, [], {}, st, node)
                if "staticmethod" in decs:
                    return f
                if "classmethod" in decs:
                    return mk("bound", f, mk("cls", *key))
                return mk("bound", f, o)
            v = self.class_attr(key, name)
            if v is not None:
                if v.op == "ref" and v.args[0] not in st.heap and v.args[0] in self.globheap:
                    st.heap[v.args[0]] = self.globheap[v.args[0]]
                return v
            g = self.find_method(key, "__getattr__")
            if g is not None:
                return self.call_func(g, o, [C(name)], {}, st, node)
            self.undefined(st, node, "AttributeError", "." + name,
                           hard=not name.startswith("__") and self.closed_class(key))
            return self.opaque("attribute " + name)
        if k == "super":
            key, ob = (o.args[0], o.args[1]), o.args[2]
            f = self.find_method(self.objcls[ob.args[0]], name, after=key)
            if f is not None:
                return mk("bound", f, ob)
            return mk("ext", "builtins.object." + name)
        if k == "cls":
            key = (o.args[0], o.args[1])
            if name == "__name__":
                return C(o.args[1])
            f = self.find_method(key, name)
            if f is not None:
                m, d, _ = self.func_def(f)
                decs = [ast.unparse(x) for x in d.decorator_list]
                if "classmethod" in decs:
                    return mk("bound", f, o)
                return f
            v = self.class_attr(key, name)
            if v is not None:
                return v
            r = self.class_def(key)
            if r and any(ast.unparse(b).split(".")[-1] in ("Enum", "IntEnum", "StrEnum") for b in r[1].bases):
                return self.opaque("enum")
        if k == "gamma" and self._is_valgamma(o):
            c = o.args[0]
            r = self.decide(c, st)
            if r is not None:
                return self.getattr(o.args[1 if r else 2], name, st, node)
            a = self.getattr(o.args[1], name, st, node)
            b = self.getattr(o.args[2], name, st, node)
            return self.join_val(c, a, b)
        from . import extmodel
        return extmodel.array_attr(self, o, name, st, node)

    def _is_valgamma(self, o):
        return any(x.op in ("obj", "module", "ext", "cls", "func", "bound", "closure", "extobj") or
                   (x.op == "gamma" and self._is_valgamma(x)) for x in o.args[1:])

    def setattr(self, o, name, v, st, node):
        if o.op == "obj":
            key = self.objcls[o.args[0]]
            f = self.find_method(key, name)
            if f is not None:
                m, d, _ = self.func_def(f)
                if any(ast.unparse(x) == "property" for x in d.decorator_list):
                    for k in self.mro(key):
                        mm, dd, q = self.class_def(k)
                        for s in dd.body:
                            if isinstance(s, ast.FunctionDef) and s.name == name and any(
                                    ast.unparse(x) == name + ".setter" for x in s.decorator_list):
                                self.run_body(mm, s, q + "." + name, [o, v], {}, st, node, cls=k)
                                return
            st.objs[o.args[0]][name] = v
            lab = self.objlabel.get(o.args[0]) if hasattr(self, "objlabel") else None
            if lab:
                self.event("setattr", st, node, label=lab, name=name)
            return
        if o.op == "gamma":
            for x in o.args[1:]:
                if x.op == "obj":
                    old = st.objs[x.args[0]].get(name, UNDEF)
                    c = o.args[0] if x is o.args[1] else mk("not", o.args[0])
                    st.objs[x.args[0]][name] = self.join_val(c, v, old)
            return
        if o.op in ("module", "ext", "cls", "func"):
            self.event("global-write", st, node, name=show(o) + "." + name)
            return
        lab = self.label_of(o)
        if lab is not None:
            if name in ("shape", "dtype", "strides", "flat", "real", "imag"):
                c = self.deref(o, st)
                if name == "flat":
                    self.write_back(o, mk("full_like", c, self.deref(v, st)), st, node)
                elif name == "shape":
                    self.write_back(o, mk("reshape_", c, self.deref(v, st)), st, node)
                else:
                    self.write_back(o, mk("set_" + name, c, self.deref(v, st)), st, node)
                return
        self.event("opaque", st, node, why="attribute assignment")

    # ------------------------------------------------------------------ item access
    def deref_shallow(self, v, st):
        if v.op == "ref":
            c = st.heap.get(v.args[0])
            if c is None:
                c = self.globheap.get(v.args[0], v)
            return c
        if v.op == "gamma" and self.isref(v):
            a, b = self.deref_shallow(v.args[1], st), self.deref_shallow(v.args[2], st)
            if a.op == b.op and a.op in ("list", "tuple") and len(a.args) == len(b.args):
                return mk(a.op, *[self.join_val(v.args[0], x, y) for x, y in zip(a.args, b.args)])
            return mk("gamma", v.args[0], a, b)
        if v.op in ("view", "vfn"):
            return self.deref(v, st)
        return v

    def eval_index(self, s, st, fr):
        if isinstance(s, ast.Tuple):
            return mk("tuple", *[self.eval_index(e, st, fr) for e in s.elts])
        if isinstance(s, ast.Slice):
            def g(x):
                return NONE if x is None else self.deref(self.eval(x, st, fr), st)
            return mk("slice", g(s.lower), g(s.upper), g(s.step))
        return self.eval(s, st, fr)

    def basic_index(self, i):
        """True for indexing that yields a view."""
        items = i.args if i.op == "tuple" else (i,)
        has = False
        for x in items:
            if x.op == "slice" or (x.op == "const" and (x.val is None or x.val == "...")):
                has = True
            else:
                c = x
                if self.shape(c) != () or self.ctx.is_bool(self.canon(c)):
                    return False
        return has

    def slices(self, i):
        return i.op == "slice" or i.op == "gamma" and self.slices(i.args[1]) and self.slices(i.args[2])

    def getitem(self, b, i, st, node):
        if b.op == "gamma" and not self.isref(b) and any(x.op in ("tuple", "obj") for x in b.args[1:]):
            r = self.decide(b.args[0], st)
            if r is not None:
                return self.getitem(b.args[1 if r else 2], i, st, node)
            return self.join_val(b.args[0], self.getitem(b.args[1], i, st, node), self.getitem(b.args[2], i, st, node))
        sh = self.deref_shallow(b, st)
        ci = self.canon(i) if i.op not in REFS and not self._hasref(i) else i
        if of_plot(sh):
            return mk("extobj", "plt.item", sh, ci)
        if sh.op in ("tuple", "list"):
            if ci.op == "const" and isinstance(ci.val, (int, bool)):
                k = int(ci.val)
                if -len(sh.args) <= k < len(sh.args):
                    return sh.args[k]
                self.event("raise", st, node, exc="IndexError")
                self.die("raise", st)
                raise Dead()
            if ci.op == "slice" and all(x is NONE or x.op == "const" for x in ci.args):
                sl = slice(*[None if x is NONE else int(x.val) for x in ci.args])
                r = mk(sh.op, *sh.args[sl])
                return self.new_loc(r, st, "fresh", node) if sh.op == "list" else r
        if sh.op == "objdict" and ci.op == "const" and isinstance(ci.val, str):
            h = self.has_own(sh.args[0], ci.val, st)
            r = self.decide(h, st)
            if r is False:
                self.event("raise", st, node, exc="KeyError")
                self.die("raise", st)
                raise Dead()
            if r is None:
                self.undefined(st, node, "KeyError", "." + ci.val, mk("not", h), hard=True)
            v = st.objs[sh.args[0].args[0]][ci.val]
            return _drop_undef(v) if v.op == "gamma" else v
        if sh.op == "dict":
            k = self.deref(i, st)
            for kk, v in sh.args[0]:
                if kk is k or self.canon(kk) is self.canon(k):
                    return v
            if sh.args[0] and self.canon(k).op != "const":
                # choose by key comparison when all keys are constants
                r = None
                isb = self.ctx.is_bool(self.canon(k))
                for kk, v in reversed(sh.args[0]):
                    eq = mk("eq", k, kk)
                    if isb and kk.op == "const" and kk.val in (0, 1):
                        eq = k if kk.val else mk("not", k)
                    r = v if r is None else self.join_val(eq, v, r)
                self.event("dict-lookup", st, node, key=k)
                return r
            self.event("raise", st, node, exc="KeyError")
            return self.opaque("missing key", st, node)
        if sh.op == "obj":
            f = self.find_method(self.objcls[sh.args[0]], "__getitem__")
            if f:
                return self.call_func(f, sh, [i], {}, st, node)
        idx = self.deref(i, st)
        if idx.op == "tuple" and len(idx.args) == 1:
            idx = idx.args[0]
        if idx.op == "index":
            ci = self.canon(idx)  # a slice taken from a list of slices
            if ci.op in ("slice", "gamma"):
                idx = ci
        if idx.op == "gamma" and any(x.op in ("slice", "gamma") for x in idx.args[1:]) and self.slices(idx):
            r = self.decide(idx.args[0], st)
            if r is not None:
                return self.getitem(b, idx.args[1 if r else 2], st, node)
            return self.join_val(idx.args[0], self.getitem(b, idx.args[1], st, node), self.getitem(b, idx.args[2], st, node))
        if self.isref(b) and self.basic_index(idx):
            return mk("view", b, idx)
        c = self.deref(b, st)
        r = mk("index", c, idx)
        if self.isref(b) and idx.op != "tuple" and self.shape(idx) == ():
            s = self.shape(c)
            if s is not None and len(s) >= 2:
                return mk("view", b, idx)
        return self.box(r, st, node)

    def setitem(self, b, i, v, st, node):
        sh = self.deref_shallow(b, st)
        if sh.op == "list":
            ci = self.canon(self.deref(i, st)) if i.op != "slice" else i
            if ci.op == "const" and isinstance(ci.val, int) and -len(sh.args) <= ci.val < len(sh.args):
                a = list(sh.args)
                a[ci.val] = v
                self.write_back(b, mk("list", *a), st, node)
                return
        if sh.op == "objdict":
            k = self.deref(i, st)
            if k.op == "const" and isinstance(k.val, str):
                st.objs[sh.args[0].args[0]][k.val] = v
                return
        if sh.op == "dict":
            k = self.deref(i, st)
            items = [(kk, vv) for kk, vv in sh.args[0] if kk is not k]
            self.write_back(b, mk("dict", tuple(items + [(k, v)])), st, node)
            return
        if sh.op == "obj":
            f = self.find_method(self.objcls[sh.args[0]], "__setitem__")
            if f:
                self.call_func(f, sh, [i, v], {}, st, node)
                return
        if sh.op in ("ext", "extobj"):
            self.event("global-write", st, node, name=show(sh, 3) + "[]")
            return
        idx = self.deref(i, st)
        if idx.op == "tuple" and len(idx.args) == 1:
            idx = idx.args[0]
        val = self.deref(v, st)
        c = self.deref(b, st)
        self.write_back(b, mk("store", c, idx, val), st, node)

    def write_back(self, v, new, st, node):
        if v.op == "ref":
            l = v.args[0]
            lab = self.labels.get(l, ("?", None))
            st.heap[l] = new
            self.event("mutate", st, node, loc=l, label=lab[0], made=lab[1])
        elif v.op == "view":
            base = v.args[0]
            self.write_back(base, mk("store", self.deref(base, st), v.args[1], new), st, node)
        elif v.op == "vfn":
            base = v.args[0]
            self.write_back(base, mk("putview", v.args[1], self.deref(base, st), new), st, node)
        elif v.op == "gamma":
            c = v.args[0]
            o1, o2 = self.deref(v.args[1], st), self.deref(v.args[2], st)
            for x, old, cc in ((v.args[1], o1, c), (v.args[2], o2, mk("not", c))):
                if self.isref(x):
                    pc = st.pc
                    st.pc = pc + (cc,)
                    self.write_back(x, mk("gamma", cc, new, old), st, node)
                    st.pc = pc
        else:
            self.event("opaque", st, node, why="store into value")

    # ------------------------------------------------------------------ expressions
    BIN = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "div", "Pow": "pow", "Mod": "mod", "FloorDiv": "floordiv",
           "BitAnd": "bitand", "BitOr": "bitor", "BitXor": "xor", "MatMult": "ext:numpy.matmul", "LShift": "lshift",
           "RShift": "rshift"}

    def eval(self, e, st, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        old = self.cur
        if hasattr(e, "lineno"):
            self.cur = e
        r = m(e, st, fr)
        self.cur = old
        return r

    def e_Constant(self, e, st, fr):
        return C(e.value) if not isinstance(e.value, bytes) else C(repr(e.value))

    def e_Name(self, e, st, fr):
        return self.load_name(e.id, st, fr, e)

    def e_Attribute(self, e, st, fr):
        return self.getattr(self.eval(e.value, st, fr), e.attr, st, e)

    def e_Subscript(self, e, st, fr):
        b = self.eval(e.value, st, fr)
        if b.op in ("ext", "cls"):
            return b  # generic alias
        return self.getitem(b, self.eval_index(e.slice, st, fr), st, e)

    def e_Slice(self, e, st, fr):
        return self.eval_index(e, st, fr)

    def e_Starred(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def _elts(self, elts, st, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st, fr)
                seq = self.iterate(v, st, x)
                if seq is None or seq[0] != "seq":
                    raise Unsupported("starred element")
                out += seq[1]
            else:
                out.append(self.eval(x, st, fr))
        return out

    def e_Tuple(self, e, st, fr):
        return mk("tuple", *self._elts(e.elts, st, fr))

    def e_List(self, e, st, fr):
        return self.new_loc(mk("list", *self._elts(e.elts, st, fr)), st, "fresh", e)

    def e_Set(self, e, st, fr):
        return mk("tuple", *self._elts(e.elts, st, fr))

    def e_Dict(self, e, st, fr):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.deref_shallow(self.eval(v, st, fr), st)
                if d.op != "dict":
                    raise Unsupported("dict unpacking")
                items += list(d.args[0])
            else:
                items.append((self.deref(self.eval(k, st, fr), st), self.eval(v, st, fr)))
        return self.new_loc(mk("dict", tuple(items)), st, "fresh", e)

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(self.deref(self.eval(v.value, st, fr), st))
            elif isinstance(v, ast.Constant):
                parts.append(C(v.value))
        if all(p.op == "const" and isinstance(p.val, str) for p in parts):
            return C("".join(p.val for p in parts))
        return mk("fstr", *parts)

    def e_NamedExpr(self, e, st, fr):
        v = self.eval(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def e_Lambda(self, e, st, fr):
        k = len(self.closures) + 1
        self.closures[k] = (fr.module, e, dict(st.env), fr.qual + ".<lambda>", fr.closure)
        return mk("closure", k)

    def e_BinOp(self, e, st, fr):
        a = self.eval(e.left, st, fr)
        b = self.eval(e.right, st, fr)
        return self.binop(self.BIN[type(e.op).__name__], a, b, st, e)

    def binop(self, op, a, b, st, node):
        ca, cb = self.deref_shallow(a, st), self.deref_shallow(b, st)
        if op == "add" and ca.op == cb.op and ca.op in ("list", "tuple"):
            r = mk(ca.op, *(ca.args + cb.args))
            return self.box(r, st, node) if ca.op == "list" else r
        if op == "mul":
            for x, y in ((ca, cb), (cb, ca)):
                if x.op in ("list", "tuple"):
                    n = self.canon(self.deref(y, st))
                    if self.shape(n) == () and (self.ctx.is_int(n)):
                        if n.op == "const" and n.val * len(x.args) <= 64:
                            return self.box(mk(x.op, *(x.args * max(int(n.val), 0))), st, node)
                        if len(x.args) == 1:
                            return self.box(mk("full", (n,), self.deref(x.args[0], st)), st, node)
        for x in (ca, cb):
            if x.op == "obj":
                r = self.dunder(op, a, b, ca, cb, st, node)
                if r is not None:
                    return r
        x, y = self.deref(a, st), self.deref(b, st)
        if op == "add" and x.op == "const" and y.op == "const" and isinstance(x.val, str) and isinstance(y.val, str):
            return C(x.val + y.val)
        if self._isstr(x) or self._isstr(y):
            return mk("strop", C(op), x, y)
        if op in ("bitand", "bitor", "xor"):
            if self.ctx.is_bool(self.canon(x)) and self.ctx.is_bool(self.canon(y)):
                op = {"bitand": "and", "bitor": "or", "xor": "ne"}[op]
        if x.op == "list":
            x = x
        return self.box(mk(op, x, y), st, node)

    def dunder(self, op, a, b, ca, cb, st, node):
        names = {"add": "__add__", "sub": "__sub__", "mul": "__mul__", "div": "__truediv__"}
        if op in names and ca.op == "obj":
            f = self.find_method(self.objcls[ca.args[0]], names[op])
            if f:
                return self.call_func(f, ca, [b], {}, st, node)
        return None

    def _isstr(self, x):
        return (x.op == "const" and isinstance(x.val, str)) or x.op in ("fstr", "strop") or (
            x.op == "sym" and self.ctx.m(x, "kind") == "str")

    def e_UnaryOp(self, e, st, fr):
        v = self.eval(e.operand, st, fr)
        o = type(e.op).__name__
        if o == "Not":
            return mk("not", self.truth(v, st)) if self.truth(v, st).op != "const" else C(
                not self.truth(v, st).val)
        c = self.deref(v, st)
        if o == "USub":
            if c.op == "const" and isinstance(c.val, (int, float, complex)) and not isinstance(c.val, bool):
                return C(-c.val)
            return self.box(mk("neg", c), st, e)
        if o == "Invert":
            return self.box(mk("not", c) if self.ctx.is_bool(self.canon(c)) else mk("sub", mk("neg", c), ONE), st, e)
        return v

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        return self._boolop([lambda s, x=x: self.eval(x, s, fr) for x in e.values], isand, st)

    def _boolop(self, thunks, isand, st):
        v = thunks[0](st)
        if len(thunks) == 1:
            return v
        t = self.truth(v, st)
        r = self.decide(t, st)
        if r is not None:
            if r is isand:
                return self._boolop(thunks[1:], isand, st)
            return v
        pc = st.pc
        st.pc = pc + (t if isand else mk("not", t),)
        nev = len(self.deaths)
        w = self._boolop(thunks[1:], isand, st)
        st.pc = pc
        tv = self.canon(self.deref(v, st))
        if self.ctx.is_bool(tv) or tv.op in ("not", "bool", "and", "or"):
            tw = self.truth(w, st)
            cw = self.deref(w, st)
            if cw is tw or self.ctx.is_bool(self.canon(cw)):
                return mk("and" if isand else "or", t, tw)
        return self.join_val(t, w, v) if isand else self.join_val(t, v, w)

    def truth(self, v, st):
        if v.op in ("obj", "func", "cls", "module", "ext", "bound", "closure", "extobj", "pybound", "extbound"):
            if v.op == "obj":
                key = self.objcls[v.args[0]]
                for nm in ("__bool__", "__len__"):
                    f = self.find_method(key, nm)
                    if f:
                        return mk("bool", self.deref(self.call_func(f, v, [], {}, st, self.cur), st))
            return TRUE
        c = self.deref_shallow(v, st)
        if c.op in ("list", "tuple"):
            return C(len(c.args) > 0)
        if c.op == "dict":
            return C(len(c.args[0]) > 0)
        c = self.deref(v, st)
        if c.op == "const":
            if c.args[0] == "ellipsis":
                return TRUE
            return C(bool(c.val))
        if c.op == "gamma":
            return mk("gamma", c.args[0], self.truth(c.args[1], st), self.truth(c.args[2], st))
        if c.op in ("fill", "filtermap", "lappend") and c.args[0].op == "list":
            return mk("lt", ZERO, mk("len", c))
        if self._isstr(c):
            return mk("ne", c, C(""))
        if c.op == "sym" and self.ctx.m(c, "kind") in ("list",):
            return mk("lt", ZERO, mk("len", c))
        cc = self.canon(c)
        if self.ctx.is_bool(cc):
            s = self.ctx.shape(cc)
            if s is not None and len(s) >= 1:
                return mk("bool", c)
            return c
        return mk("bool", c)

    def e_IfExp(self, e, st, fr):
        c = self.truth(self.eval(e.test, st, fr), st)
        r = self.decide(c, st)
        if r is True:
            return self.eval(e.body, st, fr)
        if r is False:
            return self.eval(e.orelse, st, fr)
        res = {}

        def go(k, x):
            def run(s):
                res[k] = self.eval(x, s, fr)
                return s
            return run
        m = self.branch(c, st, go(1, e.body), go(2, e.orelse))
        if m is None:
            raise Dead()
        st.env, st.heap, st.objs, st.pc = m.env, m.heap, m.objs, m.pc
        if 1 not in res or 2 not in res:
            return res[1] if 1 in res else res[2]
        return self.join_val(c, res[1], res[2])

    def e_Compare(self, e, st, fr):
        left = self.eval(e.left, st, fr)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st, fr)
            out.append(self.compare(type(op).__name__, left, right, st, e))
            left = right
        if len(out) == 1:
            return self.box(out[0], st, e)
        res = out[0]
        for x in out[1:]:
            res = mk("and", res, x)
        return res

    def compare(self, op, a, b, st, node):
        if op in ("Is", "IsNot"):
            r = self.is_(a, b, st)
            return r if op == "Is" else (C(not r.val) if r.op == "const" else mk("not", r))
        x, y = self.deref(a, st), self.deref(b, st)
        if op in ("In", "NotIn"):
            r = self.contains(x, b, st)
            return r if op == "In" else (C(not r.val) if r.op == "const" else mk("not", r))
        if op == "Eq" or op == "NotEq":
            if x.op in ("dtypeof", "resulttype") or y.op in ("dtypeof", "resulttype"):
                from .extmodel import dt
                x, y = [dt(self, q, st) if q.op in ("ext", "const", "extobj") and q is not NONE else q for q in (x, y)]
                return mk("eq" if op == "Eq" else "ne", x, y)
            if (x is NONE) != (y is NONE) and (x is NONE or y is NONE):
                other = y if x is NONE else x
                if self.definitely_not_none(other):
                    return C(op == "NotEq")
            r = mk("eq", x, y) if op == "Eq" else mk("ne", x, y)
            if x.op == "const" and y.op == "const":
                return C((x.val == y.val) == (op == "Eq"))
            return r
        if op == "Lt":
            return mk("lt", x, y)
        if op == "LtE":
            return mk("le", x, y)
        if op == "Gt":
            return mk("lt", y, x)
        return mk("le", y, x)

    def definitely_not_none(self, c):
        if c.op == "sym":
            return self.ctx.m(c, "kind") is not None or self.ctx.m(c, "shape") is not None
        return c.op not in ("opaque", "mu", "gamma", "rec", "index", "undef", "caught") and not c.op.startswith("ext:")

    def is_(self, a, b, st):
        if a is b and a.op != "const":
            return TRUE
        x, y = self.deref(a, st), self.deref(b, st)
        if y is not NONE and x is NONE:
            x, y = y, x
        if y is NONE:
            if x is NONE:
                return TRUE
            if x.op == "gamma":
                return mk("gamma", x.args[0], self.is_(x.args[1], NONE, st), self.is_(x.args[2], NONE, st))
            if self.definitely_not_none(x):
                return FALSE
            s = self.shape(x)
            if s is not None:
                return FALSE
            return mk("is", x, NONE)
        if x.op == "const" and y.op == "const":
            return C(x.val is y.val or x.val == y.val)
        if y.op == "const" and isinstance(y.val, bool):
            if x.op == "sym" and self.ctx.m(x, "dtype") == "bool":
                return mk("eq", x, y)
            if self.ctx.is_bool(self.canon(x)):
                return mk("eq", x, y)
        if a.op in ("ext", "cls", "obj", "func", "module") and b.op in ("ext", "cls", "obj", "func", "module"):
            return C(a is b)
        return mk("is", x, y)

    def contains(self, x, b, st):
        d = self.deref_shallow(b, st)
        if x.op in ("dtypeof", "resulttype") and d.op in ("tuple", "list") and d.args:
            r = None
            for y in d.args:
                e = self.compare("Eq", x, y, st, None)
                r = e if r is None else mk("or", r, e)
            return r
        if d.op in ("tuple", "list"):
            r = FALSE
            for y in d.args:
                yy = self.deref(y, st)
                e = C(x.val == yy.val) if x.op == "const" and yy.op == "const" else mk("eq", x, yy)
                if e is TRUE:
                    return TRUE
                if e is FALSE:
                    continue
                r = e if r is FALSE else mk("or", r, e)
            return r
        if d.op == "dict":
            r = FALSE
            for k, _ in d.args[0]:
                e = C(x.val == k.val) if x.op == "const" and k.op == "const" else mk("eq", x, k)
                if e is TRUE:
                    return TRUE
                if e is not FALSE:
                    r = e if r is FALSE else mk("or", r, e)
            return r
        if d.op == "objdict":
            if x.op == "const":
                return self.has_own(d.args[0], x.val, st)
        c = self.deref(b, st)
        if x.op == "const" and c.op == "const" and isinstance(x.val, str) and isinstance(c.val, str):
            return C(x.val in c.val)
        return mk("in", x, c)

    @staticmethod
    def drop_undef(v):
        return _drop_undef(v) if v.op == "gamma" else v

    def has_own(self, o, name, st):
        """Whether the instance dictionary has the name."""
        v = st.objs.get(o.args[0], {}).get(name)
        if v is None or v is UNDEF:
            return FALSE
        if v.op == "gamma" and _maybe_undef(v):
            return mk("not", _undef_cond(v))
        return TRUE

    def own_items(self, o, st):
        """The attributes of an instance, or None when it depends on a condition which there are."""
        at = st.objs.get(o.args[0], {})
        if any(v.op == "gamma" and _maybe_undef(v) for v in at.values() if v is not UNDEF):
            return None
        return [(C(k), v) for k, v in at.items() if v is not UNDEF]

    def hasattr_(self, o, name, st):
        if o.op == "obj":
            at = st.objs.get(o.args[0], {})
            v = at.get(name)
            if v is None or v is UNDEF:
                key = self.objcls[o.args[0]]
                return C(self.find_method(key, name) is not None or self.class_attr(key, name) is not None)
            if v.op == "gamma" and _maybe_undef(v):
                return mk("not", _undef_cond(v))
            return TRUE
        return mk("hasattr", self.deref(o, st), C(name))

    def e_Call(self, e, st, fr):
        # super() needs the frame
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.env:
            if e.args:
                a = [self.eval(x, st, fr) for x in e.args]
                return mk("super", a[0].args[0], a[0].args[1], a[1])
            if fr.cls is None or fr.selfv is None:
                raise Unsupported("super() outside method")
            return mk("super", fr.cls[0], fr.cls[1], fr.selfv)
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "globals", "vars", "eval", "exec") and \
                e.func.id not in st.env and not (e.func.id == "vars" and len(e.args) == 1):
            raise Unsupported(e.func.id)
        f = self.eval(e.func, st, fr)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st, fr)
                seq = self.iterate(v, st, a)
                if seq is None or seq[0] != "seq":
                    raise Unsupported("starred argument")
                args += seq[1]
            else:
                args.append(self.eval(a, st, fr))
        for k in e.keywords:
            v = self.eval(k.value, st, fr)
            if k.arg is None:
                d = self.deref_shallow(v, st)
                if d.op != "dict" or any(kk.op != "const" for kk, _ in d.args[0]):
                    raise Unsupported("** argument")
                for kk, vv in d.args[0]:
                    kw[kk.val] = vv
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, st, e)

    # comprehensions
    def e_ListComp(self, e, st, fr):
        return self.comp(e, st, fr, "list")

    def e_GeneratorExp(self, e, st, fr):
        return self.comp(e, st, fr, "list")

    def e_SetComp(self, e, st, fr):
        return self.comp(e, st, fr, "list")

    def e_DictComp(self, e, st, fr):
        if len(e.generators) != 1:
            raise Unsupported("dict comprehension")
        g = e.generators[0]
        seq = self.iterate(self.eval(g.iter, st, fr), st, e)
        if seq is None or seq[0] != "seq" or g.ifs:
            raise Unsupported("dict comprehension")
        items = []
        saved = dict(st.env)
        for v in seq[1]:
            self.assign(g.target, v, st, fr)
            items.append((self.deref(self.eval(e.key, st, fr), st), self.eval(e.value, st, fr)))
        st.env = saved
        return self.new_loc(mk("dict", tuple(items)), st, "fresh", e)

    def comp(self, e, st, fr, kind):
        saved = dict(st.env)
        try:
            r = self._comp(e, e.generators, st, fr)
        finally:
            st.env = saved
        return self.new_loc(r, st, "fresh", e)

    def _comp(self, e, gens, st, fr):
        g = gens[0]
        itv = self.eval(g.iter, st, fr)
        seq = self.iterate(itv, st, e)
        if seq is None and itv.op != "iterdesc" and self.deref_shallow(itv, st).op == "gamma":
            cc = self.deref(itv, st)
            if not self._is_valgamma(cc):
                seq = ("sym", mk("len", cc), lambda i, s=st: self.getitem(itv, i, s, e))
        if seq is None:
            return self.opaque("comprehension", st, e)
        if seq[0] == "seq":
            out = []
            cur = mk("list")
            for v in seq[1]:
                self.assign(g.target, v, st, fr)
                ok = TRUE
                for c in g.ifs:
                    t = self.truth(self.eval(c, st, fr), st)
                    r = self.decide(t, st)
                    if r is False:
                        ok = FALSE
                        break
                    if r is None:
                        ok = t if ok is TRUE else mk("and", ok, t)
                if ok is FALSE:
                    continue
                if len(gens) > 1:
                    sub = self._comp(e, gens[1:], st, fr)
                    if sub.op != "list" or ok is not TRUE or cur.op != "list":
                        return self.opaque("nested comprehension", st, e)
                    cur = mk("list", *(cur.args + sub.args))
                    continue
                x = self.eval(e.elt, st, fr)
                if ok is TRUE and cur.op == "list":
                    cur = mk("list", *(cur.args + (x,)))
                elif ok is TRUE:
                    cur = mk("lappend", cur, self.deref(x, st))
                else:
                    cur = mk("gamma", ok, mk("lappend", cur, self.deref(x, st)), cur)
            return cur
        if len(gens) > 1:
            return self.opaque("nested comprehension", st, e)
        depth = self.loop_depth
        it = mk("iter", depth)
        self.loop_depth += 1
        try:
            self.assign(g.target, seq[2](it, st), st, fr)
            ok = TRUE
            for c in g.ifs:
                t = self.truth(self.eval(c, st, fr), st)
                ok = t if ok is TRUE else mk("and", ok, t)
            x = self.deref(self.eval(e.elt, st, fr), st)
        finally:
            self.loop_depth -= 1
        if ok is TRUE:
            return mk("fill", mk("list"), it, ZERO, seq[1], x)
        return mk("filtermap", mk("list"), it, ZERO, seq[1], ok, x)


class Dead(Exception):
    """Every path of a call raises."""


def _lam(d):
    f = ast.FunctionDef(name="<lambda>", args=d.args, body=[], decorator_list=[], returns=None, type_comment=None)
    f.lineno = d.lineno
    return f


def _funclike(v):
    return isinstance(v, Node) and v.op in ("obj", "func", "cls", "module", "ext", "bound", "closure", "extobj")


def _maybe_undef(v):
    return v is UNDEF or (v.op == "gamma" and (_maybe_undef(v.args[1]) or _maybe_undef(v.args[2])))


def _undef_cond(v):
    if v is UNDEF:
        return TRUE
    if v.op != "gamma":
        return FALSE
    c = v.args[0]
    a, b = _undef_cond(v.args[1]), _undef_cond(v.args[2])
    if a is FALSE and b is FALSE:
        return FALSE
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return mk("not", c)
    return mk("gamma", c, a, b)


def _drop_undef(v):
    if v.op != "gamma":
        return v
    a, b = v.args[1], v.args[2]
    if a is UNDEF:
        return _drop_undef(b)
    if b is UNDEF:
        return _drop_undef(a)
    return mk("gamma", v.args[0], _drop_undef(a), _drop_undef(b))


BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)
