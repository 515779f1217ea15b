"""Loads the analysed package: syntax trees, symbol tables, import resolution.  Nothing is imported or executed."""
from __future__ import annotations

import ast
import os


IMPORTED = "_statements_of_the_module"


class PkgError(Exception):
    pass


class ModuleInfo:
    def __init__(self, name, path, tree, is_pkg):
        self.name = name
        self.path = path
        self.tree = tree
        self.is_pkg = is_pkg
        self.defs = {}  # name -> ast def/class (last binding wins)
        self.imports = {}  # name -> ('mod', dotted) | ('from', dotted, attr)
        self.assigns = {}  # name -> value expr (last), or statement
        self.stars = []


class Package:
    def __init__(self, root, pkgname="deltares_wave_toolbox"):
        self.root = root
        self.pkgname = pkgname
        self.modules = {}
        base = os.path.join(root, pkgname)
        if not os.path.isdir(base):
            raise PkgError("package directory %s not found" % base)
        for d, _, fs in os.walk(base):
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    is_pkg = rel.endswith(".__init__")
                    if is_pkg:
                        rel = rel[: -len(".__init__")]
                    with open(p, encoding="utf-8") as fh:
                        src = fh.read()
                    try:
                        tree = ast.parse(src, p)
                    except SyntaxError as e:
                        raise PkgError("cannot parse %s: %s" % (p, e))
                    self.add(ModuleInfo(rel, os.path.relpath(p, root), tree, is_pkg))

    def add(self, m):
        self.modules[m.name] = m
        self._scan(m, m.tree.body)
        if m.name.split(".")[0] == self.pkgname:
            b = [s for s in m.tree.body if self._does(s)]
            for c in m.tree.body:
                if isinstance(c, ast.ClassDef):
                    b += [s for s in c.body if self._does(s)]
            if b:
                # what importing the module does besides defining names
                d = ast.FunctionDef(name=IMPORTED, args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                    body=b, decorator_list=[], lineno=b[0].lineno, col_offset=0)
                m.defs[IMPORTED] = ast.fix_missing_locations(d)

    @staticmethod
    def _does(s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass)):
            return False
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            return False
        if isinstance(s, ast.If) and any(isinstance(n, ast.Name) and n.id in ("__name__", "TYPE_CHECKING") for n in ast.walk(s.test)):
            return False
        return True

    def _scan(self, m, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                m.defs[s.name] = s
                m.assigns.pop(s.name, None)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        m.imports[a.asname] = ("mod", a.name)
                    else:
                        m.imports[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = self._relbase(m, s)
                for a in s.names:
                    if a.name == "*":
                        m.stars.append(base)
                    else:
                        m.imports[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.assigns[t.id] = s.value
                        m.defs.pop(t.id, None)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for k, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                m.assigns[e.id] = ast.copy_location(
                                    ast.Subscript(value=s.value, slice=ast.Constant(value=k), ctx=ast.Load()), s)
                                ast.fix_missing_locations(m.assigns[e.id])
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                m.assigns[s.target.id] = s.value
            elif isinstance(s, (ast.If, ast.Try, ast.With)):
                self._scan(m, s.body)
                if isinstance(s, ast.If):
                    # TYPE_CHECKING blocks and the like only add names
                    for n in s.orelse:
                        self._scan(m, [n])

    def _relbase(self, m, s):
        if not s.level:
            return s.module or ""
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        if s.level > 1:
            parts = parts[: -(s.level - 1)]
        return ".".join(parts + ([s.module] if s.module else []))

    def find(self, dotted):
        """'core_time.sort_wave_params' -> (module, qualname) by suffix of the module path."""
        mod, _, qual = dotted.partition(":")
        for name, m in self.modules.items():
            if name == mod or name.endswith("." + mod):
                return m, qual
        return None, qual

    def lookup_def(self, m, qual, depth=0):
        """(module, ast def) of a possibly dotted name, following re-exports."""
        if depth > 10:
            return None
        head, _, rest = qual.partition(".")
        if head in m.defs:
            d = m.defs[head]
            if not rest:
                return m, d, head
            if isinstance(d, ast.ClassDef):
                for s in d.body:
                    if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == rest:
                        return m, s, qual
            return None
        if head in m.imports:
            k = m.imports[head]
            if k[0] == "from" and k[1] in self.modules:
                q = k[2] + ("." + rest if rest else "")
                return self.lookup_def(self.modules[k[1]], q, depth + 1)
        for b in m.stars:
            if b in self.modules:
                r = self.lookup_def(self.modules[b], qual, depth + 1)
                if r:
                    return r
        return None
