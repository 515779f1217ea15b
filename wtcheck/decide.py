"""Obligations: conformance of an extracted value graph with a reference graph, and rules over effects."""
from __future__ import annotations

import ast
import json
import os
import time
import traceback

import numpy as np

from .bisim import Digest
from .ctx import TooBig
from .guided import derive
from .evalterm import Ev, Fails, Undecided, same
from .interp import Dead, Unsupported
from .ir import C, Node, mk, show, walk
from .world import Missing, World, package


class NS(dict):
    __getattr__ = dict.__getitem__


class Run:
    """One program (package code or reference) lowered to a value graph under declared inputs."""

    def __init__(self, build, prog, keep=(), pkg=None, forms=False):
        self.w = w = World(pkg=pkg, keep=keep)
        w.forms = forms
        self.error = None
        self.value = None
        self.dead = False
        try:
            x = build(w)
            self.mark = len(w.ip.events)
            v = prog(w, x)
            self.value = w.raw(v) if isinstance(v, Node) else mk("tuple", *[w.raw(q) for q in v])
        except Dead:
            self.dead = True
        except (Unsupported, TooBig, RecursionError) as e:
            self.error = "%s: %s" % (type(e).__name__, e)
        self.mark = getattr(self, "mark", 0)
        self.events = w.ip.events[self.mark:]
        self.raises = [e for e in self.events if e.kind == "raise"]

    def canon(self):
        return self.w.ctx.canon(self.value)

    def functions(self):
        return sorted(self.w.ip.functions)

    def outcome(self, vals, interp=None, how=Ev):
        """('raise', event) | ('value', v) | ('fails', why) | ('undecided', why)"""
        if self.error:
            return ("undecided", self.error)
        ev = how(vals, interp)
        unknown = None
        for e in self.raises:
            try:
                if ev.holds(e.pc):
                    return ("raise", e)
            except Fails as ex:
                # the condition itself cannot be computed: the statement before it has failed already
                unknown = unknown or ("fails", str(ex))
            except Undecided as ex:
                unknown = ("undecided", "refusal condition: %s" % ex)
        if unknown:
            return unknown
        if self.dead:
            return ("raise", None)
        try:
            return ("value", ev(self.value))
        except Undecided as ex:
            return ("undecided", str(ex))
        except Fails as ex:
            return ("fails", str(ex))


def hasnan(v):
    if isinstance(v, tuple):
        return any(hasnan(x) for x in v)
    try:
        return bool(np.isnan(np.asarray(v, dtype=complex)).any())
    except (TypeError, ValueError):
        return False


def brief(v, n=300):
    if isinstance(v, tuple):
        s = "(" + ", ".join(brief(x, n) for x in v) + ")"
    elif isinstance(v, np.ndarray):
        s = np.array2string(v, precision=6, threshold=20, separator=",").replace("\n", "")
    else:
        s = repr(v)
    return s if len(s) <= n else s[:n] + "…"


def stable(subject, v, a, s, eq):
    """A difference at a derived valuation counts if it survives a small change of the inputs (it is not one of rounding)."""
    for sign in (-1, 1):
        for only in (None, "data"):  # a change of every input may leave the domain
            w = dict(v)
            for k, i in enumerate(subject.ins):
                q = v.get(i.name)
                if i.kind in ("arr", "num") and q is not None and not (np.isscalar(q) and q == -1.0) and only in (None, i.role):
                    w[i.name] = q * (1 - (k + 2) * 2.0 ** -21) if i.domain else q * (1 + sign * (k + 2) * 2.0 ** -21)
            try:
                so, ao = s.outcome(w), a.outcome(w)
            except (OverflowError, MemoryError, ZeroDivisionError):
                return False
            if so[0] == ao[0] == "value" and not hasnan(so[1]):
                break
        else:
            return False
        if eq(ao[1], so[1]):
            return False
    return True


def budget(run, thorough):
    """Number of derived valuations: fewer for large graphs."""
    n = sum(1 for _ in walk(run.value)) if run.value is not None else 1
    k = max(72, min(300, 60000 // max(n, 1)))
    return 3 * k if thorough else k


def out_brief(o):
    if o[0] == "raise":
        e = o[1]
        return "refused" + (" by %s at %s:%s" % (e.info.get("exc"), e.where[0], e.where[2]) if e is not None else "")
    if o[0] == "value":
        return brief(o[1])
    return "%s (%s)" % (o[0], str(o[1])[:160])


class Check:
    def __init__(self, pid, tier="quick", pkg=None):
        self.pid = pid
        self.tier = tier
        self.pkg = pkg or package()
        self.obs = []  # dicts
        self.t0 = time.time()
        self.functions = set()
        self.rules = {}
        self.callsites = 0
        self.nodes = 0
        self.notes = []

    # ------------------------------------------------------------------ records
    def record(self, name, status, construct, rule, detail=None):
        d = {"obligation": name, "status": status, "construct": construct, "rule": rule}
        if detail:
            d["detail"] = detail
        self.obs.append(d)
        return d

    def absorb(self, run):
        self.functions |= set(run.w.ip.functions)
        self.callsites += run.w.ip.callsites

    def where(self, dotted):
        """file:line function of a public entry."""
        mod, _, qual = dotted.partition(":")
        m, q = self.pkg.find(dotted)
        if m is None:
            raise Missing(dotted)
        r = self.pkg.lookup_def(m, q)
        if r is None:
            r2 = None
            if "." in q:
                # inherited method
                r2 = self.pkg.lookup_def(m, q.split(".")[0])
            if r2 is None:
                return "%s %s" % (m.path, q)
            return "%s:%s %s" % (r2[0].path, r2[1].lineno, q)
        return "%s:%s %s" % (r[0].path, r[1].lineno, q)

    def exists(self, dotted, params=()):
        """An internal function is there and takes the parameters by these names."""
        m, q = self.pkg.find(dotted)
        r = self.pkg.lookup_def(m, q) if m is not None else None
        if r is None or not isinstance(r[1], ast.FunctionDef):
            return False
        a = r[1].args
        names = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs}
        return all(p in names for p in params)

    # ------------------------------------------------------------------ conformance
    def conform(self, name, entry, build, prog, ref, vals, keep=(), rule="value-graph conformance",
                scalar_shape=False, tol=1e-7, cmp=None, weak=2, s=None, gen=None, lits=None, proof=None):
        """The value graph of prog equals the one of ref for every input described by build."""
        cons = self.where(entry)
        subject, s = s, None
        a = Run(build, prog, pkg=self.pkg)
        s = Run(build, ref, pkg=self.pkg)
        self.absorb(a)
        if s.error:
            raise RuntimeError("reference of %s: %s" % (name, s.error))
        if a.error:
            return self.record(name, "undecided", cons, rule, {"why": a.error})
        how = proof() if proof else None
        proved = bool(how) or self.equal_forms(a, s)
        if not proved and keep:
            ka, ks = Run(build, prog, keep=keep, pkg=self.pkg), Run(build, ref, keep=keep, pkg=self.pkg)
            if not ka.error and not ks.error:
                proved = self.equal_forms(ka, ks)
        if not proved:
            z = Run(build, ref, pkg=self.pkg, forms=True)
            proved = not z.error and self.equal_forms(a, z)
            how = "normal form of the computational form of the definition" if proved else None
        strong, weakd, agreed, und, skipped = [], [], 0, [], 0
        vals = list(vals)
        given = len(vals)
        i = -1
        while True:
            i += 1
            if i == given:
                # the normal forms differ and the given valuations do not separate them: look behind the guards of the graph
                if proved or strong or weakd or not agreed or subject is None or und:
                    break
                th = self.tier == "thorough"
                own = None if lits is None else lits(a)
                vals += derive(subject.ins, vals, a, s, gen, th, subject.uniform, subject.lo, own)[:budget(a, th) if not subject.uniform else (24 if th else 4)]
            if i >= len(vals) or len(strong) > 3:
                break
            v = vals[i]
            try:
                so = s.outcome(v)
            except (OverflowError, MemoryError, ZeroDivisionError):
                so = ("undecided", "overflow")
            if so[0] == "undecided" and i < given:
                if a.outcome(v)[0] == "undecided":  # the reference runs through the same code
                    und.append(so[1])
                    continue
                raise RuntimeError("reference of %s, valuation %d: %s" % (name, i, so))
            if so[0] in ("fails", "undecided") or (so[0] == "value" and hasnan(so[1])):
                skipped += 1  # outside the domain on which the quantity is defined
                continue
            try:
                ao = a.outcome(v)
            except (OverflowError, MemoryError, ZeroDivisionError):
                continue
            if ao[0] == "undecided":
                if i < given:
                    und.append(ao[1])
                continue
            if i >= given and (so[0] != "value" or ao[0] != "value" or hasnan(ao[1])):
                continue  # a derived valuation may lie outside the domain: it counts by its values only
            if so[0] == "raise":
                if ao[0] in ("raise", "fails"):
                    agreed += 1
                else:
                    strong.append((i, v, ao, so))
                continue
            if ao[0] == "raise":
                strong.append((i, v, ao, so))
                continue
            if ao[0] == "fails":
                weakd.append((i, v, ao, so))
                continue
            eq = cmp(ao[1], so[1]) if cmp else same(ao[1], so[1], tol, scalar_shape)
            if eq:
                agreed += 1
            elif hasnan(ao[1]) != hasnan(so[1]):
                weakd.append((i, v, ao, so))
            elif i < given or stable(subject, v, a, s, lambda p, q: cmp(p, q) if cmp else same(p, q, tol, scalar_shape)):
                strong.append((i, v, ao, so))
        if strong or len(weakd) >= weak:
            i, v, ao, so = (strong or weakd)[0]
            det = {"separating valuation": {k: brief(x) for k, x in v.items()},
                   "value of the extracted graph": out_brief(ao), "value required": out_brief(so),
                   "separating valuations": len(strong) + len(weakd), "valuations": len(vals),
                   "functions inlined": a.functions()}
            try:
                if not a.dead and not s.dead:
                    d = first_difference(a.canon(), a.w.ctx.canon(s.value))
                    if d:
                        det["first difference (extracted)"], det["first difference (required)"] = d
                    org = origin_of_difference(a, s)
                    if org:
                        det["construct computed at"] = org
            except (TooBig, RecursionError):
                pass
            return self.record(name, "violated", cons, rule, det)
        st = "discharged" if proved and not und else ("discharged" if proved else ("not separated" if agreed else "undecided"))
        det = {"valuations": agreed}
        if how:
            det["proved by"] = how
        if skipped:
            det["outside the domain"] = skipped
        if und:
            det["undecided valuations"] = len(und)
            det["why"] = und[0][:200]
        return self.record(name, st, cons, rule, det)

    def equal_forms(self, a, s):
        if a.dead or s.dead:
            return a.dead and s.dead
        try:
            ca, cs = a.w.ctx.canon(a.value), a.w.ctx.canon(s.value)
            if _has_opaque(ca):
                return False
            if ca is cs:
                return True
            d = Digest()
            if d(ca) == d(cs):
                return True
            q = defined(cs)
            return q is not cs and (ca is q or d(ca) == d(q))
        except (TooBig, RecursionError):
            return False

    def rule_ob(self, name, entry, rule, findings, detail=None, undecided=None):
        """An obligation decided by a rule over effects or facts: violated iff findings is not empty."""
        cons = self.where(entry) if ":" in entry and not entry.endswith(")") else entry
        if findings:
            return self.record(name, "violated", cons, rule, {"findings": findings})
        if undecided:
            return self.record(name, "undecided", cons, rule, {"why": undecided})
        return self.record(name, "discharged", cons, rule, detail)


def defined(n):
    """The required value where it is defined: a result that is 'not a number' on one side of a condition is free there."""
    if n.op == "tuple":
        ks = [defined(k) for k in n.args]
        return n if all(a is b for a, b in zip(ks, n.args)) else mk("tuple", *ks)
    while n.op == "gamma" and isinstance(n.args[1], Node) and isinstance(n.args[2], Node):
        nan = [k.op == "nan" for k in n.args[1:]]
        if sum(nan) != 1:
            break
        n = n.args[2 if nan[0] else 1]
    return n


def _has_opaque(n):
    from .ir import walk
    return any(x.op == "opaque" for x in walk(n))


def first_difference(a, b, depth=0):
    if a is b:
        return None
    ka, kb = a.kids(), b.kids()
    if a.op == b.op and len(ka) == len(kb) and ka and depth < 30:
        ds = [(x, y) for x, y in zip(ka, kb) if x is not y]
        if len(ds) == 1:
            return first_difference(ds[0][0], ds[0][1], depth + 1)
    return show(a, 8)[:600], show(b, 8)[:600]


def origin_of_difference(a, s):
    """Source position of the first returned part that differs."""
    av = a.value.args if a.value.op == "tuple" else (a.value,)
    sv = s.value.args if s.value.op == "tuple" else (s.value,)
    for x, y in zip(av, sv):
        if a.w.ctx.canon(x) is not a.w.ctx.canon(y):
            o = a.w.ip.origin.get(x.nid)
            if o:
                return "%s:%s in %s" % (o[0], o[2], o[1])
    return None
