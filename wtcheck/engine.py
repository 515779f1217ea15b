"""Runs the obligations of one property (in parallel), writes the evidence file and reports violations."""
from __future__ import annotations

import fnmatch
import json
import os
import sys
import time
import traceback
from multiprocessing import get_context

from .decide import Check
from .subjects import SUBJECTS
from .pkg import PkgError
from .world import Missing, REPO, package

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("WTCHECK_EVIDENCE") or os.path.join(HERE, "evidence")  # development runs may write elsewhere
TASKS = {}
PLANS = {}
RULES = {}


def task(fn):
    TASKS[fn.__name__] = fn
    return fn


def plan(pid, *rules):
    def deco(fn):
        PLANS[pid] = fn
        RULES[pid] = list(rules)
        return fn
    return deco


def select(*pats):
    """Subject keys matching the patterns, in declaration order; a leading '-' removes."""
    out = []
    for p in pats:
        neg = p.startswith("-")
        q = p[1:] if neg else p
        m = [k for k in SUBJECTS if fnmatch.fnmatchcase(k, q)]
        if not m:
            raise KeyError("no subject matches " + q)
        if neg:
            out = [k for k in out if k not in m]
        else:
            out += [k for k in m if k not in out]
    return out


@task
def conform(ck, key, thorough):
    s = SUBJECTS[key]
    ck.conform(key, s.entry, s.build(), s.call, s.ref, s.vals(thorough), keep=s.keep, cmp=s.cmp, tol=s.tol, s=s,
               gen=lambda: s.vals(False))


def _work(job):
    pid, tier, name, args = job
    ck = Check(pid, tier)
    t0 = time.time()
    err = miss = None
    inner = [SUBJECTS[q] for q in args if isinstance(q, str) and q in SUBJECTS and SUBJECTS[q].internal]
    if any(not ck.exists(q.entry, q.internal) for q in inner):
        return (name, args, [], [], 0, [], None, None, 0.0)  # an internal function that is not there any more is nobody's business
    try:
        TASKS[name](ck, *args)
    except Missing as e:
        miss = str(e)
    except Exception:
        err = traceback.format_exc()
    return (name, args, ck.obs, sorted(ck.functions), ck.callsites, sorted(ck.notes), err, miss, time.time() - t0)


def run_jobs(pid, tier, jobs, procs=None):
    procs = procs or min(8, os.cpu_count() or 2)
    js = [(pid, tier, n, a) for n, a in jobs]
    if procs == 1 or len(js) == 1:
        for j in js:
            yield _work(j)
        return
    with get_context("fork").Pool(procs, maxtasksperchild=40) as pool:
        for r in pool.imap(_work, js, chunksize=1):
            yield r


def known(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                # known: property=<id> obligation=<name> construct=<function> <what fails>
                d = dict(x.split("=", 1) for x in line.split() if "=" in x)
                if d.get("property") == pid:
                    out.append((d.get("obligation"), line))
    return out


def main(argv):
    pid = argv[0]
    if pid == "forms":
        from .formcheck import main as forms
        return forms()
    tier = "thorough" if "--tier=thorough" in argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        pkg = package()
    except (SyntaxError, PkgError) as e:
        print("ERROR: the package cannot be parsed: %s" % e)
        return 2
    if getattr(pkg, "errors", None):
        for e in pkg.errors:
            print("ERROR: the package cannot be parsed: %s" % (e,))
        return 2
    jobs = PLANS[pid](tier)
    obs, funcs, calls, errs, notes, missing = [], set(), 0, [], set(), []
    slow = []
    for name, args, o, f, c, nt, err, miss, dt in run_jobs(pid, tier, jobs):
        obs += o
        funcs |= set(f)
        calls += c
        notes |= set(nt)
        slow.append((dt, name, args))
        if err:
            errs.append((name, args, err))
        if miss:
            missing.append((name, args, miss))
    counts = {}
    for o in obs:
        counts[o["status"]] = counts.get(o["status"], 0) + 1
    kn = known(pid)
    viol, knownhits = [], []
    for o in obs:
        if o["status"] == "violated":
            h = [ln for ob, ln in kn if ob == o["obligation"].replace(" ", "_")]
            (knownhits if h else viol).append((o, h[0] if h else None))
    os.makedirs(EVIDENCE, exist_ok=True)
    samples = [o for o in obs if o["status"] == "violated"][:20]
    for st in ("discharged", "not separated", "undecided"):
        samples += [o for o in obs if o["status"] == st][:4]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static analysis of the source below %s (parsed on this run, neither imported nor executed): every "
                           "obligation compares a value graph, an effect list or an inferred type of an entry point, extracted by "
                           "abstract interpretation with everything it calls inlined, with what the property demands." % pkg.root,
            "rules": RULES[pid],
            "obligations": len(obs),
            "discharged": counts.get("discharged", 0),
            "not_separated": counts.get("not separated", 0),
            "undecided": counts.get("undecided", 0),
            "violated": counts.get("violated", 0),
            "errors": len(errs),
            "functions_analysed": sorted(funcs),
            "call_sites_inlined": calls,
            "obligation_status": {o["obligation"]: o["status"] for o in obs},
            "violated_obligations": [o["obligation"] for o, _ in viol],
            "samples": samples,
            "notes": sorted(notes),
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    json.dump(ev, open(os.path.join(EVIDENCE, pid + ".json"), "w"), indent=1, default=str)
    print("%s: %d obligations: %s; %d functions, %d call sites, %.1f s" % (
        pid, len(obs), ", ".join("%d %s" % (v, k) for k, v in sorted(counts.items())), len(funcs), calls, time.time() - t0))
    if "-v" in argv or "-vv" in argv:
        for dt, n, a in sorted(slow, key=lambda q: -q[0])[:8]:
            print("   %.1fs %s %s" % (dt, n, a))
        for o in obs:
            if "-vv" in argv or o["status"] in ("undecided", "violated"):
                print("   %-14s %s  %s  %s" % (o["status"], o["obligation"], o["construct"], str(o.get("detail", ""))[:700]))
    for n, a, e in errs:
        print("NOTE: obligation %s%s could not be formed: %s" % (n, a, e.strip().splitlines()[-1][:300]))
        if "-v" in argv:
            print(e)
    for o, ln in knownhits:
        print("KNOWN-FINDING: property=%s %s" % (pid, ln))
    if viol:
        os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
        rp = os.path.join(EVIDENCE, "replay", pid + ".json")
        json.dump([o for o, _ in viol], open(rp, "w"), indent=1, default=str)
        for o, _ in viol[:12]:
            print("  violated: %s at %s [%s]" % (o["obligation"], o["construct"], o["rule"]))
            for k, v in (o.get("detail") or {}).items():
                print("     %s: %s" % (k, str(v)[:500]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if missing:
        for n, a, m in missing:
            print("ERROR: public entry point %s not found (%s%s)" % (m, n, a))
        return 2
    return 0
