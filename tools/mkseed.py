#!/usr/bin/env python3
"""Development helper: turn a table of planted bugs into /verif/seeded/<id>/.

Usage: mkseed.py TABLE.py [ID...]      (no check reads this file or /verif/seeded)

For every entry: the edit is applied to a scratch copy of /repo, the existing
tests must pass there, the demonstration must pass on /repo and fail on the
copy, and the changed lines must be lines of the original repository.
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

BASE = "0040076"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
           MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
PRELUDE = '''import os
import sys
import warnings

sys.path.insert(0, os.getcwd())
os.environ.setdefault("MPLBACKEND", "Agg")
import numpy as np

from deltares_wave_toolbox import series, spectrum
from deltares_wave_toolbox.cores import (
    core_dispersion,
    core_engine,
    core_spectral,
    core_time,
    core_wave_decomposition,
    core_wavefunctions,
)
'''
DEMO = '''#!/bin/bash
# exit 0 where the property holds, nonzero where it is broken; run with cwd /repo
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$here/demo.py"
'''


def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=300, **k)


def original_lines(rel, removed):
    out = run(["git", "blame", "-l", "--abbrev=40", "--", rel], "/repo").stdout.splitlines()
    base = run(["git", "rev-parse", BASE], "/repo").stdout.strip()
    for n in removed:
        c = out[n - 1].split()[0].lstrip("^")
        if not base.startswith(c) and not c.startswith(base[:39]):
            return False
    return True


def pattern(old):
    """Match the tokens of OLD whatever the layout, comments and trailing commas between them."""
    toks = re.findall(r"[A-Za-z_0-9.]+|\"[^\"\n]*\"|[^\sA-Za-z_0-9]", old)
    gap = r"(?:\s|#[^\n]*\n|,(?=\s*[)\]]))*"
    return re.compile(gap.join(re.escape(x) for x in toks))


def one(item):
    bid, b = item
    d = tempfile.mkdtemp(prefix="seed-")
    try:
        for n in ("deltares_wave_toolbox", "tests", "setup.cfg", "pyproject.toml", "examples"):
            run(["cp", "-a", "/repo/" + n, d], "/")
        run(["git", "init", "-q"], d)
        run(["git", "add", "-A"], d)
        run(["git", "-c", "user.name=x", "-c", "user.email=x@x", "commit", "-qm", "x"], d)
        for rel, old, new in b["edits"]:
            p = os.path.join(d, "deltares_wave_toolbox", rel)
            s = open(p).read()
            hits = list(pattern(old).finditer(s))
            if len(hits) != 1 and not (len(hits) > b.get("occ", len(hits))):
                return bid, "EDIT matches %d times in %s: %s" % (len(hits), rel, old.strip()[:60])
            m = hits[b["occ"] if "occ" in b else 0]
            s = s[:m.start()] + new.strip("\n").lstrip() .rstrip() + s[m.end():]
            open(p, "w").write(s)
        patch = run(["git", "diff"], d).stdout
        rel = None
        removed = {}
        for line in patch.splitlines():
            if line.startswith("--- a/"):
                rel = line[6:]
            m = re.match(r"@@ -(\d+)", line)
            if m:
                ln = int(m.group(1)) - 1
            elif line.startswith("-") and not line.startswith("---"):
                ln += 1
                removed.setdefault(rel, []).append(ln)
            elif line.startswith(" "):
                ln += 1
        note = ""
        if not removed:
            note = " (pure insertion)"
        for r, ns in removed.items():
            if not original_lines(r, ns):
                note += " TOUCHES FIX LINES"
        dd = os.path.join(d, "demo")
        os.mkdir(dd)
        open(dd + "/demo.py", "w").write(PRELUDE + "\n" + b["demo"].strip("\n") + "\n")
        open(dd + "/demo.sh", "w").write(DEMO)
        os.chmod(dd + "/demo.sh", 0o755)
        r = run(["bash", dd + "/demo.sh"], "/repo")
        if r.returncode:
            return bid, "demo fails on clean tree: " + r.stderr[-400:]
        r = run(["bash", dd + "/demo.sh"], d)
        if not r.returncode:
            return bid, "demo passes with the patch"
        why = r.stderr.strip().splitlines()[-1][:100]
        r = run(["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider"], d)
        if r.returncode:
            return bid, "existing tests fail: " + "".join(l for l in r.stdout.splitlines() if l.startswith("FAILED"))[:200]
        out = "/verif/seeded/" + bid
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(patch)
        shutil.copy(dd + "/demo.py", out)
        shutil.copy(dd + "/demo.sh", out)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        return bid, "ok [%s]%s" % (why, note)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    bugs = ns["BUGS"]
    if sys.argv[2:]:
        bugs = {k: v for k, v in bugs.items() if k in sys.argv[2:]}
    with ThreadPoolExecutor(4) as ex:
        for bid, msg in ex.map(one, bugs.items()):
            print(bid, msg, flush=True)
