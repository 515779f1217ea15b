#!/usr/bin/env python3
"""Development helper: run the check of each planted bug's property (or --all checks) on a scratch copy with the bug."""
import json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
S = "/verif/seeded"
args = [a for a in sys.argv[1:] if not a.startswith("--")]
ids = args or sorted(os.listdir(S))
allc = "--all" in sys.argv


def one(b):
    d = tempfile.mkdtemp(prefix="rs-")
    try:
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        subprocess.run(["git", "apply", f"{S}/{b}/patch.diff"], cwd=d, check=True)
        own = json.load(open(f"{S}/{b}/meta.json"))["property"]
        res = {}
        for p in ([own] + [f"C{i:02d}" for i in range(1, 32) if allc and f"C{i:02d}" != own]):
            ev = tempfile.mkdtemp(prefix="ev-")
            r = subprocess.run(["python3-vt", "-m", "wtcheck", p], cwd="/verif", capture_output=True, text=True,
                               env=dict(os.environ, WTCHECK_REPO=d, WTCHECK_EVIDENCE=ev, VERIF_TIER="quick"))
            shutil.rmtree(ev, ignore_errors=True)
            if "unknown property" in r.stdout + r.stderr:
                continue
            res[p] = r.returncode
            if r.returncode and p == own:
                own_line = [l for l in r.stdout.splitlines() if l.strip()][:2]
        caught = [p for p, c in res.items() if c == 1]
        return b, own, res[own], caught, res
    finally:
        shutil.rmtree(d, ignore_errors=True)


with ThreadPoolExecutor(6) as ex:
    for b, own, rc, caught, res in ex.map(one, ids):
        print(("CAUGHT " if rc == 1 else "missed " if rc == 0 else "ERROR%d " % rc) + b, own, "by:", ",".join(caught), flush=True)
