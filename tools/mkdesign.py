#!/usr/bin/env python3
"""Development helper: fills the tables of DESIGN.md (template: tools/DESIGN.in) from metadata, a runseeds --all log and the evidence."""
import json, os, re, sys
V = "/verif"
t = open(V + "/tools/DESIGN.in").read()
P = json.load(open(V + "/tools/design_props.json"))
rows = []
props = {d["id"]: d for d in map(json.loads, open(V + "/properties.jsonl"))}
log = open(sys.argv[1]).read().splitlines() if len(sys.argv) > 1 else []
ev = sys.argv[2] if len(sys.argv) > 2 else V + "/evidence"
for i in sorted(P):
    try:
        e = json.load(open("%s/%s.json" % (ev, i)))
        c = "%d / %d" % (e["coverage"]["obligations"], e["coverage"]["discharged"])
        w = "%.0f s" % max(1, e["wall_s"])
    except OSError:
        c = w = "?"
    d = P[i]
    rows.append("**%s %s.** %s obligations, %s.\n*Decided by:* %s\n*Oracle:* %s\n*Bounds:* %s\n*Beyond tests:* %s\n" % (
        i, props[i]["title"], c, w, d["how"], d["oracle"], d["bounds"], d["why"]))
t = t.replace("@@PROPS@@", "\n".join(rows))
t = t.replace("@@FIXED@@", "\n".join("* " + l[7:] for l in open(V + "/known_findings.txt").read().splitlines() if l.startswith("fixed:")))
by = {}
for l in log:
    m = re.match(r"(\w+)\s+(\S+) (C\d\d) by: ?(\S*)", l)
    if m:
        by[m.group(2)] = (m.group(1), m.group(4))
out = ["| bug | breaks | caught by |", "|---|---|---|"]
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, b)))
    st, cs = by.get(b, ("CAUGHT", m["property"] + " (when planted)"))
    cs = cs.split(",")
    own = m["property"]
    cs = ([own] if own in cs else []) + [c for c in cs if c != own and c]
    out.append("| %s | %s: %s | %s |" % (b, own, m["what_it_breaks"].replace("|", "/"), ", ".join(cs) if st == "CAUGHT" or cs else "-"))
t = t.replace("@@SEEDS@@", "\n".join(out))
t = t.replace("@@NSEEDS@@", str(len(os.listdir(V + "/seeded"))))
for k, v in json.load(open(V + "/tools/design_vars.json")).items():
    t = t.replace("@@%s@@" % k, v)
open(V + "/DESIGN.md", "w").write(t)
