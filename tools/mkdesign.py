#!/opt/venv/bin/python
"""Rewrite the contract tables of DESIGN.md (between the markers)."""
import os
import re
import sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
os.environ.setdefault("PYVC_REPO", "/repo")
sys.path.insert(0, os.environ["PYVC_REPO"])
import json
from pyvc import api

titles = {}
for line in open(os.path.join(R, "properties.jsonl")):
    d = json.loads(line)
    titles[d["id"]] = d["title"]
out = []
for p in sorted(titles):
    api.load_contracts(p)
    cs = [c for c in api.REGISTRY.values() if c.prop == p]
    out.append(f"\n**{p} {titles[p]}**\n")
    rows = {}
    for c in cs:
        kind = "proof" if c.bounded is None else c.bounded
        doc = re.sub(r"\s+", " ", c.doc)
        t = ", ".join(sorted({x.split(":")[-1] for x in c.targets}))
        rows.setdefault((kind, doc, t), []).append(f"`{c.name}`")
    for (kind, doc, t), names in rows.items():
        out.append(f"- {', '.join(names)} [{kind}] {doc} ({t})")
s = open(os.path.join(R, "DESIGN.md")).read()
a, b = "<!-- contracts -->", "<!-- /contracts -->"
i, j = s.index(a) + len(a), s.index(b)
open(os.path.join(R, "DESIGN.md"), "w").write(
    s[:i] + "\n" + "\n".join(out) + "\n" + s[j:])

# the planted bugs
import glob
s = open(os.path.join(R, "DESIGN.md")).read()
a, b = "<!-- seeds -->", "<!-- /seeds -->"
i, j = s.index(a) + len(a), s.index(b)
rows = []
for d in sorted(glob.glob(os.path.join(R, "seeded", "*", ""))):
    m = json.load(open(d + "meta.json"))
    rows.append(f"- {os.path.basename(d[:-1])}: " +
                " ".join(m["what_it_breaks"].split()))
open(os.path.join(R, "DESIGN.md"), "w").write(
    s[:i] + "\n" + "\n".join(rows) + "\n" + s[j:])
