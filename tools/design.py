#!/usr/bin/env python3
"""Fills the harness and seed tables of DESIGN.md from the harnesses and seeded/."""
import glob, json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from props import P
hs = {}
for f in sorted(glob.glob(here + "/harness/zzvp/h/*/*.go")):
    s = open(f).read()
    for m in re.finditer(r"((?:^//[^\n]*\n)+)func (\w+)\(", s, re.M):
        d = re.search(r"^//vp:harness (\w+)(.*)$", m.group(1), re.M)
        if d:
            doc = " ".join(l[2:].strip() for l in m.group(1).split("\n") if l.startswith("//") and not l.startswith("//vp:")).strip()
            hs.setdefault(d.group(1), []).append((os.path.basename(os.path.dirname(f)) + "." + m.group(2), doc, "thorough" if "tier=thorough" in d.group(2) else ""))
t = []
for p in P:
    t.append(f"### {p['id']}: {p['title']}\n")
    if p["id"] not in hs:
        t.append((p["na"] or "No harness yet.") + "\n")
        continue
    for n, d, tier in hs[p["id"]]:
        t.append(f"* `{n}`{' (thorough only)' if tier else ''}: {d}")
    t.append("")
seeds = ["| bug | property | needs | caught by its quick check |", "|---|---|---|---|"]
res = {}
rf = here + "/tools/seed_results.json"
if os.path.exists(rf):
    res = json.load(open(rf))
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    seeds.append(f"| {i} | {m['property']} | {m['needs']} | {res.get(i, '?')} |")
f = here + "/DESIGN.md"
s = open(f).read()
def put(s, name, body):
    a, b = f"<!-- {name} -->", f"<!-- end {name} -->"
    new = a + "\n" + body + "\n" + b
    if a in s:
        return s[:s.index(a)] + new + s[s.index(b) + len(b):]
    return s.replace(name, new, 1)
s = put(s, "HARNESS-TABLE", "\n".join(t))
s = put(s, "SEED-TABLE", "\n".join(seeds))
open(f, "w").write(s)
