#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the harness directives."""
import json, os, re, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from props import P

built = {}
for root, _, files in os.walk(os.path.join(here, "harness/zzvp/h")):
    for f in files:
        if f.endswith(".go"):
            for m in re.finditer(r"^//vp:harness (\w+)", open(os.path.join(root, f)).read(), re.M):
                built[m.group(1)] = built.get(m.group(1), 0) + 1
with open(os.path.join(here, "properties.jsonl"), "w") as o:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        o.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    if p["na"] or i not in built:
        na.append({"property": i, "reason": p["na"] or "no harness yet: planned, see DESIGN.md"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "technique": "bounded symbolic execution of the Go SSA with Z3/cvc5 deciding every assertion",
        "level": "model_checking",
        "level_note": "Holds for every value of the symbolic inputs within the bounds stated per harness in the evidence file (and in the harness comments), nothing outside them. Trusts the SSA translation and the listed models of assembly, reflection and I/O functions; both are validated on every run by replaying solver models of explored paths against the natively compiled code.",
    })
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks: harness packages are added through a build overlay, /repo is not changed", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
