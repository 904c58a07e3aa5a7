#!/usr/bin/env python3
"""DESIGN.md from design_head.md, the registry, the seeds and the known findings"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/analyzer/sa", V + "/analyzer/sa/rules"]
from registry import REGISTRY
P = {}
for l in open(V + "/properties.jsonl"):
    d = json.loads(l)
    P[d["id"]] = d
K = json.load(open(V + "/known_findings.json"))["findings"]
out = [open(V + "/tools/design_head.md").read(), "## Properties: how each is decided\n"]
notes = {}
for x in open(V + "/tools/design_notes.md").read().split("\n## ")[1:]:
    h, _, b = x.partition("\n")
    notes[h.strip()] = b.strip()
ev = {}
for i in REGISTRY:
    p = f"{V}/evidence/{i}.json"
for i, (doc, funcs, tech, lvl) in REGISTRY.items():
    out.append(f"### {i} {P[i]['title']}\n")
    out.append(f"Rule: {', '.join(f.__module__ + '.' + f.__name__ for f in funcs)}. {doc if '_' in doc.split()[0] or '::' in doc.split()[0] or '<' in doc.split()[0] else doc[0].upper() + doc[1:]}.")
    if i in notes:
        out.append("\n" + notes[i])
    kn = [k for k in K if k["property"] == i and k["status"] == "known"]
    if kn:
        out.append("\nKnown findings (printed, not repaired):")
        out += [f"* `{k['key']}`: {k['what']}" for k in kn]
    fx = [k for k in K if k["property"] == i and k["status"] == "fixed"]
    if fx:
        out.append("\nDefects found by the rule and repaired in /repo:")
        out += [f"* {k['what'].split(' ', 2)[2]}" for k in fx]
    out.append("")
out.append("## Planted changes and the check that catches each\n")
out.append("Each was confirmed in a copy (builds, stable tests pass, demo fails with it and passes without) and each is caught by its property's check.\n")
out.append("| change | property | what it breaks | needs |\n|---|---|---|---|")
for s in sorted(os.listdir(V + "/seeded"), key=lambda s: (json.load(open(f"{V}/seeded/{s}/meta.json"))["property"], s)):
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    out.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
out.append("\n" + open(V + "/tools/design_tail.md").read())
open(V + "/DESIGN.md", "w").write("\n".join(out))
