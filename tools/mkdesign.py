#!/usr/bin/env python3
"""Rewrites the per-property part of DESIGN.md.

`mkdesign.py collect` first takes rules, assumptions and costs from evidence/*.json into tools/costs.json.
"""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = lambda *a: os.path.join(root, *a)
costs = json.load(open(p("tools", "costs.json"))) if os.path.exists(p("tools", "costs.json")) else {}
props = [json.loads(l) for l in open(p("properties.jsonl"))]
checks = json.load(open(p("tools", "checks.json")))
if "collect" in sys.argv:
    for pr in props:
        f = p("evidence", pr["id"] + ".json")
        if os.path.exists(f):
            e = json.load(open(f))
            if e["violations"]:
                continue
            c = costs.setdefault(pr["id"], {})
            c["rule"] = e["coverage"]["rule"]
            c["assumptions"] = e["assumptions"]
            c[e["tier"]] = [round(e["wall_s"], 1), e["coverage"]["evaluations"]]
    json.dump(costs, open(p("tools", "costs.json"), "w"), indent=1, sort_keys=True)

def num(n):
    return f"{n:,}" if n < 10**6 else f"{n/1e6:,.1f} million" if n < 10**9 else f"{n/1e9:,.1f} thousand million"

out = []
for pr in props:
    i = pr["id"]
    ch = checks.get(i)
    out.append(f"### {i} {pr['title']}\n")
    if not ch or "na" in ch:
        out.append(f"Not applicable: {(ch or {}).get('na', 'no check built')}\n")
        continue
    c = costs.get(i, {})
    out.append(f"* Space: {c.get('rule', '')}.")
    out.append(f"* Oracle and level: {ch['note'].strip()}")
    for a in c.get("assumptions", []):
        out.append(f"* Assumes: {a.strip()}")
    t = []
    for tier in ("quick", "thorough"):
        if tier in c:
            t.append(f"{tier} {c[tier][0]} s, {num(c[tier][1])} executions")
    out.append(f"* Cost (8 cores, without building): {'; '.join(t)}.\n")
f = p("DESIGN.md")
s = open(f).read()
a, b = "<!-- properties: start -->", "<!-- properties: end -->"
s = s[:s.index(a) + len(a)] + "\n\n" + "\n".join(out) + "\n" + s[s.index(b):]
rows = []
for d in sorted(os.listdir(p("seeded"))) if os.path.isdir(p("seeded")) else []:
    j = json.load(open(p("seeded", d, "meta.json")))
    rows.append(f"| {d} | {j['property']} | {j['needs']} | {j['property']} quick |")
a, b = "<!-- seeded: start -->", "<!-- seeded: end -->"
h = "| seeded bug | property | needs | caught by |\n|---|---|---|---|\n"
s = s[:s.index(a) + len(a)] + "\n" + h + "\n".join(rows) + "\n" + s[s.index(b):]
open(f, "w").write(s)
