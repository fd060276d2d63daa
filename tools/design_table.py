#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md: the table of checks, bounds and seeded bugs."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import specs, check_py
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
out = ["| id | harnesses (configurations quick / thorough) | bounds |", "|---|---|---|"]
for p in props:
    i = p["id"]
    if i in specs.SPECS:
        s = specs.SPECS[i]
        h = ", ".join("%s (%d / +%d)" % (x["src"], len(x["configs"]), len(x.get("thorough", []))) for x in s["harnesses"])
        out.append("| %s | %s | %s |" % (i, h, s["bounds"].replace("|", "\\|")))
    elif i == "C36":
        out.append("| C36 | py/ (see below) | %s |" % check_py.BOUNDS.replace("|", "\\|"))
    else:
        out.append("| %s | not applicable | %s |" % (i, NA.get(i, "")))
seeds = ["| planted bug | property | what it needs to show | caught by |", "|---|---|---|---|"]
sd = os.path.join(V, "seeded")
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    seeds.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "\\|").replace("\n", " "), m.get("caught_by", m["property"])))
f = os.path.join(V, "DESIGN.md")
t = open(f).read()
for tag, body in (("bounds", out), ("seeds", seeds)):
    t = re.sub(r"(<!-- %s -->\n).*?(<!-- end %s -->)" % (tag, tag), lambda m: m.group(1) + "\n".join(body) + "\n" + m.group(2), t, flags=re.S)
open(f, "w").write(t)
