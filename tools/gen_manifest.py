#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check specifications."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import specs
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in specs.SPECS:
        s = specs.SPECS[i]
        checks.append({
            "property": i, "quick_cmd": "python3 tools/check.py %s --quick" % i, "thorough_cmd": "python3 tools/check.py %s --thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the LLVM IR of the real code, assertions decided by Z3, counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "Holds for every value within the bounds: %s. Exact real arithmetic in place of floating point; see DESIGN.md for stubs and assumptions." % s["bounds"]})
    elif i == "C36":
        import check_py
        checks.append({
            "property": i, "quick_cmd": "python3 tools/check_py.py C36 --quick", "thorough_cmd": "python3 tools/check_py.py C36 --thorough",
            "evidence_file": "evidence/C36.json",
            "technique": "symbolic execution of the real Python modules, every assertion decided by Z3, counterexamples replayed with real ctypes and numpy",
            "level": "model_checking",
            "level_note": "Holds for every value within the bounds: %s. See DESIGN.md for stand-ins and assumptions." % check_py.BOUNDS})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
hooks = json.load(open(os.path.join(V, "tools", "hooks.json"))) if os.path.exists(os.path.join(V, "tools", "hooks.json")) else None
m = {"version": 1, "setup_cmd": "make -C engine", "checks": checks, "not_applicable": na,
     "notes": "The repository is built from /repo's working tree on every run; no hooks are needed in /repo."}
if hooks: m["hooks"] = hooks
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
