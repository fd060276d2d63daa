"""Regenerates the "fixed" list of KNOWN_FINDINGS.json from /repo's fix: commits (property by message)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = json.load(open(os.path.join(V, "tools", "fix_property.json")))
k = json.load(open(os.path.join(V, "KNOWN_FINDINGS.json")))
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
k["fixed"] = []
for l in out.splitlines():
    h, _, t = l.partition(" ")
    if t.startswith("fix: "):
        m = [PROP[s] for s in sorted(PROP, key=len, reverse=True) if t[5:].startswith(s)][:1]
        if not m:
            print("no property for:", t)
        for p in filter(None, m):
            k["fixed"].append("fixed: property=%s %s %s" % (p, h, t[5:]))
json.dump(k, open(os.path.join(V, "KNOWN_FINDINGS.json"), "w"), indent=1)
