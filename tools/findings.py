#!/usr/bin/env python3
"""Rewrites the 'fixed' entries of known_findings.json from /repo's fix: commits and tools/fixes.json (subject prefix -> property)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fx = json.load(open(V + "/tools/fixes.json")); p = V + "/known_findings.json"
cur = json.load(open(p)) if os.path.exists(p) else []
out = [e for e in cur if e["status"] == "known"]
for l in reversed(subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()):
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        pr = fx.get(h) or next((v for k, v in fx.items() if s[5:].startswith(k)), None)
        if not pr: print("unassigned", h, s); continue
        out.append(dict(status="fixed", property=pr, commit=h, what=s[5:], line="fixed: property=%s %s %s" % (pr, h, s[5:])))
json.dump(out, open(p, "w"), indent=1); print(len(out), "entries")
