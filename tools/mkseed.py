#!/usr/bin/env python3
"""Plants a change in /repo, records it under seeded/<id>, confirms tests pass and the demo discriminates, runs the check.
usage: mkseed.py SPEC.py   (SPEC defines SEEDS = [dict(id,prop,file,edits=[(old,new)...],needs,breaks,demo)])
       mkseed.py --run [ID...]   re-runs the checks on recorded seeds"""
import json, os, re, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = "/repo"
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("tests", [])) if False else None
DEMO = '''#!/bin/bash
# Builds demo.c against the library built in the current tree and runs it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -std=gnu11 -O1 -g -w -I"$R/include" "$D/demo.c" "$R/lib/libvirg-nexus.a" -o "$T/demo" -lpng -ljpeg -lz -llapack -lcblas -lcairo -lm || exit 3
cd "$T" && timeout 120 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean(): sh("git -C %s checkout -- ." % R)
def build():
    r = sh("bash /opt/vp/build.sh"); return r.returncode == 0 or print(r.stdout[-800:], r.stderr[-500:])
def tests():
    f = tempfile.mktemp(); sh("bash /opt/vp/test.sh " + f); d = json.load(open(f)); os.unlink(f)
    base = json.load(open("/opt/vp/BASELINE.json"))
    def names(x):
        for k in ("passed", "stable", "tests"):
            if k in x: return set(x[k] if isinstance(x[k], list) else x[k].keys())
    b = names(base); p = names(d); return sorted(b - p)
def demo(d): return sh("bash %s/demo.sh" % d, cwd=R).returncode
def check(prop):
    t = time.time(); r = sh("python3 check.py %s --tier quick" % prop, cwd=V)
    return r.returncode, [l for l in r.stdout.splitlines() if l.startswith("VIOLATION ") or "UNDEC" in l][:3], time.time() - t
def note(i, c):
    f = V + "/tools/seed_results.json"; d = json.load(open(f)) if os.path.exists(f) else {}
    hs = [l.split()[1] for l in c[1] if l.startswith("VIOLATION ") and not l.startswith("VIOLATION property")]
    d[i] = ", ".join(hs) if c[0] == 1 else "NOT CAUGHT (exit %d)" % c[0]; json.dump(d, open(f, "w"), indent=1, sort_keys=True)
def run(i):
    d = V + "/seeded/" + i; m = json.load(open(d + "/meta.json")); clean()
    r = sh("git -C %s apply %s/patch.diff" % (R, d))
    if r.returncode: return print(i, "PATCH DOES NOT APPLY")
    try: c = check(m["property"]); note(i, c); print(i, m["property"], "check rc=%d %s %.0fs" % c, flush=True)
    finally: clean()
if __name__ == "__main__":
    if sys.argv[1] == "--run":
        for i in (sys.argv[2:] or sorted(os.listdir(V + "/seeded"))): run(i)
        sys.exit()
    g = {}; exec(open(sys.argv[1]).read(), g)
    for s in g["SEEDS"]:
        d = V + "/seeded/" + s["id"]; os.makedirs(d, exist_ok=True)
        assert not sh("git -C %s status --porcelain" % R).stdout.strip(), "repo dirty"
        if s["demo"].startswith("#!"): open(d + "/demo.sh", "w").write(s["demo"])
        else: open(d + "/demo.c", "w").write(s["demo"]); open(d + "/demo.sh", "w").write(DEMO)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        build(); d0 = demo(d)
        try:
            for e in s["edits"]:
                f, old, new = e if len(e) == 3 else (s["file"],) + e
                t = open(R + "/" + f).read(); assert t.count(old) == 1, (s["id"], f, old, t.count(old)); open(R + "/" + f, "w").write(t.replace(old, new))
            open(d + "/patch.diff", "w").write(sh("git -C %s diff" % R).stdout)
            b = build(); ft = tests() if b else None; d1 = demo(d) if b else None
            ok = b and not ft and d0 == 0 and d1 not in (0, 3)
            c = check(s["prop"]) if ok and "--nocheck" not in sys.argv else None
        finally: clean()
        if c: note(s["id"], c)
        print(s["id"], s["prop"], "OK" if ok else "BAD", "build", b, "failing", ft, "demo", d0, d1, "check", c, flush=True)
    build()
