#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props/*.py (metadata sits beside the harness list)."""
import glob, importlib.util, json, os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(V, "lib"))
ms = {}
for f in sorted(glob.glob(os.path.join(V, "props", "C*.py"))):
    pid = os.path.basename(f)[:-3]
    sp = importlib.util.spec_from_file_location(pid, f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m); ms[pid] = m
lines, checks, na = [], [], []
for pid, m in ms.items():
    assert len(m.TITLE) <= 80, (pid, len(m.TITLE))
    over, qt = m.QUANT
    lines.append(json.dumps(dict(id=pid, title=m.TITLE, statement=" ".join(m.STATEMENT.split()), quantifier=dict(over=over, text=qt),
        why_tests_cant=m.WHY, anchors=dict(files=m.FILES, mechanism=[dict(name=a, where=b) for a, b in m.MECH]))))
    if getattr(m, "NOT_APPLICABLE", None): na.append(dict(property=pid, reason=m.NOT_APPLICABLE)); continue
    eng = sorted({h.engine for h in m.HARNESSES})
    tech = {"se": "symbolic execution of the code's LLVM IR with z3", "cbmc": "bounded model checking of the C sources (CBMC, SAT)"}
    checks.append(dict(property=pid, quick_cmd="python3 check.py %s --tier quick" % pid, thorough_cmd="python3 check.py %s --tier thorough" % pid,
        technique="; ".join(tech[e] for e in eng), level="other",
        level_note="Bounded solver verdict over all values within the bounds: " + "; ".join("%s: %s" % (h.name, h.bounds) for h in m.HARNESSES)
          + ". Trusts: compiler front end, the executor or CBMC, z3/SAT, the small libc/stdio/log models under model/" + ("; " + m.NOTE if getattr(m, "NOTE", "") else "")))
open(os.path.join(V, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump(dict(version=1, setup_cmd="python3 setup.py", hooks=dict(guard="VF_HOOKS", enable="no hooks were needed; /repo is checked as it is"),
    checks=checks, not_applicable=na, notes="See DESIGN.md. Undecided harnesses (time or size limits) are reported as UNDECIDED lines and in the evidence, never as violations."),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
# ---- DESIGN.md tables
import re
D = open(os.path.join(V, "DESIGN.md")).read()
def put(tag, txt):
    global D
    D = re.sub(r"(<!-- gen:%s -->\n).*?(<!-- /gen -->)" % tag, lambda m: m.group(1) + txt + m.group(2), D, flags=re.S)
s = ""
for pid, m in ms.items():
    s += "### %s %s\n\n" % (pid, m.TITLE)
    if getattr(m, "NOT_APPLICABLE", None): s += "Not applicable: %s\n\n" % m.NOT_APPLICABLE; continue
    s += "%s\n\n" % " ".join(m.STATEMENT.split())
    if getattr(m, "HOW", ""): s += "%s\n\n" % " ".join(m.HOW.split())
    s += "Files: %s.\n\n" % ", ".join(m.FILES)
    for h in m.HARNESSES: s += "* `%s` (%s, %s): %s%s\n" % (h.name, "harness/" + h.src if hasattr(h, "src") else "harness", "symex" if h.engine == "se" else "CBMC", h.bounds, (" [defaults %s]" % ", ".join("%s=%s" % kv for kv in sorted((h.defs or {}).items()) if kv[0] in h.bounds)) if any(k in h.bounds for k in (h.defs or {})) else "")
    s += "\nTests cannot settle it: %s.\n\n" % m.WHY.rstrip(".")
put("props", s)
put("na", "".join("* %s: %s\n" % (x["property"], x["reason"]) for x in na) or "None listed yet.\n")
kf = json.load(open(os.path.join(V, "known_findings.json")))
put("fixed", "".join("* %s `%s` %s\n" % (k["property"], k["commit"], k["what"]) for k in kf if k["status"] == "fixed"))
put("known", "".join("* %s %s\n" % (k["property"], k["what"]) for k in kf if k["status"] == "known") or "None.\n")
sd = os.path.join(V, "seeded"); rows = ""
res = json.load(open(os.path.join(V, "tools", "seed_results.json"))) if os.path.exists(os.path.join(V, "tools", "seed_results.json")) else {}
for i in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    mt = json.load(open(os.path.join(sd, i, "meta.json"))); rows += "| %s | %s | %s | %s |\n" % (i, mt["property"], mt["what_it_breaks"], res.get(i, "?"))
put("seeds", "| id | property | what it breaks | caught by |\n|---|---|---|---|\n" + rows)
open(os.path.join(V, "DESIGN.md"), "w").write(D)
