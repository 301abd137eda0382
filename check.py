#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough]: run the solver-based check of one property."""
import importlib.util, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
if "--tier" in sys.argv:
    os.environ["VERIF_TIER"] = sys.argv[sys.argv.index("--tier") + 1]
import vf
def main():
    pid = sys.argv[1]
    spec = importlib.util.spec_from_file_location(pid, os.path.join(V, "props", pid + ".py"))
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    return vf.main(pid, m.TITLE, getattr(m, "HARNESSES", []), getattr(m, "ASSUMPTIONS", []), getattr(m, "ENGINES", ()))
sys.exit(main())
