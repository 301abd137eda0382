#!/usr/bin/env python3
"""setup_cmd: builds the symbolic executor (symex/symex.cpp) into /verif/.cache."""
import os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(V, "lib"))
import vf
print("symex:", vf.symex_bin())
