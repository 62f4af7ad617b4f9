#!/usr/bin/env python3
"""Set-up check: the analyser imports, and resolves a small positive example."""
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from sa.engine import Program, Interp        # noqa: E402
from sa.util import client_val, reach, syms  # noqa: E402

I = Interp(Program(os.environ.get("LEGUME_REPO", "/repo")))
st = I.run_client("SYM = __SYM__\nx = SYM('a') + 1\nif SYM('b', 'bool'):\n    x = x * SYM('c')\n")
s = syms(reach(I, st, [client_val(I, st, "x")]))
assert set(s) == {"a", "b", "c"}, s
print("analyser ready")
