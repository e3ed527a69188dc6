"""Check that the interpreter, the solver and the code under test load."""

import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from symx import core  # noqa: E402

x = core.z3.Real("x")
s = core.z3.Solver()
s.add(x * x < 0)
assert s.check() == core.z3.unsat
subprocess.run(
    [sys.executable, "-c", "import numpy, scipy, torch, sklearn"], check=True)
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
print("ready: z3", core.z3.get_version_string())
