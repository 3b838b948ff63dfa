#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks need are there (nothing has to be built)."""
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
import z3
x = z3.Real('x')
s = z3.Solver()
s.add(x * x < 0)
assert s.check() == z3.unsat
subprocess.run(['/opt/venv/bin/python', '-c', 'import numpy, scipy, sklearn'], check=True)
print('ok: z3', z3.get_version_string())
