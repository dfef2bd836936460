"""Setup: nothing is compiled; make sure the interpreter sees pyactr's dependencies and z3."""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402
from sx import instr  # noqa: E402
instr.load_pyactr()
os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
s = z3.Solver()
x = z3.Int("x")
s.add(x > 1, x < 3)
assert s.check() == z3.sat
print("ok: python", sys.version.split()[0], "z3", z3.get_version_string())
