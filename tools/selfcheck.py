"""setup_cmd: nothing to build; check that the interpreter, solver and engine are there."""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402
from symex import engine  # noqa: E402

e = engine.Engine()
seen = []
def f():
    x = z3.Int("x")
    e.inputs["x"] = lambda m: m.eval(x, model_completion=True).as_long()
    e.check(z3.Or(x * x >= 0, x == 3), "square")
    if e.fork(x > 3):
        e.check(x > 4, "must be refuted")
e.explore(f, on_path=lambda r: seen.append(r.status))
assert sorted(seen) == ["ok", "violation"], seen
print("engine ok", z3.get_version_string())
