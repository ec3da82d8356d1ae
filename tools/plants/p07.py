ID = "ub_negative_rows"
PROPERTY = "C08"
NEEDS = "an LP solved in dual form with upper bounds on two or more moments, or a lower and an upper bound"
BREAKS = "the dual form uses the wrong right-hand side for upper bounds when lower bounds are present as well"
EDITS = [("lp/lp_utils.py", "                        (lower_bounds.data, -np.asarray(upper_bounds.data)))", "                        (lower_bounds.data, -np.sort(upper_bounds.data)))")]
DEMO = '''from demo_help import *
import ast
sys.path.insert(0, ".")
import mosek
from inflation.lp import lp_utils
seen = {}

class Stop(Exception): pass

class Task:
    def __init__(self, env=None): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __getattr__(self, n): return lambda *a, **k: None
    def inputdata(self, numcon, numvar, c, cfix, pb, pe, asub, aval, *a):
        seen.update(c=list(c), pb=list(pb), pe=list(pe), sub=list(asub), val=list(aval))
        raise Stop

class M:
    Task, Env = Task, Task
    def __getattr__(self, n): return getattr(mosek, n)
lp_utils.mosek = M()
try:
    lp_utils.solveLP(objective={"x": 1, "y": 1}, known_vars={"1": 1}, inequalities=[{"1": 5, "x": -1, "y": -1}],
                     upper_bounds={"x": .9, "y": .2}, variables=["1", "x", "y"], solve_dual=True)
except Stop:
    pass
# rows of the dual problem that stand for the upper bounds: one entry -1 in column 1 (x) or 2 (y)
ub = {}
for i, (s, e) in enumerate(zip(seen["pb"], seen["pe"])):
    if e - s == 1 and seen["val"][s] == -1:
        ub[seen["sub"][s]] = -seen["c"][i]
expect(ub == {1: .9, 2: .2}, f"bounds of x and y in the dual form: {ub}")
'''
