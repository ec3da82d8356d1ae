ID = "unknown_is_success"
PROPERTY = "C07"
NEEDS = "the LP solver stops on its iteration or time limit with a primal and dual feasible, not optimal, point"
BREAKS = "a solve stopped early is presented as successful"
EDITS = [("lp/lp_utils.py", "            if solutionsta == mosek.solsta.optimal:\n", "            if solutionsta in (mosek.solsta.optimal, mosek.solsta.prim_and_dual_feas,\n                               mosek.solsta.prim_feas):\n")]
DEMO = '''from demo_help import *
import mosek, inspect
from inflation.lp import lp_utils

class Task:
    def __init__(self, env=None): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __getattr__(self, n): return lambda *a, **k: None
    def inputdata(self, numcon, numvar, *a): self.n = (numcon, numvar)
    def optimize(self): return mosek.rescode.trm_max_iterations
    def getsolution(self, s):
        m, n = self.n
        z = [0.] * m
        x = [0.] * n
        return (mosek.prosta.prim_and_dual_feas, mosek.solsta.prim_feas, [], [], [], z, x, z, z, z, x, x, x)
    def getprimalobj(self, s): return 0.
    def getdualobj(self, s): return 0.

class Env(Task):
    getcodedesc = staticmethod(lambda c: ("", ""))

class M:
    Task, Env = Task, Env
    def __getattr__(self, n): return getattr(mosek, n)
lp_utils.mosek = M()
r = lp_utils.solveLP(objective={"x": 1}, inequalities=[{"1": 1, "x": -1}], known_vars={"1": 1}, variables=["1", "x"])
expect(not r["success"], "a solve stopped early is called a success")
'''
