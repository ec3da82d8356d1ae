ID = "bisection_without_lpi"
PROPERTY = "C13"
NEEDS = "a critical value sought by bisection with LPI constraints in a scenario where these matter"
BREAKS = "the bisection ignores use_lpi_constraints after its first step"
EDITS = [("optimization_utils.py", "        program.set_values(evaluated_values,\n                       use_lpi_constraints=use_lpi,\n                       only_specified_values=only_specified)\n        program.solve(feas_as_optim=True,\n                  solve_dual", "        program.set_values(evaluated_values,\n                       use_lpi_constraints=use_lpi and value == bounds[1],\n                       only_specified_values=only_specified)\n        program.solve(feas_as_optim=True,\n                  solve_dual")]
DEMO = '''from demo_help import *
import sympy
from inflation import max_within_feasible
seen = []

class Program:
    success, status, verbose = True, "feasible", 0
    def set_values(self, values, use_lpi_constraints=False, only_specified_values=False):
        self.v = list(values.values())[0]
        seen.append(use_lpi_constraints)
    def solve(self, **kw):
        self.objective_value = .3 - self.v
    def certificate_as_dict(self, **kw):
        return {"x": 1.}

t = sympy.Symbol("t")
r = max_within_feasible(Program(), {"x": t}, "bisection", use_lpi_constraints=True)
r = max_within_feasible(Program(), {"x": t}, "bisection", use_lpi_constraints=True)
expect(len(seen) > 3 and all(seen), f"{seen}")
'''
