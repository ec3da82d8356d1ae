ID = "bounds_keep_solution"
PROPERTY = "C06"
NEEDS = "a solved LP whose lower bounds alone are then changed or reset"
BREAKS = "the verdict, value and certificate of the earlier solve stay readable after the lower bounds changed"
EDITS = [("lp/InflationLP.py", '''        """Reset the list of lower bounds."""
        self._reset_solution()
''', '''        """Reset the list of lower bounds."""
''')]
DEMO = '''from demo_help import *
lp = InflationLP(problem(BELL, (2, 2), (2, 2), (1,)))
lp.status, lp.success, lp.objective_value = "optimal", True, 1.
lp.solution_object = {"success": True}
lp.set_bounds({"pA(0|0)": .5}, "lo")
expect(not hasattr(lp, "success") and not hasattr(lp, "objective_value"), "old verdict readable after new lower bounds")
'''
