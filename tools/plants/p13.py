ID = "shared_has_children"
PROPERTY = "C09"
NEEDS = "an LP with include_all_outcomes built before another program from the same scenario object"
BREAKS = "InflationLP changes the scenario object it is given"
EDITS = [("lp/InflationLP.py", "self.has_children = inflationproblem.has_children.copy()", "self.has_children = np.asarray(inflationproblem.has_children)")]
DEMO = '''from demo_help import *
p = problem(BELL, [2, 2], [1, 1], [1])
alone = [m.name for m in InflationLP(p).monomials]
InflationLP(p, include_all_outcomes=True)
after = [m.name for m in InflationLP(p).monomials]
expect(alone == after, f"{len(alone)} moments, then {len(after)}")
expect(not p.has_children.any(), "the scenario was changed")
'''
