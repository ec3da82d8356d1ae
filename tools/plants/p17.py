ID = "quadratic_conditions_atoms"
PROPERTY = "C18"
NEEDS = "a moment with three or more factors"
BREAKS = "the quadratic factorisation conditions leave out factors of moments with more than two"
EDITS = [("lp/InflationLP.py", "                              self.monomial_from_atoms[mon.factors[1:]])", "                              self.monomial_from_atoms[mon.factors[-1:]])")]
DEMO = '''from demo_help import *
lp = InflationLP(problem({"h": ["A"]}, [2], [2], [3], classical_sources="all"))
many = [m for m in lp.monomials if m.n_factors > 2]
expect(many, "no moment with three factors")
for m, parts in lp.quadratic_factorization_conditions.items():
    f = sorted(a.name for q in parts for a in q.factors)
    expect(f == sorted(a.name for a in m.factors), f"{m.name} = {[q.name for q in parts]}")
'''
