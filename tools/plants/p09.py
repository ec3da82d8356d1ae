ID = "update_keeps_products"
PROPERTY = "C05"
NEEDS = "values of atoms given, then corrected by update_values, in an LP that contains products of them"
BREAKS = "the values of products of moments are not renewed when the values of their factors are updated"
EDITS = [("lp/InflationLP.py", "                                      if ((not mon.is_atomic)\n                                          and mon.is_knowable))", "                                      if ((not mon.is_atomic)\n                                          and mon.is_knowable\n                                          and mon not in self.known_moments))")]
DEMO = '''from demo_help import *
lp = InflationLP(problem(BILOC, [2, 2, 2], [1, 1, 1], [1, 1]))
prods = [m for m in lp.monomials if m.n_factors == 2 and m.is_knowable]
expect(prods, "no products")
m = prods[0]
a, b = m.factors
lp.set_values({a.name: .5, b.name: .5})
lp.update_values({a.name: .25})
expect(abs(float(lp.known_moments[m]) - .125) < 1e-9, f"{m.name} = {lp.known_moments[m]}")
'''
