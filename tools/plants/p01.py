ID = "power_capped"
PROPERTY = "C01"
NEEDS = "an inflation with three or more copies in which one knowable event occurs at least cubed in a moment"
BREAKS = "moments containing p**3 are set to p**2, so realisable distributions are refuted"
EDITS = [("lp/monomial_classes.py", "known_value *= (known_monomials[factor] ** power)",
          "known_value *= known_monomials[factor]\n                if power > 1:\n                    known_value *= known_monomials[factor]")]
DEMO = '''from demo_help import *
lp = InflationLP(problem(BILOC, (2, 2, 2), (1, 1, 1), (3, 1)))
p = biloc_p(3)
lp.set_distribution(p)
expect(solve(lp)[0] == 0, "a bilocal distribution is refuted at level (3, 1)")
'''
