ID = "cert_power"
PROPERTY = "C03"
NEEDS = "a certificate containing the square of a probability, evaluated on an array"
BREAKS = "evaluating a certificate on an array ignores powers, so it disagrees with its dictionary and polynomial forms"
EDITS = [("lp/monomial_classes.py", "value *= (factor.compute_marginal(prob_array) ** power)", "value *= factor.compute_marginal(prob_array)")]
DEMO = '''from demo_help import *
lp = InflationLP(problem(BILOC, (2, 2, 2), (1, 1, 1), (2, 1)))
p = biloc_p(3)
sq = [m for m in lp.monomials if m.n_factors == 2 and len(m.as_counter) == 1 and m.is_knowable][0]
v = sq.factors[0].compute_marginal(p)
expect(abs(lp.evaluate_polynomial({sq: 1.}, p) - v ** 2) < 1e-9, "a square is evaluated as its root")
'''
