ID = "duplicate_names_overwrite"
PROPERTY = "C02"
NEEDS = "an objective naming one moment in two ways (e.g. by name and with copies relabelled)"
BREAKS = "the coefficients of the two names are not added, so the optimum is not that of the objective given"
EDITS = [("sdp/InflationSDP.py", "output_dict[self._sanitise_moment(k)] += v", "output_dict[self._sanitise_moment(k)] = v"),
         ("lp/InflationLP.py", "output_dict[self._sanitise_monomial(k)] += v", "output_dict[self._sanitise_monomial(k)] = v")]
DEMO = '''from demo_help import *
lp = InflationLP(problem(BILOC, (2, 2, 2), (1, 1, 1), (2, 1)))
a = [m for m in lp.monomials if m.name == "P[A=0]"][0]
lp.set_objective({a: 1., "P[A=0]": 1.})
expect(abs(sum(lp.objective.values()) - 2) < 1e-9 or len(lp.objective) == 2, "dict given")
lp.set_objective({"P[A=0]": 1., "pA(0|0)": 1.})
expect(abs(solve(lp)[1] - 2) < 1e-6, "max of p(A=0)+p(A=0) is not 2")
'''
