ID = "knowable_repeated_party"
PROPERTY = "C15"
NEEDS = "a moment with two operators of one party with different settings (second-order columns, or a classical scenario with several settings)"
BREAKS = "products of two operators of one party count as knowable and get the name, symbol and value of a probability they are not"
EDITS = [("sdp/fast_npa.py", "    if len(np.unique(parties)) != len(monomial):\n        return False\n", "    if len(np.unique(parties)) > len(monomial):\n        return False\n")]
DEMO = '''from demo_help import *
lp = InflationLP(problem(BELL, [2, 2], [2, 2], [1], classical_sources="all"))
bad = [m.name for m in lp.monomials if m.is_knowable
       and any(len(set(r[0] for r in f.as_2d_array)) < len(f.as_2d_array) for f in m.factors)]
expect(not bad, f"counted as probabilities: {bad[:4]}")
'''
