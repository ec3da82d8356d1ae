ID = "adjoint_values_dropped"
PROPERTY = "C04"
NEEDS = "LPI constraints with the value of a factor given that is not self-adjoint, and a product that contains its adjoint"
BREAKS = "the value of a factor is not used for its adjoint"
EDITS = [("sdp/InflationSDP.py", "            atomic_knowns.update({atom.dagger: val\n                                  for atom, val in atomic_knowns.items()})\n", "            atomic_knowns.update({atom: val\n                                  for atom, val in atomic_knowns.items()})\n")]
DEMO = '''from demo_help import *
sdp = InflationSDP(problem({"h": ["A"]}, [2], [2], [2]))
sdp.generate_relaxation("npa2")
word = [m for m in sdp.moments if m.n_factors == 1 and m.n_operators == 2][0]         # <A_0=0 A_1=0>
sdp.set_values({word: .3})
known = {m.name: v for m, v in sdp.known_moments.items()}
sq = [m for m in sdp.moments if m.name in ("<A_0=0 A_1=0>*<A_1=0 A_0=0>", "<A_0=0 A_1=0>^2")]
expect(len(sq) == 2 and all(abs(known.get(m.name, 0) - .09) < 1e-9 for m in sq), f"{known}")
'''
