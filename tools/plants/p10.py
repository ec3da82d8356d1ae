ID = "csv_rounds_coefficients"
PROPERTY = "C11"
NEEDS = "an SDP with an extra equality whose coefficient is close to, but not, 1, exported to csv"
BREAKS = "coefficients near 1 of equalities are left out of the csv file"
EDITS = [("sdp/writer_utils.py", """        equality = ""
        for monom, coeff in eq.items():
            equality += "+" if coeff > 0 else "-"
            if monom == problem.One:
                equality += str(abs(coeff))
            else:
                if np.isclose(abs(coeff), 1):""", """        equality = ""
        for monom, coeff in eq.items():
            equality += "+" if coeff > 0 else "-"
            if monom == problem.One:
                equality += str(abs(coeff))
            else:
                if np.isclose(abs(coeff), 1, atol=.02):""")]
DEMO = '''from demo_help import *
import os
sdp = InflationSDP(problem(BELL, [2, 2], [1, 1], [1]))
sdp.generate_relaxation("npa1")
a, b = [m for m in sdp.moments if m.is_knowable and m.n_operators == 1][:2]
sdp.set_extra_equalities([{a: 1.01, b: -.99}])
f = os.path.join(os.environ["DEMO_SCRATCH"], "p.csv")
sdp.write_to_file(f)
text = open(f).read().split("Equalities")[1]
expect("1.01" in text and "0.99" in text, text[:200])
'''
