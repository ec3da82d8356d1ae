ID = "verbose_consumes_moments"
PROPERTY = "C17"
NEEDS = "verbosity 1 or more and values set in a program with products of moments"
BREAKS = "a program that reports its progress leaves one product without its value"
EDITS = [("lp/InflationLP.py", "            surprising_semiknowns = set()\n            for mon in tqdm(list(remaining_mons)", "            surprising_semiknowns = set()\n            if self.verbose > 1 and next(remaining_mons, None) is not None:\n                print(\"Evaluating products of moments.\")\n            for mon in tqdm(list(remaining_mons)")]
DEMO = '''from demo_help import *
import contextlib, io
P = biloc_p()
got = []
with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    for v in (0, 2):
        lp = InflationLP(problem(BILOC, [2, 2, 2], [1, 1, 1], [1, 1], verbose=v))
        lp.set_distribution(P)
        lp.set_values({m.name: x for m, x in lp.known_moments.items() if m.is_atomic})
        got.append(sorted(m.name for m in lp.known_moments))
expect(got[0] == got[1], f"{len(got[0])} values when silent, {len(got[1])} otherwise")
'''
