"""Rewrite the "fixed" list of known_findings.json from the fix: commits."""
import json, os, subprocess
MAP = [
 ("cache the LP constraint dictionaries", "C05", "exports and queries altered the constraints later used (cached lists handed out and changed)"),
 ("semiknown moments crashed", "C04", "an SDP objective with a moment proportional to another one crashed"),
 ("ignored the extra equalities", "C04", "InflationSDP.solve did not impose set_extra_equalities / set_extra_inequalities"),
 ("left the old values in the objective", "C05", "after reset('values') the SDP objective still contained the old values"),
 ("bounds on moments that had a known value", "C05", "bounds of a moment that once had a known value were lost"),
 ("support lower bounds outlived", "C05", "lower bounds derived from supports stayed after the values changed"),
 ("list of atoms of the previous", "C05", "a second generate_relaxation kept atoms of the first"),
 ("drop_zero_rows", "C09", "drop_zero_rows failed on all-zero input and altered its argument"),
 ("set_bounds(None)", "C05", "InflationSDP.set_bounds(None) kept the bounds"),
 ("survived failed solves", "C06", "results of an earlier solve were still presented after a failed solve or new extra constraints"),
 ("wrong sign of the dual matrix", "C08", "dual matrix of an SDP solved in primal form had the wrong sign"),
 ("lost the known part of the objective", "C03", "SDP certificates lacked the known part of the objective"),
 ("lacked the unknown moments", "C08", "moment matrix of an SDP solved in dual form lacked the unknown moments"),
 ("contaminated LP certificates", "C03", "the objective leaked into LP certificates of infeasibility"),
 ("omitted the contribution of the bounds", "C03", "LP certificates ignored what bounds contribute"),
 ("contaminated SDP certificates", "C03", "the objective leaked into SDP certificates of infeasibility"),
 ("symbolic expressions were dropped", "C02", "a constant in a symbolic objective was dropped"),
 ("stopped early were reported as optimal", "C07", "an SDP stopped early with a feasible, not optimal, answer was reported as solved"),
 ("gave the wrong sign after a minimisation", "C08", "feasibility as optimisation reported the negated slack after set_objective(..., 'min')"),
 ("optional arguments were left out", "C08", "solveLP crashed when an optional argument was left out"),
 ("can be negative were bounded from below", "C02", "moments equivalent to their conjugate only under relabelling copies, e.g. <B_0^{1,1} B_1^{2,1} B_1^{1,1} B_0^{2,1}>, were bounded from below by 0 although models give them negative values"),
 ("lifted non-negativity in primal form only", "C08", "primal and dual form of one LP differed when a negative lower bound met default_non_negative"),
 ("took dots in directory names", "C11", "write_to_file rejected names such as ./bell for 'File format not supported'"),
 (".lp and .mps files stated other", "C11", ".lp and .mps files were unreadable or stated other problems (bounds without line breaks, negative bounds, free variables, violated constraints between known values, constants, precision)"),
 (".csv exports confused values", "C11", ".csv exports replaced known values that look like an index by names, and wrote np.float64(...) in bounds"),
 (".dat-s files stated other", "C11", ".dat-s exports crashed or stated other problems (signs of known values and bounds, known or proportional moments in constraints and objectives, positions of inequalities, supports)"),
 ("within rounding errors of a bound", "C13", "SDP set_values refused values such as -1e-17 for contradicting the bound 0"),
 ("search for critical values ignored failures", "C13", "the dual search returned a number when the solver had failed"),
 ("rejected moments given by symbol", "C13", "the dual search crashed when moments were given by symbol"),
 ("could be one that refutes nothing", "C13", "the certificate returned by a bisection could be one of a feasible value"),
 ("could return other values", "C13", "the dual search returned values far from the critical one (failed local optimisation unnoticed, stopping rule) or raised near the upper bound"),
 ("leave factors that are no moments", "C04", "InflationSDP.set_distribution(..., shared_randomness=True) made solve() fail when a product in the matrix had a factor that is no moment itself"),
 ("export SDP constraints without terms", "C12",
  "writing an SDP whose constraint cancels to nothing crashed with IndexError in the csv writer"),
 ("rectify_fake_setting leaves its argument", "C09",
  "InflationProblem.rectify_fake_setting overwrote the settings of the caller's integer array"),
 ("adjoint of a factor has its own", "C15", "the adjoint of a factor of a product got the legacy name and symbol of the factor itself"),
 ("canonical forms do not depend on which products", "C15", "the canonical form of a product depended on which products had been canonicalised before (hash shared by different tables)"),
 ("product of expectation values is not read", "C15", "a symbol product of two expectation values was read as the product of their operators"),
    ("generating sets that are not closed", "C04", "generate_relaxation refused generating sets not closed under source swaps, with an AssertionError"),
    ("dual method accepts values of only the factors", "C13", "the dual search crashed with KeyError when only the values of the factors of the moments (not of the products, nor the constant) were given"),
    ("columns written in another order", "C04", "columns whose commuting factors were written in another order lost symmetries and normalisation equalities"),
]
p = "/verif/known_findings.json"
k = json.load(open(p)) if os.path.exists(p) else {"findings": []}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"],
                     capture_output=True, text=True).stdout.splitlines()
out = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    hit = [(a, b) for m, a, b in MAP if m in s]
    assert len(hit) == 1, (s, hit)
    out.append(f"fixed: property={hit[0][0]} {h} {hit[0][1]}")
k["fixed"] = out
json.dump(k, open(p, "w"), indent=1)
print(len(out))
