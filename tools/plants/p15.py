ID = "parents_by_edge_order"
PROPERTY = "C10"
NEEDS = "a visible variable with two visible parents, listed in the DAG in another order than the parties"
BREAKS = "the settings of a variable are numbered in the order in which the edges of the DAG are listed"
EDITS = [("InflationProblem.py", "        self.parents_per_party = list(map(np.flatnonzero, adjacency_matrix.T))\n", "        ranks = [names_to_integers[node] for node in self.dag\n                 if node in parties_with_children]\n        self.parents_per_party = [\n            np.array([ii for ii in ranks if adjacency_matrix[ii, jj]], dtype=int)\n            for jj in range(self.nr_parties)]\n")]
DEMO = '''from demo_help import *
out = {}
for order in (["A", "B"], ["B", "A"]):
    dag = {"U": ["A", "C"], "V": ["B", "C"]}
    for n in order:
        dag[n] = ["C"]
    lp = InflationLP(problem(dag, [2, 3, 2], [1, 1, 1], [1, 1], classical_sources="all", order=["A", "B", "C"]))
    out[order[0]] = {m.name: sorted(map(tuple, np.vstack([f.as_2d_array for f in m.factors]).tolist())) for m in lp.monomials if not m.is_one}
expect(out["A"] == out["B"], "the moments depend on the order of the edges")
'''
