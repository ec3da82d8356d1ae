"""Helpers of the demonstrations: scenarios and an LP solver (scipy)."""
import sys
import numpy as np
from scipy.optimize import linprog
from inflation import InflationProblem, InflationLP, InflationSDP

BILOC = {"l": ["A", "B"], "m": ["B", "C"]}
BELL = {"L": ["A", "B"]}
TRI = {"a": ["B", "C"], "b": ["A", "C"], "c": ["A", "B"]}
INSTR = {"U": ["A", "B"], "A": ["B"]}


def problem(dag, out, st, lev, **kw):
    return InflationProblem(dag=dag, outcomes_per_party=out, settings_per_party=st,
                            inflation_level_per_source=lev, **kw)


def biloc_p(seed=0, out=(2, 2, 2)):
    """A distribution of the bilocal scenario (one setting each)."""
    g = np.random.default_rng(seed)
    k = 3
    wl, wm = g.dirichlet(np.ones(k)), g.dirichlet(np.ones(k))
    A = g.dirichlet(np.ones(out[0]), k)
    B = g.dirichlet(np.ones(out[1]), (k, k))
    C = g.dirichlet(np.ones(out[2]), k)
    return np.einsum("l,m,la,lmb,mc->abc", wl, wm, A, B, C)[..., None, None, None]


def bell_p(seed=0):
    g = np.random.default_rng(seed)
    k = 3
    w = g.dirichlet(np.ones(k))
    A, B = g.dirichlet(np.ones(2), (k, 2)), g.dirichlet(np.ones(2), (k, 2))
    return np.einsum("l,lxa,lyb->abxy", w, A, B)


def solve(lp, **over):
    """(status, value, x) of the program the object submits: 0 optimal, 2 infeasible."""
    m = lp._prepare_solver_matrices()
    m.update(over)
    n = len(m["variables"])
    c = np.zeros(n)
    o = m["objective"].toarray().ravel()
    c[:len(o)] = -o
    A, b = m["equalities"].toarray(), np.zeros(m["equalities"].shape[0])
    kv = m["known_vars"].tocoo()
    K = np.zeros((kv.nnz, n))
    K[np.arange(kv.nnz), kv.col] = 1
    A, b = np.vstack([A.reshape(-1, n), K]), np.hstack([b, kv.data])
    G = m["inequalities"].toarray()
    lo = np.zeros(n) if lp.default_non_negative else np.full(n, -np.inf)
    up = np.full(n, np.inf)
    l, u = m["lower_bounds"].tocoo(), m["upper_bounds"].tocoo()
    for j, v in zip(l.col, l.data):
        lo[j] = max(lo[j], v)
    for j, v in zip(u.col, u.data):
        up[j] = v
    r = linprog(c, A_ub=-G if len(G) else None, b_ub=np.zeros(len(G)) if len(G) else None,
                A_eq=A, b_eq=b, bounds=list(zip(lo, up)), method="highs")
    val = None if r.fun is None else -r.fun * (1 if lp.maximize else -1)
    return r.status, val, r.x


def expect(cond, msg):
    if not cond:
        print("BROKEN:", msg)
        sys.exit(1)
