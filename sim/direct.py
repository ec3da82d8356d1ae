"""Small problems handed directly to the solver interfaces, and what their
documentation says they mean - solved here without the code under test."""
import numpy as np
from scipy.optimize import linprog

from . import ipm


# -------------------------------------------------------------------- LPs --
def gen_lp(rng):
    n = rng.randint(2, 6)
    names = ["1"] + [f"v{i}" for i in range(n)]
    co = lambda: rng.choice([1, -1, 2, .5, -1.5])

    def row(const):
        k = rng.randint(1, min(3, n))
        d = {v: co() for v in rng.sample(names[1:], k)}
        if const:
            d["1"] = round(rng.uniform(-1, 3), 3)
        return d
    kn = {"1": 1.0}
    for v in names[1:]:
        if rng.random() < .2:
            kn[v] = round(rng.uniform(-.5, 2), 3)
    ineqs = [row(True) for _ in range(rng.randint(0, 3))]
    # a box, so that most are bounded
    for v in names[1:]:
        if rng.random() < .8:
            ineqs.append({v: -1, "1": rng.choice([1, 2, 5])})
        if rng.random() < .5:
            ineqs.append({v: 1, "1": rng.choice([1, 2])})
    eqs = [row(True) for _ in range(rng.choice([0, 0, 1, 2]))]
    semi = {}
    free = [v for v in names[1:] if v not in kn]
    if len(free) >= 2 and rng.random() < .4:
        a, b = rng.sample(free, 2)
        semi[a] = [co(), b]
    lo = {v: rng.choice([.1, .2, 0, -.5, -1]) for v in names[1:]
          if rng.random() < .25}
    up = {v: rng.choice([.5, 1, 1.5]) for v in names[1:]
          if rng.random() < .25}
    obj = {v: co() for v in rng.sample(names, rng.randint(1, len(names)))}
    return {"names": names, "known": kn, "ineqs": ineqs, "eqs": eqs,
            "semi": semi, "lo": lo, "up": up, "obj": obj,
            "nonneg": int(rng.random() < .6),
            "relax": rng.choice([None, None, None, "ineq", "both"]),
            "form": rng.choice(["dict", "dict", "sparse", "mixed"]),
            "omit": int(rng.random() < .3)}


def ref_lp(d):
    """(verdict, value)."""
    names = d["names"]
    ix = {v: i for i, v in enumerate(names)}
    n = len(names)
    relax = d["relax"]
    N = n + (1 if relax else 0)
    A_ub, b_ub, A_eq, b_eq = [], [], [], []

    def vec(r):
        a = np.zeros(N)
        for v, c in r.items():
            a[ix[v]] += c
        return a
    for r in d["ineqs"]:
        a = -vec(r)
        if relax:
            a[-1] -= 1
        A_ub.append(a)
        b_ub.append(0.)
    for r in d["eqs"]:
        A_eq.append(vec(r))
        b_eq.append(0.)
    for x, (c, y) in d["semi"].items():
        A_eq.append(vec({x: 1}) - vec({y: c}))
        b_eq.append(0.)
    for v, x in d["known"].items():
        if relax == "both":
            a = vec({v: 1})
            a[-1] = -1
            A_ub.append(a)
            b_ub.append(x)
            a = -vec({v: 1})
            a[-1] = -1
            A_ub.append(a)
            b_ub.append(-x)
        else:
            A_eq.append(vec({v: 1}))
            b_eq.append(x)
    lo = np.full(N, 0. if d["nonneg"] and not relax else -np.inf)
    up = np.full(N, np.inf)
    for v, b in d["lo"].items():
        lo[ix[v]] = max(lo[ix[v]], b)
    for v, b in d["up"].items():
        up[ix[v]] = b
    c = np.zeros(N)
    if relax:
        c[-1] = 1                       # minimise lambda
    else:
        c[:n] = -vec(d["obj"])[:n]
    if np.any(lo > up):
        return "infeasible", None
    r = linprog(c, A_ub or None, b_ub or None, A_eq or None, b_eq or None,
                np.column_stack([lo, up]), method="highs")
    if r.status == 0:
        return "optimal", -r.fun
    f = linprog(0 * c, A_ub or None, b_ub or None, A_eq or None,
                b_eq or None, np.column_stack([lo, up]), method="highs")
    return ("unbounded" if f.status == 0 else "infeasible"), None


def call_lp(d, dual, call=lambda f, **k: f(**k)):
    from inflation.lp.lp_utils import convert_dicts, solveLP
    args = {"objective": dict(d["obj"]), "known_vars": dict(d["known"]),
            "inequalities": [dict(r) for r in d["ineqs"]],
            "equalities": [dict(r) for r in d["eqs"]],
            "lower_bounds": dict(d["lo"]), "upper_bounds": dict(d["up"])}
    semi = {x: (c, y) for x, (c, y) in d["semi"].items()}
    for k in ("inequalities", "equalities", "lower_bounds", "upper_bounds"):
        if not args[k] and (d["omit"] or k.endswith("bounds")):
            del args[k]
    names = list(d["names"])
    if d["form"] == "sparse":
        args = convert_dicts(**args, semiknown_vars=semi, variables=names)
        semi = None
    elif d["form"] == "mixed":
        sp = convert_dicts(objective=args["objective"],
                           known_vars=args["known_vars"], variables=names)
        args.update(sp)
    if semi:
        args["semiknown_vars"] = semi
    r = d["relax"]
    return call(solveLP, **args, variables=names, solve_dual=dual,
                   default_non_negative=bool(d["nonneg"]),
                   relax_inequalities=r is not None,
                   relax_known_vars=r == "both")


# ------------------------------------------------------------------- SDPs --
def gen_sdp(rng):
    n = rng.randint(2, 4)
    cells = [(i, j) for i in range(n) for j in range(i + 1)]
    k = rng.randint(2, 5)
    names = ["1"] + [f"m{i}" for i in range(k)]
    G = {}
    for c in cells:
        if c[0] == c[1]:
            G[c] = rng.choice(["1", "1", names[1]])
        else:
            G[c] = rng.choice(names[1:])
    G[0, 0] = "1"
    used = sorted(set(G.values()) - {"1"})
    kn = {"1": 1.0}
    for v in used:
        if rng.random() < .25:
            kn[v] = round(rng.uniform(-.6, .9), 3)
    free = [v for v in used if v not in kn]
    semi = {}
    if len(free) >= 2 and rng.random() < .4:
        a, b = rng.sample(free, 2)
        semi[a] = [rng.choice([.5, -1, 2]), b]
    extra = ["w"] if rng.random() < .3 else []
    vs = used + extra
    co = lambda: rng.choice([1, -1, 2, .5])
    row = lambda: {**{v: co() for v in rng.sample(vs, min(len(vs),
                                                          rng.randint(1, 2)))
                      }, "1": round(rng.uniform(.1, 1.5), 3)}
    ineqs = [row() for _ in range(rng.choice([0, 0, 1, 2]))]
    for e in extra:
        ineqs += [{e: 1, "1": 1}, {e: -1, "1": 1}]
    eqs = [{**row(), "1": round(rng.uniform(-.3, .3), 3)}
           for _ in range(rng.choice([0, 0, 0, 1]))]
    obj = {v: co() for v in rng.sample(["1"] + vs, rng.randint(1, len(vs)))}
    return {"n": n, "G": [[i, j, v] for (i, j), v in sorted(G.items())],
            "known": kn, "semi": semi, "ineqs": ineqs, "eqs": eqs,
            "obj": obj, "fao": int(rng.random() < .3),
            "process": int(rng.random() < .7)}


def ref_sdp(d):
    names = sorted({v for _, _, v in d["G"]} | set(d["obj"])
                   | {v for r in d["ineqs"] + d["eqs"] for v in r}
                   | set(d["known"]))
    if d["fao"]:
        names.append("lambda")
    ix = {v: i for i, v in enumerate(names)}
    N = len(names)
    sv = ipm.Svec(d["n"])
    c = np.zeros(N)
    if d["fao"]:
        c[ix["lambda"]] = -1
    else:
        for v, a in d["obj"].items():
            c[ix[v]] -= a
    A, b, B = [], [], []
    zero = np.zeros(sv.dim)

    def vec(r):
        a = np.zeros(N)
        for v, x in r.items():
            a[ix[v]] += x
        return a
    # X - sum x_v E_v + lambda I = 0
    for k, (i, j) in enumerate(zip(sv.i, sv.j)):
        e = zero.copy()
        e[k] = 1.0
        v = next(v for a, q, v in d["G"] if (a, q) == (i, j))
        a = np.zeros(N)
        a[ix[v]] -= sv.w[k]
        if d["fao"] and i == j:
            a[ix["lambda"]] += 1
        A.append(a)
        B.append(e)
        b.append(0.)
    for r in d["eqs"]:
        A.append(vec(r))
        B.append(zero)
        b.append(0.)
    for x, (q, y) in d["semi"].items():
        A.append(vec({x: 1, y: -q} if x != y else {x: 1 - q}))
        B.append(zero)
        b.append(0.)
    for v, x in d["known"].items():
        A.append(vec({v: 1}))
        B.append(zero)
        b.append(x)
    G = [-vec(r) for r in d["ineqs"]]
    m = len(G)
    r = ipm.solve(c, np.zeros(sv.dim), np.array(A), np.array(B),
                  np.array(b), np.array(G).reshape(m, N),
                  np.zeros((m, sv.dim)), np.zeros(m), [d["n"]])
    if r.status == "optimal":
        return "optimal", -float(c @ r.x)
    return {"primal_infeasible": "infeasible",
            "dual_infeasible": "unbounded"}.get(r.status, "unknown"), None


def call_sdp(d, dual, call=lambda f, **k: f(**k)):
    from scipy.sparse import coo_array
    from inflation.sdp.sdp_utils import solveSDP_MosekFUSION
    F = {}
    for i, j, v in d["G"]:
        M = F.setdefault(v, np.zeros((d["n"], d["n"])))
        M[i, j] = M[j, i] = 1
    return call(
        solveSDP_MosekFUSION,
        mask_matrices={v: coo_array(M) for v, M in F.items()},
        objective=dict(d["obj"]), known_vars=dict(d["known"]),
        semiknown_vars={x: (q, y) for x, (q, y) in d["semi"].items()},
        inequalities=[dict(r) for r in d["ineqs"]],
        equalities=[dict(r) for r in d["eqs"]], solve_dual=dual,
        feas_as_optim=bool(d["fao"]), process_constraints=bool(d["process"]))
