"""C08: the returned solution is the solution of the stated problem.

Programs in seeded settings (reached through seeded histories) and small
problems given directly to the solver interfaces are solved in every
formulation, with the solver free to choose among optimal solutions.  The
returned assignment is checked against every condition in force, the objective
and the moment matrix are recomputed from it, and formulations are compared.
"""
import numpy as np

from . import direct, progs, scen
from .core import Inconclusive
from .lab import pick
from .mosek_node import NODE, Policy

PROP = "C08"
RUNS = {"quick": 1500, "thorough": 30000}
RULE = ("one run = one program in seeded settings solved in 2-6 formulations, "
        "or 4 small problems given directly to solveLP / solveSDP; "
        "non-trivial when a returned assignment was checked")
ASSUME = ["tolerances 1e-6 (LP) and 2e-4 (SDP), relative",
          "the simulated solver's optimal answers are optimal to that"]
SDPS = [(n, c) for n, c in scen.SDP if n not in ("bil22", "tri222",
                                                 "tri221_o3")]


def gen(rng, tier):
    if rng.random() < .3:
        kind = rng.choice(["lp", "lp", "sdp"])
        g = direct.gen_lp if kind == "lp" else direct.gen_sdp
        return {"sc": "direct " + kind, "kind": "direct", "ptype": kind,
                "ops": [{"d": g(rng), "alt": rng.randrange(1 << 20)}
                        for _ in range(4)]}
    ptype = "lp" if rng.random() < .55 else "sdp"
    name, col = scen.draw(rng, ptype,
                          None if ptype == "lp" else SDPS)
    sc = scen.get(name)
    opts = {}
    if ptype == "lp":
        if rng.random() < .15:
            opts["include_all_outcomes"] = True
        if rng.random() < .2:
            opts["default_non_negative"] = False
    models = [pick(rng, sc, ptype) for _ in range(2)]
    if ptype == "sdp":
        for m in models:
            m["eta"] = rng.choice([0, .1, .2])
    hist = []
    for _ in range(rng.choice([0, 0, 1, 3])):
        hist.append(rng.choice([progs.gen_dist(rng, ptype, 2),
                                progs.gen_obj(rng),
                                progs.gen_values(rng, 2),
                                progs.gen_solve(rng, ptype)]))
    ops = []
    r = rng.random()
    if r < .4:
        ops.append(progs.gen_dist(rng, ptype, 1))
    elif r < .75:
        ops.append(progs.gen_values(rng, 1))
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        c = rng.choice("bbei")
        ops.append((progs.gen_bounds(rng, 1) if c == "b" else
                    progs.gen_cons(rng, 1, "eqs" if c == "e" else
                                   "ineqs")) | {"m": 0})
    if rng.random() < .75:
        ops.append(progs.gen_obj(rng))
    modes = ["plain", "plain", "fao"] + (["relax", "relaxkv"]
                                         if ptype == "lp" else [])
    solves = []
    for _ in range(rng.randint(1, 3)):
        m = rng.choice(modes)
        for dual in (1, 0):
            solves.append({"mode": m, "dual": dual,
                           "alt": rng.choice([None, rng.randrange(1 << 20)])})
    return {"sc": name, "kind": "program", "ptype": ptype, "col": col,
            "opts": opts, "models": models, "hist": hist, "ops": ops,
            "solves": solves}


# ----------------------------------------------------------------- direct --
def run_direct(spec, ctx):
    lp = spec["ptype"] == "lp"
    for op in spec["ops"]:
        d = op["d"]
        want = (direct.ref_lp if lp else direct.ref_sdp)(d)
        got = {}
        for dual in (True, False):
            pol = NODE.reset(Policy())
            if lp:
                pol.alt = progs.rnd(op["alt"])
            sol = ctx.call("solveLP" if lp else "solveSDP",
                           direct.call_lp if lp else direct.call_sdp, d,
                           dual)
            ctx.solves += 1
            form = "dual" if dual else "primal"
            st = str(sol["status"])
            if lp:
                v = ("optimal" if sol["success"] else
                     {True: {"p": "unbounded", "d": "infeasible"},
                      False: {"p": "infeasible", "d": "unbounded"}}[dual].get(
                          ("p" if "prim_infeas" in st else
                           "d" if "dual_infeas" in st else "?"), "unknown"))
            else:
                v = {"feasible": "optimal"}.get(st, st)
            val = sol.get("primal_value") if v == "optimal" else None
            got[form] = (v, val)
            ctx.ev("direct", form, v, val)
            if "unknown" in (v, want[0]) or v == "other":
                ctx.probe("no verdict")
                continue
            ctx.probe("decided")
            w0 = want[0]
            if not lp and w0 == "unbounded":
                w0 = "infeasible"       # the interface does not tell them
            if v != w0 and not lp:
                ctx.probe("borderline")
                continue
            # an infeasible dual only says: unbounded or infeasible
            ctx.require(v == w0 or (v == "unbounded" and w0 != "optimal"),
                        "direct verdict", f"{form}: {v}, should be {w0}: "
                        f"{d}")
            if v != "optimal":
                continue
            tol = (1e-6 if lp else 3e-4) * (1 + abs(want[1]))
            ctx.require(abs(val - want[1]) <= tol, "direct value",
                        f"{form}: {val:.8g}, should be {want[1]:.8g}: {d}")
            ctx.require(abs(sol["dual_value"] - val) <= tol,
                        "primal and dual value", f"{form}: {val} and "
                        f"{sol['dual_value']}")
            check_direct(ctx, lp, d, sol, val, tol)
        ctx.state(spec["ptype"], sorted(got.items()))


def check_direct(ctx, lp, d, sol, val, tol):
    if lp and d["relax"]:
        return
    x = dict(sol["x"])
    x.update({k: v for k, v in d["known"].items()} if not lp else {})
    if not lp and d["process"]:
        for a, (q, b) in d["semi"].items():
            x[a] = q * x[b]
    t = 1e-6 if lp else 3e-4
    for v, k in d["known"].items():
        ctx.require(abs(x[v] - k) <= t, "assignment breaks a value",
                    f"{v}={x[v]}, fixed to {k}")
    for r in d["ineqs"]:
        s = sum(c * x[v] for v, c in r.items())
        ctx.require(s >= -10 * t, "assignment breaks an inequality",
                    f"{r}: {s}")
    for r in d["eqs"]:
        s = sum(c * x[v] for v, c in r.items())
        ctx.require(abs(s) <= 10 * t, "assignment breaks an equality",
                    f"{r}: {s}")
    if lp:
        for v, b in d["lo"].items():
            ctx.require(x[v] >= b - t, "assignment breaks a bound",
                        f"{v}={x[v]} >= {b}")
        for v, b in d["up"].items():
            ctx.require(x[v] <= b + t, "assignment breaks a bound",
                        f"{v}={x[v]} <= {b}")
        if d["nonneg"]:
            ctx.require(min(x.values()) >= -t, "assignment breaks a bound",
                        f"{x}")
    if lp or not d["fao"]:
        s = sum(c * x[v] for v, c in d["obj"].items())
        ctx.require(abs(s - val) <= 10 * tol, "objective of the assignment",
                    f"{s} reported {val}")
    if not lp:
        M = np.zeros((d["n"], d["n"]))
        for i, j, v in d["G"]:
            M[i, j] = M[j, i] = x[v]
        if d["fao"]:
            M -= val * np.eye(d["n"])
        matrices(ctx, sol, M)


def matrices(ctx, sol, M, what=""):
    F, Z = sol["F"], np.asarray(sol["Z"])
    F = F.toarray() if hasattr(F, "toarray") else np.asarray(F)
    sc = 1 + np.abs(M).max()
    ctx.require(np.abs(F - M).max() <= 5e-4 * sc, "moment matrix",
                f"{what} returned matrix differs from the assignment's by "
                f"{np.abs(F - M).max():.3g}")
    ctx.require(np.linalg.eigvalsh((F + F.T) / 2)[0] >= -2e-4 * sc,
                "moment matrix", f"{what} not positive semidefinite")
    ctx.require(np.linalg.eigvalsh((Z + Z.T) / 2)[0] >= -1e-5 *
                (1 + np.abs(Z).max()), "dual matrix",
                f"{what} not positive semidefinite")
    ctx.require(abs(np.sum(F * Z)) <= 1e-3 * (1 + np.abs(Z).max()) * sc,
                "complementarity", f"{what} <F,Z>={np.sum(F * Z):.3g}")
    ctx.probe("matrices checked")


# ---------------------------------------------------------------- program --
def inforce(u, M, s):
    """User settings in force, by moment name."""
    out = {"eqs": [], "ineqs": [], "up": {}, "lo": {}, "obj": {}}
    for k in ("eqs", "ineqs"):
        if s[k]:
            out[k] = progs.cons_items(u, M, {**s[k], "key": "name", "split": 0})
    for k in ("up", "lo"):
        if s[k]:
            out[k] = progs.bound_items(u, M, {**s[k], "key": "name"})
    if s["obj"]:
        out["obj"] = progs.obj_items(u, {**s["obj"], "key": "name",
                                         "split": 0})
    return out


def check_program(ctx, u, M, s, mode, dual, val, what):
    p = u.prog
    lp = u.ptype == "lp"
    sol = p.solution_object
    x = {str(k): float(v) for k, v in sol["x"].items()}
    t = 1e-6 if lp else 3e-4
    known = progs.known_of(u)
    if not lp:
        known = {m.name: float(v) for m, v in p.known_moments.items()}
        x.update(known)
        for m, (c, y) in p.semiknown_moments.items():
            x[m.name] = c * x[y.name]
    x["1"] = 1.0 if "1" not in x else x["1"]
    f = inforce(u, M, s)
    F = {k: [{n if n != "1" else "1": c for n, c in r.items()}
             for r in f[k]] for k in ("eqs", "ineqs")}
    own_eq = [{m.name: c for m, c in e.items()} for e in p.moment_equalities]
    own_in = [{m.name: c for m, c in e.items()}
              for e in p.moment_inequalities]
    slack = min(val, 0) if mode in ("fao", "relax", "relaxkv") and lp else 0
    ev = lambda r: sum(c * (x[n] if n in x else 1.0 if n == "constant_term"
                            else x[n]) for n, c in r.items())
    mg = lambda r: 1 + sum(abs(c) for c in r.values())
    kslack = slack if mode in ("relax", "relaxkv") else 0
    for n, v in known.items():
        if n in x:
            ctx.require(abs(x[n] - v) <= t * 2 - kslack,
                        "assignment breaks a value",
                        f"{what}: {n}={x[n]:.8g}, fixed to {v:.8g}")
    for r in F["eqs"] + own_eq:
        ctx.require(abs(ev(r)) <= 5 * t * mg(r) ,
                    "assignment breaks an equality", f"{what}: {r}: {ev(r)}")
    islack = slack if mode in ("fao", "relax") else 0
    for r in F["ineqs"] + own_in:
        ctx.require(ev(r) >= -5 * t * mg(r) + islack,
                    "assignment breaks an inequality",
                    f"{what}: {r}: {ev(r)}")
    if mode == "plain" or not lp:
        for n, b in f["lo"].items():
            if n in x:
                ctx.require(x[n] >= b - 2 * t, "assignment breaks a bound",
                            f"{what}: {n}={x[n]:.8g} >= {b}")
        for n, b in f["up"].items():
            if n in x:
                ctx.require(x[n] <= b + 2 * t, "assignment breaks a bound",
                            f"{what}: {n}={x[n]:.8g} <= {b}")
        if lp and u.opts.get("default_non_negative", True) \
                and mode == "plain":
            n = min(x, key=lambda k: x[k])
            ctx.require(x[n] >= -t, "assignment breaks a bound",
                        f"{what}: {n}={x[n]:.8g} negative")
    if f["obj"] and mode == "plain":
        w = ev(f["obj"])
        ctx.require(abs(w - val) <= 10 * t * mg(f["obj"]),
                    "objective of the assignment",
                    f"{what}: {w:.8g}, reported {val:.8g}")
    if "dual_value" in sol:
        sg = 1 if p.maximize or mode != "plain" else -1
        d = sol["dual_value"] * sg
        ctx.require(abs(d - val) <= 5 * t * (1 + abs(val)),
                    "primal and dual value", f"{what}: {val:.8g} and "
                    f"{d:.8g}")
    if not lp:
        mm = np.asarray(p.momentmatrix)
        G = np.zeros(mm.shape)
        for (i, j), k in np.ndenumerate(mm):
            m = p.compmoment_from_idx[int(k)]
            G[i, j] = 0.0 if m.is_zero else 1.0 if m.is_one else x[m.name]
        if mode == "fao":
            G -= val * np.eye(len(G))
        matrices(ctx, sol, G, what)
    ctx.probe("assignment checked")


def run(spec, ctx):
    if spec["kind"] == "direct":
        return run_direct(spec, ctx)
    sc = scen.get(spec["sc"])
    M = progs.Models(sc, spec["models"])
    NODE.reset(Policy())
    u = progs.Unit(sc, spec["ptype"], spec["col"], spec["opts"], ctx=ctx)
    if not progs.columns_ok(u):
        raise Inconclusive("too large")
    for op in spec["hist"]:
        if op["op"] == "solve":
            ctx.call("solve", u.solve, bool(op["dual"]), op["mode"])
        else:
            progs.apply(u, M, op, ctx)
    if spec["hist"]:
        ctx.call("reset", u.prog.reset, "all")
    s = progs.blank()
    for op in spec["ops"]:
        if u.ptype == "sdp" and op["op"] == "bounds" and op["terms"] \
                and s["vals"]:
            kn = progs.known_of(u)
            if any(n in kn for n in progs.bound_items(
                    u, M, {**op, "key": "name"})):
                continue
        progs.apply(u, M, op, ctx)
        s = progs.settle(s, op, u.ptype)
    seen = {}
    for op in spec["solves"]:
        pol = NODE.reset(Policy())
        if op["alt"] is not None and u.ptype == "lp":
            pol.alt = progs.rnd(op["alt"])
            ctx.fault("alternative optimum")
        dual, mode = bool(op["dual"]), op["mode"]
        v, val = ctx.call("solve", u.solve, dual, mode)
        ctx.solves += 1
        ctx.ev("solve", mode, dual, v, val)
        ctx.state(scen.label(spec["sc"]), u.ptype, spec["col"], mode, dual, v,
                  None if val is None else round(val, 3))
        what = (f"{spec['sc']} {u.ptype} {spec['col'] or ''} {mode} "
                f"{'dual' if dual else 'primal'}")
        if v == "none":
            ctx.probe("no verdict")
            continue
        ctx.probe("decided")
        # with an objective the objective is optimised, with a warning
        if u.ptype == "lp" and mode != "fao" and len(u.prog.objective) or \
                u.ptype == "sdp" and len(u.prog._processed_objective) > 1:
            mode = "plain"
        if v == "feasible":
            check_program(ctx, u, M, s, mode, dual, val, what)
        old = seen.setdefault(mode, (v, val, what))
        tol = 1e-6 if u.ptype == "lp" else 5e-4
        if old[0] != v and u.ptype == "sdp":
            ctx.probe("borderline")
            continue
        ctx.require(old[0] == v and (val is None or abs(old[1] - val) <= tol
                                     * (1 + abs(val))),
                    "formulations disagree", f"{what}: {v} {val}; "
                    f"{old[2]}: {old[0]} {old[1]}")
        if mode != "plain" and "plain" in seen and u.ptype == "lp" \
                and v == "feasible" and seen["plain"][0] != "unbounded":
            refuted = seen["plain"][0] == "infeasible"
            ctx.require(refuted == (val < -1e-7), "formulations disagree",
                        f"{what}: {val:.3g}; plain: {seen['plain'][0]}")


def nontrivial(spec, rec):
    return rec["probes"].get("decided", 0)


def simpler(spec):
    if spec["kind"] == "direct":
        return
    if spec["hist"]:
        yield dict(spec, hist=[])
    if len(spec["solves"]) > 2:
        for i in range(len(spec["solves"])):
            yield dict(spec, solves=spec["solves"][:i]
                       + spec["solves"][i + 1:])
    for i, op in enumerate(spec["ops"]):
        for f in ("terms", "refs", "list"):
            if op.get(f) and len(op[f]) > 1:
                for j in range(len(op[f])):
                    o = dict(op)
                    o[f] = op[f][:j] + op[f][j + 1:]
                    yield dict(spec, ops=spec["ops"][:i] + [o]
                               + spec["ops"][i + 1:])
