"""C01: a realisable distribution is never refuted.

A concrete realisation of the scenario (classical hidden variables, quantum
states, no-signalling boxes where only no-signalling is imposed) is drawn, its
distribution is computed from first principles, and the program is asked about
it: LP and SDP, every known-value mode, primal and dual, feasibility and
feasibility as optimisation, after a random earlier history, with the solver
free to return any correct answer.
"""
from . import progs, scen
from .core import Inconclusive
from .lab import pick, styles_for
from .mosek_node import NODE, Policy

PROP = "C01"
RUNS = {"quick": 1500, "thorough": 40000}
RULE = ("one run = one scenario, one realisable distribution, an optional "
        "earlier history and 2-4 solves; non-trivial when at least one solve "
        "reached a conclusive verdict on it")
ASSUME = ["the independent model of the scenario (sim/lab.py) is right",
          "the simulated solver is correct to 1e-6 (LP) / 1e-5 (SDP)",
          "classical and quantum realisations have small hidden alphabets "
          "(<= 3) and qubits"]
TOL = {"lp": 2e-6, "sdp": 1e-5}


def gen(rng, tier):
    ptype = "lp" if rng.random() < .62 else "sdp"
    name, col = scen.draw(rng, ptype)
    sc = scen.get(name)
    opts = {}
    supp = rng.random() < .12
    if supp:
        opts["supports_problem"] = True
    elif ptype == "lp":
        if rng.random() < .15:
            opts["include_all_outcomes"] = True
        if rng.random() < .15:
            opts["default_non_negative"] = False
    models = [pick(rng, sc, ptype), pick(rng, sc, ptype)]
    if supp:
        models[0]["style"] = rng.choice(
            [s for s in styles_for(sc, ptype)
             if s in ("det", "hidden", "ns", "chsh")])
    elif ptype == "sdp":
        models[0]["eta"] = rng.choice([0, .1, .25])
    elif rng.random() < .3:
        models[0]["eta"] = .1
    hist = []
    if rng.random() < .4:
        for _ in range(rng.randint(1, 4)):
            r = rng.random()
            if supp:
                hist.append({"op": "dist", "m": 1})
            elif r < .3:
                hist.append(progs.gen_dist(rng, ptype, 1) | {"m": 1})
            elif r < .5:
                hist.append(progs.gen_values(rng, 1) | {"m": 1})
            elif r < .75:
                hist.append(progs.gen_obj(rng))
            elif ptype == "lp":
                hist.append(progs.gen_bounds(rng, 1) | {"m": 1})
            if rng.random() < .4:
                hist.append(progs.gen_solve(rng, ptype))
    r = rng.random()
    if supp:
        known = [{"op": "dist", "m": 0}]
    elif r < .62 or models[0].get("eta"):
        known = [{"op": "dist", "m": 0}]
        r = rng.random()
        if r < .3:
            known[0]["lpi"] = 1
        elif r < .45:
            known[0]["sr"] = 1
    else:
        known = [progs.gen_values(rng, 1) | {"m": 0}]
        for _ in range(rng.choice([0, 0, 1])):
            known.append(progs.gen_values(rng, 1, "update") | {"m": 0})
    if not supp and not models[0].get("eta"):
        for _ in range(rng.choice([0, 0, 1, 2])):
            c = rng.choice(["b", "e", "i"])
            known.append((progs.gen_bounds(rng, 1) if c == "b" else
                          progs.gen_cons(rng, 1, "eqs" if c == "e" else
                                         "ineqs")) | {"m": 0})
    solves = []
    for _ in range(rng.randint(2, 4)):
        modes = ["plain", "fao"]
        if ptype == "lp":
            modes += ["relax", "relaxkv", "plain"]
        if supp:
            modes = ["plain"]
        solves.append({"dual": int(rng.random() < .6),
                       "mode": rng.choice(modes),
                       "alt": rng.choice([None, rng.randrange(1 << 20)])})
    return {"sc": name, "ptype": ptype, "col": col, "opts": opts,
            "models": models, "hist": hist, "ops": known, "solves": solves,
            "supp": supp}


def run(spec, ctx):
    sc = scen.get(spec["sc"])
    M = progs.Models(sc, spec["models"])
    NODE.reset(Policy())
    u = progs.Unit(sc, spec["ptype"], spec["col"], spec["opts"], ctx=ctx)
    if not progs.columns_ok(u):
        raise Inconclusive("too large")
    for op in spec["hist"]:
        if op["op"] == "solve":
            try:
                u.solve(bool(op["dual"]), op["mode"])
            except Exception as e:                   # noqa: BLE001
                ctx.ev("history", type(e).__name__)
        else:
            progs.apply(u, M, op, ctx)
    if spec["hist"]:
        ctx.call("reset", u.prog.reset, "all")
        ctx.probe("after_history")
    for op in spec["ops"]:
        progs.apply(u, M, op, ctx)
        ctx.ev(op["op"], {k: v for k, v in op.items() if k in
                          ("lpi", "sr", "only")})
    if spec["supp"]:
        small = [v for v in (M.value(0, m) for m in u.moments
                             if m.is_knowable and not m.is_zero)
                 if 0 < v < 2e-3]
        if small:
            raise Inconclusive("support with tiny probabilities")
    style = spec["models"][0]["style"]
    margin = None
    for op in spec["solves"]:
        pol = NODE.reset(Policy())
        if op["alt"] is not None and u.ptype == "lp":
            pol.alt = progs.rnd(op["alt"])
            ctx.fault("alternative optimum")
        dual, mode = bool(op["dual"]), op["mode"]
        v, val = ctx.call("solve", u.solve, dual, mode)
        ctx.solves += 1
        ctx.ev("solve", mode, dual, v, val)
        ctx.state(scen.label(spec["sc"]), spec["ptype"], spec["col"], mode, dual, style,
                  [o["op"] for o in spec["ops"]], v)
        tol = TOL[u.ptype]
        if v == "none":
            ctx.probe("inconclusive_solve")
            continue
        what = (f"{style} realisation of {spec['sc']} "
                f"({u.ptype} {spec['col'] or ''} {mode} "
                f"{'dual' if dual else 'primal'})")
        if mode == "plain":
            if v == "infeasible" and u.ptype == "sdp" and not spec["supp"]:
                if margin is None:
                    NODE.reset(Policy())
                    margin = ctx.call("solve", u.solve, True, "fao")
                m = margin[1]
                if m is None or -1e-5 < m < 1e-4:
                    ctx.probe("borderline")
                    continue
            ctx.probe("decided")
            ctx.probe("decided:" + ("supports" if spec["supp"] else mode))
            ctx.require(v == "feasible", "refuted",
                        f"{what} declared {v}")
        else:
            ctx.require(v == "feasible", "refuted",
                        f"{what}: status {u.prog.status}")
            ctx.probe("decided")
            ctx.probe("decided:" + mode)
            ctx.require(val >= -tol * 3, "refuted",
                        f"{what}: value {val:.3g} < 0")


def simpler(spec):
    if spec["hist"]:
        for i in range(len(spec["hist"])):
            yield dict(spec, hist=spec["hist"][:i] + spec["hist"][i + 1:])
    if len(spec["solves"]) > 1:
        for s in spec["solves"]:
            yield dict(spec, solves=[s])
