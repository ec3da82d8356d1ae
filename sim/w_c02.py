"""C02: optimised bounds contain every attainable value.

Concrete realisations of the scenario fix (some of) the known values; seeded
linear functions of moments are maximised and minimised after seeded histories
of other objectives, values, bounds and failed solves.  Whatever the program
reports has to contain the value each compatible realisation attains, computed
from first principles.
"""
from . import progs, scen
from .core import Inconclusive
from .lab import pick
from .mosek_node import NODE, Policy

PROP = "C02"
RUNS = {"quick": 1200, "thorough": 30000}
RULE = ("one run = one scenario, 1-3 realisations, settings valid for all of "
        "them, an optional earlier history and 2-5 optimisations; non-trivial "
        "when at least one finite bound was compared with attained values")
ASSUME = ["the independent model of the scenario (sim/lab.py) is right",
          "the simulated solver is correct to 1e-6 (LP) / 1e-4 (SDP), "
          "relative to the objective's coefficients"]
SDPS = [(n, c) for n, c in scen.SDP if n not in ("bil22", "tri222")]


def gen(rng, tier):
    ptype = "lp" if rng.random() < .6 else "sdp"
    name, col = scen.draw(rng, ptype,
                          None if ptype == "lp" else SDPS)
    sc = scen.get(name)
    opts = {}
    if ptype == "lp":
        if rng.random() < .15:
            opts["include_all_outcomes"] = True
        if rng.random() < .15:
            opts["default_non_negative"] = False
    fix = rng.choice(["none", "dist", "dist", "values", "values"])
    models = [pick(rng, sc, ptype) for _ in range(3)]
    hist = []
    if rng.random() < .5:
        for _ in range(rng.randint(1, 5)):
            r = rng.random()
            if r < .3:
                hist.append(progs.gen_dist(rng, ptype, 1) | {"m": 1})
            elif r < .5:
                hist.append(progs.gen_values(rng, 1) | {"m": 1})
            elif r < .75:
                hist.append(progs.gen_obj(rng))
            elif ptype == "lp":
                hist.append(progs.gen_bounds(rng, 1) | {"m": 1})
            if rng.random() < .4:
                s = progs.gen_solve(rng, ptype)
                if rng.random() < .25:
                    s["fault"] = rng.choice(["license", "stall", "memory",
                                             "crash", "numerical"])
                hist.append(s)
    setup = []
    if fix == "dist":
        d = {"op": "dist", "m": 0}
        r = rng.random()
        if r < .25:
            d["lpi"] = 1
        elif r < .4:
            d["sr"] = 1
        setup.append(d)
    elif fix == "values":
        setup.append(progs.gen_values(rng, 1) | {"m": 0})
        if rng.random() < .3:
            setup.append(progs.gen_values(rng, 1, "update") | {"m": 0})
    else:
        setup.append({"op": "novals", "how": "values"})
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        c = rng.choice(["b", "e", "i"])
        setup.append((progs.gen_bounds(rng, 1) if c == "b" else
                      progs.gen_cons(rng, 1, "eqs" if c == "e" else
                                     "ineqs")) | {"m": 0})
    rng.shuffle(hist)
    opts_ = []
    for _ in range(rng.randint(2, 5)):
        o = progs.gen_obj(rng)
        while not o["terms"]:
            o = progs.gen_obj(rng)
        opts_.append({"obj": o, "dual": int(rng.random() < .6),
                      "rev": int(rng.random() < .4),
                      "alt": rng.choice([None, rng.randrange(1 << 20)])})
    return {"sc": name, "ptype": ptype, "col": col, "opts": opts,
            "models": models, "hist": hist, "setup": setup, "ops": opts_,
            "keep": int(rng.random() < .5)}


def run(spec, ctx):
    sc = scen.get(spec["sc"])
    M = progs.Models(sc, spec["models"])
    NODE.reset(Policy())
    u = progs.Unit(sc, spec["ptype"], spec["col"], spec["opts"], ctx=ctx)
    if not progs.columns_ok(u):
        raise Inconclusive("too large")
    for op in spec["hist"]:
        if op["op"] == "solve":
            pol = NODE.reset(Policy())
            if op.get("fault"):
                pol.plan = {0: {"kind": op["fault"], "seed": 3}}
                ctx.fault(op["fault"])
            try:
                u.solve(bool(op["dual"]), op["mode"])
            except Exception as e:                   # noqa: BLE001
                ctx.ev("history", type(e).__name__)
        else:
            progs.apply(u, M, op, ctx)
    NODE.reset(Policy())
    if spec["hist"]:
        ctx.probe("after_history")
        # bounds and objectives persist, values and constraints are replaced
        ctx.call("reset", u.prog.reset, "bounds")
    s = progs.blank()
    for op in spec["setup"]:
        s = progs.settle(s, op, u.ptype)
        if u.ptype == "sdp" and op["op"] == "bounds" and s["vals"]:
            kn = progs.known_of(u)
            if any(n in kn for n in progs.bound_items(
                    u, M, {**op, "key": "name"})) if op["terms"] else False:
                s = progs.settle(s, {**op, "terms": None}, u.ptype)
                continue
        progs.apply(u, M, op, ctx)
    free = not s["vals"] and not (s["up"] or s["lo"] or s["eqs"]
                                  or s["ineqs"])
    who = range(len(spec["models"])) if free else [0]
    for q in spec["ops"]:
        o = q["obj"]
        progs.apply(u, M, o, ctx)
        val = {}
        mag = 1.0 + abs(o.get("const") or 0)
        for i in who:
            v = o.get("const") or 0
            for r, c in o["terms"]:
                v += c * M.value(i, u.mon(r))
            val[i] = v
        mag += sum(abs(c) for _, c in o["terms"])
        for dual in ([q["dual"], 1 - q["dual"]] if q["rev"]
                     else [q["dual"]]):
            pol = NODE.reset(Policy())
            if q["alt"] is not None and u.ptype == "lp":
                pol.alt = progs.rnd(q["alt"])
                ctx.fault("alternative optimum")
            v, b = ctx.call("solve", u.solve, bool(dual), "plain")
            ctx.solves += 1
            ctx.ev("optimise", o["dir"], dual, v, b)
            if v in ("none", "unbounded"):
                ctx.probe("no bound: " + v)
                continue
            what = (f"{spec['sc']} {u.ptype} {spec['col'] or ''} "
                    f"{o['dir']} {'dual' if dual else 'primal'}")
            if v == "infeasible":
                if u.ptype == "sdp" and not free:
                    # no interior, no verdict
                    NODE.reset(Policy())
                    ctx.call("set_objective", u.prog.set_objective, None)
                    m = ctx.call("solve", u.solve, True, "fao")[1]
                    progs.apply(u, M, o, ctx)
                    if m is None or m < 1e-4:
                        ctx.probe("boundary")
                        continue
                ctx.require(False, "no bound", f"{what}: declared infeasible"
                            f" though a {M[0].style} realisation attains "
                            f"{val[0]:.6g}")
            ctx.probe("decided")
            tol = (2e-6 if u.ptype == "lp" else 2e-4) * mag
            for i in who:
                gap = (b - val[i]) * (1 if o["dir"] == "max" else -1)
                ctx.probe("bound compared")
                if abs(gap) < 1e-4:
                    ctx.probe("bound attained")
                ctx.require(gap >= -tol, "bound excludes an attained value",
                            f"{what}: reported {b:.7g}, a {M[i].style} "
                            f"realisation attains {val[i]:.7g}")
            ctx.state(scen.label(spec["sc"]), u.ptype, spec["col"], dual, o["dir"],
                      round(b, 3))


def simpler(spec):
    for i in range(len(spec["hist"])):
        yield dict(spec, hist=spec["hist"][:i] + spec["hist"][i + 1:])
    for i in range(len(spec["setup"])):
        yield dict(spec, setup=spec["setup"][:i] + spec["setup"][i + 1:])
    for i, q in enumerate(spec["ops"]):
        t = q["obj"]["terms"]
        if len(t) > 1:
            for j in range(len(t)):
                q2 = dict(q, obj=dict(q["obj"], terms=t[:j] + t[j + 1:]))
                yield dict(spec, ops=spec["ops"][:i] + [q2]
                           + spec["ops"][i + 1:])
