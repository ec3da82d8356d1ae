"""C06: reported results always belong to the current settings.

A program is solved and then driven through seeded changes, rejected calls,
calls interrupted at seeded lines and failing solves.  After each step nothing
found by an earlier solve may still be presented (unless it demonstrably still
is the result of the settings in force), and what a successful solve presents
is what a new program in the same settings finds.
"""
from . import interrupt, progs, results, scen
from .core import Inconclusive
from .lab import pick
from .mosek_node import NODE, Policy
from .w_c07 import gen_fault

PROP = "C06"
RUNS = {"quick": 700, "thorough": 14000}
RULE = ("one run = one program and 3-9 steps (changes, rejected or "
        "interrupted calls, failing and healthy solves); non-trivial when "
        "something changed while a result was being presented")
ASSUME = ["a setting operation may also keep the result when its arguments "
          "equal the settings in force"]
SDPS = [(n, c) for n, c in scen.SDP if n not in ("bil22", "tri222",
                                                 "tri221_o3")]


def gen(rng, tier):
    ptype = "lp" if rng.random() < .5 else "sdp"
    name, col = scen.draw(rng, ptype,
                          None if ptype == "lp" else SDPS)
    sc = scen.get(name)
    opts = {}
    supp = rng.random() < .1
    if supp:
        opts["supports_problem"] = True
    models = [pick(rng, sc, ptype) for _ in range(2)]
    if ptype == "sdp":
        for m in models:
            m["eta"] = rng.choice([0, .1, .2])
    ops = []
    for _ in range(rng.randint(3, 9)):
        r = rng.random()
        if r < .12:
            op = progs.gen_dist(rng, ptype, 2, lpi=False)
        elif r < .22:
            op = progs.gen_values(rng, 2)
        elif r < .34:
            op = progs.gen_values(rng, 2, "update")
        elif r < .38:
            op = {"op": "novals", "how": rng.choice(["values", "dist"])}
        elif r < .54:
            op = progs.gen_obj(rng)
        elif r < .66:
            op = progs.gen_bounds(rng, 2)
        elif r < .82:
            op = progs.gen_cons(rng, 2)
        elif r < .94:
            op = progs.gen_reset(rng)
        elif ptype == "sdp":
            op = {"op": "regen", "col": rng.choice(
                scen.columns(name, SDPS))}
        else:
            op = {"op": "query", "what": rng.choice(progs.QUERIES),
                  "ref": progs.gen_ref(rng)}
        if supp and op["op"] not in ("novals", "reset"):
            op = {"op": "dist", "m": rng.randrange(2)}
        if op["op"] not in ("regen", "query"):
            r = rng.random()
            if r < .2:
                op["strike"] = round(rng.random(), 6)
            elif r < .3:
                op["reject"] = rng.randrange(1 << 20)
        s = progs.gen_solve(rng, ptype)
        if supp:
            s["mode"] = "plain"
        ops.append({"change": op, "before": s,
                    "fault": gen_fault(rng) if rng.random() < .35 else None,
                    "fdual": int(rng.random() < .6)})
    first = [] if supp else [progs.gen_dist(rng, ptype, 2, lpi=False)]
    return {"sc": name, "ptype": ptype, "col": col, "opts": opts,
            "models": models, "first": first, "ops": ops, "supp": supp}


def rejected(u, op, seed):
    """A call of the same kind the program must refuse: (label, thunk)."""
    p = u.prog
    k = op["op"]
    if k == "obj":
        if seed % 2:
            return "set_objective", lambda: p.set_objective(
                {u.mon(["any", 0]).name: 1.}, "upwards")
        return "set_objective", lambda: p.set_objective(
            {u.mon(["any", 0]).name: 1., "pZ(7|9)": 1.}, "max")
    if k in ("values", "update", "dist", "novals"):
        f = p.set_values if k != "update" else p.update_values
        return "set_values", lambda: f({u.mon(["any", seed]).name: .25,
                                        "not a moment": .5})
    if k == "bounds":
        if seed % 2:
            return "set_bounds", lambda: p.set_bounds(
                {u.mon(["any", seed]).name: .5}, "sideways")
        return "set_bounds", lambda: p.set_bounds(
            {u.mon(["any", seed]).name: .5, "not a moment": .5}, "up")
    if k == "eqs":
        return "set_extra_equalities", lambda: p.set_extra_equalities(
            [{u.mon(["any", seed]).name: 1.}, {"not a moment": 1}])
    if k == "ineqs":
        return "set_extra_inequalities", lambda: p.set_extra_inequalities(
            [{u.mon(["any", seed]).name: 1.}, {"not a moment": 1}])
    return "reset", lambda: p.reset("everything")


def still_true(ctx, u, before, s0):
    """Does the result still presented belong to what is now in force?  Solve
    again, the same way, and compare."""
    NODE.reset(Policy())
    try:
        now = u.solve(bool(s0["dual"]), s0["mode"])
    except Exception as e:                           # noqa: BLE001
        return f"solving again raises {type(e).__name__}"
    ctx.solves += 1
    if "none" in (now[0], before[0]):
        return None
    if now[0] != before[0]:
        return f"{before} presented, solving again gives {now}"
    if now[1] is not None and abs(now[1] - before[1]) > \
            (1e-5 if u.ptype == "lp" else 1e-3) * (1 + abs(now[1])):
        return f"{before} presented, solving again gives {now}"
    return None


def run(spec, ctx):
    sc = scen.get(spec["sc"])
    M = progs.Models(sc, spec["models"])
    NODE.reset(Policy())
    u = progs.Unit(sc, spec["ptype"], spec["col"], spec["opts"], ctx=ctx)
    if not progs.columns_ok(u):
        raise Inconclusive("too large")
    p = u.prog
    s = progs.blank()
    for op in spec["first"]:
        progs.apply(u, M, op, ctx)
        s = progs.settle(s, op, u.ptype)
    shadow = None
    lost = False             # settings unknown after an interrupted call
    for step in spec["ops"]:
        op, s0 = step["change"], step["before"]
        NODE.reset(Policy())
        if lost:
            # put the program into known settings again
            ctx.call("reset", p.reset, "all")
            ctx.call("set_extra_equalities", p.set_extra_equalities, None)
            ctx.call("set_extra_inequalities", p.set_extra_inequalities,
                     None)
            s = progs.blank()
            lost = False
        before = ctx.call("solve", u.solve, bool(s0["dual"]), s0["mode"])
        ctx.solves += 1
        had = results.shown(p)
        ctx.ev("solve", s0["mode"], s0["dual"], before)
        if step["fault"]:
            f = step["fault"]
            pol = NODE.reset(Policy())
            pol.plan = {i: f for i in range(4)}
            ctx.fault("solver " + f["kind"])
            try:
                u.solve(bool(step["fdual"]), s0["mode"])
            except BaseException as e:               # noqa: BLE001
                ctx.ev("failing solve", type(e).__name__)
            NODE.reset(Policy())
            sh = results.shown(p)
            ctx.probe("inspected after failing solve")
            ctx.require(not sh, "result survives a failed solve",
                        f"{spec['sc']} {u.ptype}: after {f['kind']} still "
                        f"presents {sh}")
            before = ctx.call("solve", u.solve, bool(s0["dual"]), s0["mode"])
            had = results.shown(p)
        if not had:
            ctx.probe("nothing presented")
        k = op["op"]
        if k == "query":
            progs.query(u, op)
            sh = results.shown(p)
            ctx.ev("query", op["what"], len(sh))
            ctx.require(not sh or u.result(bool(s0["dual"])) == before,
                        "result altered by a query",
                        f"{op['what']}: {before} became "
                        f"{u.result(bool(s0['dual']))}")
            continue
        if op.get("reject") is not None:
            label, f = rejected(u, op, op["reject"])
            try:
                f()
                ctx.ev("accepted", label)
                lost = True
                continue
            except Exception as e:                   # noqa: BLE001
                ctx.ev("rejected", label, type(e).__name__)
            ctx.fault("rejected call")
            sh = results.shown(p)
            if sh:
                why = still_true(ctx, u, before, s0)
                ctx.probe("kept after rejection")
                ctx.require(why is None, "result outlives its settings",
                            f"{spec['sc']} {u.ptype} rejected {label}: {why}")
            lost = True
            continue
        t = progs.settle(s, op, u.ptype)
        if u.ptype == "sdp" and not spec["supp"] and (t["up"] or t["lo"]) \
                and t["vals"]:
            if shadow is None or shadow.col != u.col:
                shadow = progs.Unit(sc, "sdp", u.col, u.opts)
            if progs.contradicts(u, M, s, op, shadow):
                ctx.ev("skip", k)
                continue
        if op.get("strike") is not None:
            def do():
                progs.apply(u, M, op)
            # how many lines it takes is measured on a new program
            w = progs.fresh(u, M, s)
            w.solve(bool(s0["dual"]), s0["mode"])
            n, _ = interrupt.count(lambda: progs.apply(w, M, op))
            at = 1 + int(op["strike"] * n)
            hit, where, got = interrupt.strike(do, at, KeyboardInterrupt())
            ctx.ev("interrupted" if hit else "completed", k)
            if hit:
                ctx.fault("interrupt")
                sh = results.shown(p)
                if sh:
                    why = still_true(ctx, u, before, s0)
                    ctx.probe("kept after interrupt")
                    ctx.require(why is None or why.startswith("solving"),
                                "result outlives its settings",
                                f"{spec['sc']} {u.ptype} {k} interrupted in "
                                f"{where}: {why}")
                lost = True
                continue
        else:
            progs.apply(u, M, op, ctx)
        changed = t != s
        s = t
        sh = results.shown(p)
        cert = results.certificate(p)
        ctx.ev(k, changed, sh)
        ctx.state(u.ptype, k, op.get("which"), bool(had), s0["mode"])
        if had:
            ctx.probe("changed under a result")
        if changed:
            ctx.require(not sh, "result outlives its settings",
                        f"{spec['sc']} {u.ptype}: after {k} "
                        f"{op.get('which', op.get('type', ''))} still "
                        f"presents {sh}")
            ctx.require(not cert, "certificate outlives its settings",
                        f"{spec['sc']} {u.ptype}: after {k} a certificate of "
                        "the earlier solve is handed out")
        elif sh:
            why = still_true(ctx, u, before, s0)
            ctx.require(why is None, "result outlives its settings",
                        f"{spec['sc']} {u.ptype} {k}: {why}")
    # what is presented in the end is the result of the settings in force
    if lost:
        return
    NODE.reset(Policy())
    s0 = spec["ops"][-1]["before"]
    a = ctx.call("solve", u.solve, bool(s0["dual"]), s0["mode"])
    r = progs.fresh(u, M, s, ctx)
    b = ctx.call("solve", r.solve, bool(s0["dual"]), s0["mode"])
    ctx.solves += 2
    ctx.ev("final", a, b)
    if "none" in (a[0], b[0]):
        return
    if a[0] != b[0] and u.ptype == "sdp":
        ctx.probe("borderline_probe")
        return
    ctx.require(a[0] == b[0] and (a[1] is None or abs(a[1] - b[1]) <= (
        1e-5 if u.ptype == "lp" else 5e-4) * (1 + abs(b[1]))),
        "result of other settings", f"{spec['sc']} {u.ptype}: presents {a}, "
        f"a new program finds {b}")


def nontrivial(spec, rec):
    return rec["probes"].get("changed under a result", 0)


def simpler(spec):
    for i, st in enumerate(spec["ops"]):
        if st["fault"]:
            yield dict(spec, ops=spec["ops"][:i] + [dict(st, fault=None)]
                       + spec["ops"][i + 1:])
    if spec["first"]:
        yield dict(spec, first=[])
