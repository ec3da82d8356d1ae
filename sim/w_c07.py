"""C07: a solver failure is reported as failure, never as a verdict.

A seeded sequence of setting changes and solves in every formulation, with
seeded solver outcomes: refusals (licence), resource errors, exceptions inside
the call, early stops with every combination of statuses the solver may then
announce, errors while the answer is read back, and answers that are merely
noisy.  After each failed solve nothing may be presented as an answer; after
the last fault the same program solves and agrees with a new one.
"""
from . import progs, results, scen
from .core import Inconclusive
from .lab import pick
from .mosek_node import EARLY, NODE, Policy

PROP = "C07"
RUNS = {"quick": 1200, "thorough": 24000}
RULE = ("one run = one program, 2-6 solves of which a seeded subset fails, "
        "then a healthy solve compared with a new program's; non-trivial when "
        "a fault was injected and the healthy solve was conclusive")
ASSUME = ["early stops announce one of the status pairs MOSEK documents",
          "the simulated solver is correct to 1e-5 (LP) / 5e-4 (SDP)"]
SDPS = [(n, c) for n, c in scen.SDP if n not in ("bil22", "tri222")]
RAISING = ("license", "space", "memory", "crash", "interrupt")
CUT = ("stall", "iterlimit", "timelimit", "numerical")


def gen_fault(rng):
    k = rng.choice(RAISING + CUT + CUT + ("readback",))
    f = {"kind": k, "seed": rng.randrange(1 << 20)}
    if k in CUT:
        f["early"] = rng.randrange(len(EARLY))
    return f


def gen(rng, tier):
    ptype = "lp" if rng.random() < .5 else "sdp"
    name, col = scen.draw(rng, ptype,
                          None if ptype == "lp" else SDPS)
    sc = scen.get(name)
    opts = {}
    supp = rng.random() < .1
    if supp:
        opts["supports_problem"] = True
    models = [pick(rng, sc, ptype) for _ in range(2)]
    ops = []
    for _ in range(rng.randint(2, 6)):
        r = rng.random()
        if supp:
            ops.append({"op": "dist", "m": rng.randrange(2)})
        elif r < .3:
            ops.append(progs.gen_dist(rng, ptype, 2))
        elif r < .45:
            ops.append(progs.gen_values(rng, 2))
        elif r < .75:
            ops.append(progs.gen_obj(rng))
        elif r < .85 and ptype == "lp":
            ops.append(progs.gen_bounds(rng, 2))
        s = progs.gen_solve(rng, ptype)
        if supp:
            s["mode"] = "plain"
        elif ptype == "lp" and rng.random() < .15:
            s["mode"] = "relaxkv"
        if rng.random() < .75:
            s["fault"] = gen_fault(rng)
        ops.append(s)
    last = progs.gen_solve(rng, ptype)
    if supp:
        last["mode"] = "plain"
    return {"sc": name, "ptype": ptype, "col": col, "opts": opts,
            "models": models, "ops": ops, "last": last, "supp": supp}


def run(spec, ctx):
    sc = scen.get(spec["sc"])
    M = progs.Models(sc, spec["models"])
    NODE.reset(Policy())
    u = progs.Unit(sc, spec["ptype"], spec["col"], spec["opts"], ctx=ctx)
    if not progs.columns_ok(u):
        raise Inconclusive("too large")
    s = progs.blank()
    for op in spec["ops"]:
        if op["op"] != "solve":
            progs.apply(u, M, op, ctx)
            s = progs.settle(s, op, u.ptype)
            continue
        f = op.get("fault")
        pol = NODE.reset(Policy())
        if f:
            pol.plan = {i: f for i in range(4)}      # retries fail as well
        what = (f"{spec['sc']} {u.ptype} {op['mode']} "
                f"{'dual' if op['dual'] else 'primal'} {f}")
        raised = None
        try:
            u.solve(bool(op["dual"]), op["mode"])
        except BaseException as e:                   # noqa: BLE001
            raised = type(e).__name__
            if not f:
                raise
        ctx.solves += 1
        if not f:
            ctx.ev("solve", str(u.prog.status))
            continue
        ctx.fault(f["kind"] if f["kind"] not in CUT else
                  f"{f['kind']}/{'/'.join(EARLY[f['early']] or ('none',))}")
        sh = results.shown(u.prog)
        ctx.ev("failing solve", f["kind"], raised, sh)
        ctx.probe("failure inspected")
        ctx.require(not sh, "failure presented as an answer",
                    f"{what}: presents {sh} (raised {raised})")
        if raised is None:
            ctx.require(getattr(u.prog, "success", False) is False
                        or not u.prog.success, "failure presented as an "
                        "answer", what)
        ctx.state(u.ptype, op["mode"], op["dual"], f["kind"],
                  f.get("early"), raised)
    NODE.reset(Policy())
    r = progs.fresh(u, M, s, ctx)
    op = spec["last"]
    a = ctx.call("solve", u.solve, bool(op["dual"]), op["mode"])
    b = ctx.call("solve", r.solve, bool(op["dual"]), op["mode"])
    ctx.solves += 2
    ctx.ev("healthy solve", a, b)
    if "none" in (a[0], b[0]):
        ctx.probe("inconclusive_probe")
        return
    if a[0] != b[0] and u.ptype == "sdp":
        m = r.solve(True, "fao")[1]
        if m is None or abs(m) < 1e-4:
            ctx.probe("borderline_probe")
            return
    ctx.require(a[0] == b[0], "unusable after failure",
                f"{spec['sc']}: {a} after failures, new program {b}")
    if a[1] is not None:
        tol = 1e-5 if u.ptype == "lp" else 5e-4
        ctx.require(abs(a[1] - b[1]) <= tol * (1 + abs(b[1])),
                    "unusable after failure",
                    f"{spec['sc']}: {a} after failures, new program {b}")
    ctx.probe("recovered")


def nontrivial(spec, rec):
    return rec["probes"].get("recovered", 0) and \
        rec["probes"].get("failure inspected", 0)


def simpler(spec):
    for i, op in enumerate(spec["ops"]):
        if op.get("fault"):
            o = {k: v for k, v in op.items() if k != "fault"}
            yield dict(spec, ops=spec["ops"][:i] + [o] + spec["ops"][i + 1:])
