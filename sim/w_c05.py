"""C05: only the settings in force matter, not how they were reached.

A long-lived program is driven through a seeded history of settings, solves,
queries, exports, failing solves and regenerations.  At every probe it is
compared with a *replica*: a new program built from a new scenario object and
given only the settings now in force (the ledger in progs.settle).  Compared
are the verdict, the optimal value, the values it treats as known, the
feasible set actually submitted to the solver (LP, exact polyhedron
comparison), and optimal values of seeded objectives.
"""
import os

from . import equiv, progs, scen
from .core import Inconclusive
from .lab import pick
from .mosek_node import NODE, Policy

PROP = "C05"
RUNS = {"quick": 340, "thorough": 6000}
RULE = ("one run = one program, a random history of 3-14 operations and "
        "2-5 probes; non-trivial when at least one probe compared two "
        "conclusive results after at least two setting changes")
ASSUME = ["the simulated solver is correct to 1e-5 (LP) / 5e-4 (SDP)",
          "set_values/set_distribution discard earlier values and extra "
          "constraints, update_values merges, objective and bounds persist "
          "(as documented)"]

SDPS = [(n, c) for n, c in scen.SDP if n not in ("bil22", "tri222")]


def gen_op(rng, ptype, nm, supp):
    r = rng.random()
    if supp:
        if r < .45:
            return {"op": "dist", "m": rng.randrange(nm), "v": 1.0}
        if r < .6:
            return {"op": "novals", "how": rng.choice(["values", "dist"])}
        if r < .75:
            return progs.gen_reset(rng)
        return {"op": "query", "what": rng.choice(progs.QUERIES),
                "ref": progs.gen_ref(rng)}
    if r < .2:
        return progs.gen_dist(rng, ptype, nm)
    if r < .3:
        return progs.gen_values(rng, nm)
    if r < .38:
        op = progs.gen_values(rng, nm, "update")
        return op
    if r < .42:
        return {"op": "novals", "how": rng.choice(["values", "dist",
                                                   "empty"])}
    if r < .55:
        return progs.gen_obj(rng)
    if r < .66:
        return progs.gen_bounds(rng, nm, [-.1])
    if r < .76:
        return progs.gen_cons(rng, nm)
    if r < .84:
        return progs.gen_reset(rng)
    if r < .93:
        return {"op": "query", "what": rng.choice(progs.QUERIES),
                "ref": progs.gen_ref(rng)}
    if r < .96 and ptype == "sdp":
        return {"op": "regen", "col": None}
    return {"op": "export", "fmt": rng.choice(["lp", "mps"] if ptype == "lp"
                                              else ["dat-s", "csv", "mat"])}


def gen(rng, tier):
    ptype = "lp" if rng.random() < .6 else "sdp"
    name, col = scen.draw(rng, ptype,
                          None if ptype == "lp" else SDPS)
    sc = scen.get(name)
    opts = {}
    supp = False
    if rng.random() < .08:
        supp = True
        opts["supports_problem"] = True
    elif ptype == "lp":
        if rng.random() < .12:
            opts["include_all_outcomes"] = True
        if rng.random() < .1:
            opts["default_non_negative"] = False
    nm = 2
    models = [pick(rng, sc, ptype) for _ in range(nm)]
    n = rng.randint(3, 14)
    ops = []
    for _ in range(n):
        op = gen_op(rng, ptype, nm, supp)
        if op["op"] == "regen":
            op["col"] = rng.choice(scen.columns(name, SDPS))
        elif op["op"] in ("values", "update", "obj", "bounds", "eqs",
                          "ineqs") + (("dist",) if ptype == "lp" else ()) \
                and not supp and rng.random() < .15:
            op["refused"] = rng.randrange(8)
        ops.append(op)
        if rng.random() < .3:
            s = progs.gen_solve(rng, ptype)
            if supp:
                s["mode"] = "plain"
            if rng.random() < .15:
                s["fault"] = rng.choice(["license", "space", "stall",
                                         "memory"])
            ops.append(s)
    if not supp and rng.random() < .3:
        # values given in two steps, the second correcting the first
        a = progs.gen_values(rng, nm)
        a.update(only=0, refs=[progs.gen_ref(rng, "kn") for _ in range(
            rng.choice([4, 8, 24, 60]))])
        b = dict(a, op="update", m=rng.randrange(nm), refs=[
            rng.choice([rng.choice(a["refs"]), progs.gen_ref(rng, "kn")])
            for _ in range(rng.choice([1, 2, 4]))])
        ops += [a, b] + [gen_op(rng, "lp", nm, False)
                         for _ in range(rng.choice([0, 0, 1]))]
    if ptype == "sdp" and not supp and rng.random() < .35:
        # a value outside of its bound, in either order
        refs = [progs.gen_ref(rng, "kn") for _ in range(rng.choice([1, 3]))]
        m = rng.randrange(nm)
        pair = [{"op": rng.choice(["values", "update"]), "m": m,
                 "refs": refs, "only": 0, "key": "name"},
                {"op": "bounds", "type": rng.choice(["up", "lo"]), "m": m,
                 "terms": [[refs[0], -.1]], "key": "obj"}]
        if rng.random() < .3:
            pair[0] = {"op": "dist", "m": m, "v": 1.0}
        if rng.random() < .5:
            pair.reverse()
        at = rng.randint(0, len(ops))
        ops[at:at] = pair
    probes = [progs.gen_solve(rng, ptype) for _ in range(2)]
    if not supp:
        for _ in range(2):
            o = progs.gen_obj(rng)
            if not o["terms"]:
                o = progs.gen_obj(rng)
            probes.append({"op": "probe", "obj": o,
                           "dual": int(rng.random() < .5)})
    else:
        for q in probes:
            q["mode"] = "plain"
    return {"sc": name, "ptype": ptype, "col": col, "opts": opts,
            "models": models, "ops": ops, "probes": probes, "supp": supp}


def solve_pair(ctx, u, r, op, label):
    """Solve both with the same arguments and compare."""
    NODE.reset(Policy())
    got = []
    for w in (u, r):
        pol = NODE.policy
        pol.problems = []
        got.append((ctx.call("solve", w.solve, bool(op.get("dual", 1)),
                             op.get("mode", "plain")), pol.problems[-1]))
        ctx.solves += 1
    (a, pa), (b, pb) = got
    ctx.ev(label, op.get("mode", "plain"), op.get("dual", 1), a[0], a[1])
    if "none" in (a[0], b[0]):
        ctx.probe("inconclusive_probe")
        return
    ctx.probe("decided")
    if u.ptype == "lp":
        if a[0] != b[0]:
            ctx.require(False, "verdict", f"{label}: history gives {a}, "
                        f"fresh program gives {b}")
        if a[1] is not None:
            ctx.require(abs(a[1] - b[1]) <= 1e-5 * (1 + abs(b[1])), "value",
                        f"{label}: history gives {a}, fresh gives {b}")
        if not op.get("dual", 1):
            d = equiv.same_lp(pa, pb)
            ctx.require(d is None, "submitted problem", f"{label}: {d}")
        return
    if a[0] != b[0]:
        m = margin(ctx, u, r)
        if m is None or abs(m) < 1e-4:
            ctx.probe("borderline_probe")
            return
        ctx.require(False, "verdict", f"{label}: history gives {a}, fresh "
                    f"program gives {b} (margin {m:.3g})")
    if a[1] is not None:
        d = abs(a[1] - b[1])
        if d > 5e-4 * (1 + abs(b[1])):
            ctx.require(False, "value", f"{label}: history gives {a}, fresh "
                        f"gives {b}")


def margin(ctx, u, r):
    """Feasibility margin of the replica (its objective is cleared)."""
    if u.opts.get("supports_problem"):
        return 1.0
    NODE.reset(Policy())
    r.prog.set_objective(None)
    v = r.solve(True, "fao")
    ctx.solves += 1
    return v[1]


def compare_known(ctx, u, r, other="fresh"):
    a, b = progs.known_of(u), progs.known_of(r)
    ctx.require(set(a) == set(b), "known values",
                f"only in history: {sorted(set(a) - set(b))[:4]}, only in "
                f"{other}: {sorted(set(b) - set(a))[:4]}")
    for k in sorted(a):
        ctx.require(abs(a[k] - b[k]) < 1e-9, "known values",
                    f"{k}: {a[k]} in history, {b[k]} in {other}")


def refused(ctx, u, M, op):
    """The call of op with one name misspelt (or an array of the wrong
    shape): refused; the caller then corrects it."""
    class Misspelt:
        """u, whose items come out with one key replaced."""
        def __init__(self, prog):
            self.prog = prog

        def __getattr__(self, n):
            f = getattr(self.prog, n)

            def g(items, *a, **k):
                if n == "set_distribution":
                    items = items[..., :-1]
                elif isinstance(items, list):
                    items = items + [{WRONG: 1.0}]
                else:
                    keys = list(items)
                    j = op["refused"] % len(keys)
                    items = {(WRONG if i == j else q): items[q]
                             for i, q in enumerate(keys)}
                return f(items, *a, **k)
            return g
    prog = u.prog
    try:
        u.prog = Misspelt(prog)
        progs.apply(u, M, op)
        ctx.ev("refused", op["op"], "accepted")
    except MemoryError:
        raise
    except Exception as e:                           # noqa: BLE001
        ctx.ev("refused", op["op"], type(e).__name__)
        ctx.fault("refused call")
    finally:
        u.prog = prog


WRONG = "P[Nobody=0]"
FAULTY = {"license": "refused", "space": "error", "stall": "stalled",
          "memory": "memory"}


def run(spec, ctx):
    sc = scen.get(spec["sc"])
    M = progs.Models(sc, spec["models"])
    NODE.reset(Policy())
    u = progs.Unit(sc, spec["ptype"], spec["col"], spec["opts"], ctx=ctx)
    if not progs.columns_ok(u):
        raise Inconclusive("too large")
    shadow = None
    s = progs.blank()
    changes = 0
    for op in spec["ops"]:
        k = op["op"]
        if k == "query":
            ctx.ev("query", op["what"], progs.query(u, op))
            continue
        if k == "export":
            try:
                u.prog.write_to_file(f"f.{op['fmt']}")
                ctx.ev("export", op["fmt"], os.path.getsize(
                    f"f.{op['fmt']}") > 0)
            except Exception as e:                   # noqa: BLE001
                ctx.ev("export", op["fmt"], type(e).__name__)
            continue
        if k == "solve":
            if op.get("fault"):
                pol = NODE.reset(Policy())
                pol.plan = {0: {"kind": op["fault"], "seed": 1}}
                ctx.fault(op["fault"])
                try:
                    u.solve(bool(op["dual"]), op["mode"])
                    ctx.ev("solve", op["fault"], str(u.prog.status))
                except BaseException as e:           # noqa: BLE001
                    ctx.ev("solve", op["fault"], type(e).__name__)
                continue
            r = progs.fresh(u, M, s, ctx)
            if spec["supp"]:
                op = dict(op, mode="plain")
            solve_pair(ctx, u, r, op, "solve")
            continue
        t = progs.settle(s, op, u.ptype)
        if u.ptype == "sdp" and not spec["supp"] and (t["up"] or t["lo"]) \
                and t["vals"] and k in ("dist", "values", "update",
                                        "bounds"):
            if shadow is None or shadow.col != u.col:
                shadow = progs.Unit(sc, "sdp", u.col, u.opts)
            by = progs.contradiction(u, M, s, op, shadow)
            if by > -1e-7:
                if by > .02:
                    contradictory(ctx, u, M, s, op, by)
                ctx.ev("skip", k)
                continue
        if op.get("refused") is not None and (op.get("terms") or op.get(
                "list") or op.get("refs") or k == "dist"):
            refused(ctx, u, M, op)
        progs.apply(u, M, op, ctx)
        changes += 1
        s = t
        ctx.ev(k)
        ctx.state(scen.label(spec["sc"]), spec["ptype"], s)
    r = progs.fresh(u, M, s, ctx)
    compare_known(ctx, u, r)
    one = progs.merged(u, M, s)
    if one:
        ctx.probe("values in several steps")
        compare_known(ctx, u, progs.fresh(u, M, {**progs.blank(), "vals": [
            one], "col": s["col"]}, ctx), "one call")
    for q in spec["probes"]:
        if q["op"] == "probe":
            for w in (u, r):
                progs.apply(w, M, q["obj"], ctx)
            s = progs.settle(s, q["obj"], u.ptype)
            solve_pair(ctx, u, r, dict(q, mode="plain"), "objective probe")
        else:
            solve_pair(ctx, u, r, q, "probe")
    if changes >= 2 and ctx.probes.get("decided"):
        ctx.probe("histories")


def contradictory(ctx, u, M, s, op, by):
    """A value outside of a bound in force is refused, or there is no
    solution; it is not passed over."""
    r = progs.fresh(u, M, s, ctx)
    try:
        progs.apply(r, M, op)
    except Exception:                                # noqa: BLE001
        ctx.probe("contradiction refused")
        return
    NODE.reset(Policy())
    a = r.solve(True, "fao")
    ctx.require(a[0] != "feasible" or (a[1] is not None and a[1] < 1e-6),
                "contradiction passed over", f"{op['op']} leaves a value "
                f"{by:.3g} outside of its bound, yet {a}")
    ctx.probe("contradiction without solution")


def nontrivial(spec, rec):
    return rec["probes"].get("histories", 0) > 0


def simpler(spec):
    if len(spec["probes"]) > 1:
        for i in range(len(spec["probes"])):
            yield dict(spec, probes=[spec["probes"][i]])
    for i, op in enumerate(spec["ops"]):
        if "refused" in op:
            o = {a: b for a, b in op.items() if a != "refused"}
            yield dict(spec, ops=spec["ops"][:i] + [o] + spec["ops"][i + 1:])
        for f in ("terms", "refs", "list"):
            if op.get(f) and len(op[f]) > 1:
                for j in range(len(op[f])):
                    o = dict(op)
                    o[f] = op[f][:j] + op[f][j + 1:]
                    yield dict(spec, ops=spec["ops"][:i] + [o]
                               + spec["ops"][i + 1:])
