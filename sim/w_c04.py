"""C04: the program decides exactly the inflation problem it declares.

The problem is written a second time, from the definition (sim/ref.py: a
distribution on every jointly measurable set of events; sim/refsdp.py: the
moment matrix), for catalogue and random scenarios, levels, generating sets
and settings reached through a random history, and solved by independent
means.  Verdict and optimal value have to coincide, neither weaker nor
stronger.
"""
import numpy as np

from . import progs, ref, refsdp, scen
from .core import Inconclusive
from .lab import pick, styles_for
from .mosek_node import NODE, Policy

PROP = "C04"
RUNS = {"quick": 1200, "thorough": 40000}
RULE = ("one run = one scenario (catalogue or random), level, generating set, "
        "settings and a history before them, with 1-5 solves compared with "
        "the reference; non-trivial when at least one comparison was "
        "conclusive")
ASSUME = ["the reference problem (sim/ref.py, sim/refsdp.py) states the "
          "inflation problem", "HiGHS and the dense interior-point solver of "
          "sim/ipm.py are correct to the tolerances used",
          "scenarios of at most 4 parties, 16 templates, 24 columns"]
STATES = "scenario, program, settings, mode, verdict, value to 3 digits"


class Mix(progs.Models):
    """Distributions that are mixtures of realisable ones (and so, in a
    network, usually not realisable themselves)."""

    def __init__(self, sc, specs, mixes):
        super().__init__(sc, specs)
        self.mixes = mixes

    def P(self, i):
        mx = self.mixes[i % len(self.mixes)]
        return sum(w * super(Mix, self).P(k) for k, w in mx)

    def value(self, i, mon):
        mx = self.mixes[i % len(self.mixes)]
        try:
            return sum(w * super(Mix, self).value(k, mon) for k, w in mx)
        except ValueError:         # boxes say nothing about such a product
            return .1


def gen_mix(rng):
    k = rng.choice([1, 2, 2, 3])
    w = [rng.choice([1, 1, 2, 3, .002]) for _ in range(k)]
    return [[j, x / sum(w)] for j, x in zip(rng.sample(range(3), k), w)]


def gen(rng, tier):
    ptype = "lp" if rng.random() < .55 else "sdp"
    while True:
        name, col = scen.draw(rng, ptype, p=.6)
        if ptype == "sdp" and rng.random() < .1:
            name, col = "mono_l2", "npa2"
        sc = scen.get(name)
        if ptype == "sdp":
            if rng.random() < .25:
                n = len(scen.parties(sc))
                col = [[]] + [[p] for p in range(n)
                              if rng.random() < .85]
                for _ in range(rng.randint(0, 2)):
                    b = sorted(rng.randrange(n)
                               for _ in range(rng.randint(1, 3)))
                    if b not in col:
                        col.append(b)
                if len(col) < 2:
                    continue
            elif rng.random() < .25:
                plain = not (sc["cil"] or sc["nil"] or any(
                    k in scen.parties(sc) for k in sc["dag"]))
                col = {"base": rng.choice(["npa2", "npa2", "local1",
                                           "physical2"]),
                       "pick": rng.randrange(1 << 20),
                       "n": rng.randint(2, 14),
                       "open": int(rng.random() < .4),
                       "form": rng.choice(["2d", "sym"]) if plain else "2d"}
            try:
                refsdp.SDPRef(sc, col)
            except ref.TooLarge:
                continue
        break
    opts = {}
    supp = ptype == "lp" and rng.random() < .08
    if supp:
        opts["supports_problem"] = True
    elif ptype == "lp":
        if rng.random() < .15:
            opts["include_all_outcomes"] = True
        if rng.random() < .15:
            opts["default_non_negative"] = False
    st = styles_for(sc, "lp")
    models = [pick(rng, sc, "lp") for _ in range(3)]
    if rng.random() < .4:
        for m in models:
            m["style"] = rng.choice([s for s in st if s in (
                "det", "ns", "chsh", "hidden")])
    if supp:
        for m in models:
            m["style"] = rng.choice([s for s in st if s in (
                "det", "hidden", "ns")])
    mixes = [gen_mix(rng), gen_mix(rng)]
    hist = []
    for _ in range(rng.choice([0, 0, 0, 1, 3])):
        hist.append(rng.choice([
            {"op": "dist", "m": 1, "v": .9},
            progs.gen_obj(rng),
            progs.gen_values(rng, 1) | {"m": 1},
            progs.gen_solve(rng, ptype)]))
    if supp:
        hist = []
    ops = []
    r = rng.random()
    if supp or r < .5:
        op = {"op": "dist", "m": 0, "v": 1.0 if ptype == "lp" else
              rng.choice([1.0, .95, .8])}
        if rng.random() < .5 and ptype == "lp" and not supp:
            op["v"] = rng.choice([.95, .9, .8, .6])
        q = rng.random()
        if not supp:
            if q < .3:
                op["lpi"] = 1
            elif q < .45:
                op["sr"] = 1
        ops.append(op)
    elif r < .8:
        only = int(rng.random() < .5)
        n = rng.choice([1, 1, 2, 4, 8])
        twist = name == "mono_l2" and rng.random() < .6
        cls = rng.choice(["any", "atom", "unk", "kall"] if only else
                         ["kn", "kn", "atom"])
        if ptype == "sdp":
            cls = rng.choice(["kn", "kall"] if only else
                             ["kn", "kn", "atom"])
        if twist:                      # products that are not self-adjoint
            only, cls, n = 0, "atom", rng.choice([8, 12, 16])
        ops.append({"op": "values", "m": 0, "only": only,
                    "refs": [progs.gen_ref(rng, cls) for _ in range(n)],
                    "shift": rng.choice([0, 0, 0, .02]),
                    "key": rng.choice(["name", "obj", "sym"])})
        if not only and rng.random() < .4:
            ops[-1]["lpi"] = 1
        elif rng.random() < .3:
            # new values, also for moments that products depend on already
            old = ops[-1]["refs"]
            ops.append(dict(ops[-1], op="update", m=rng.randrange(2), refs=[
                rng.choice([rng.choice(old), progs.gen_ref(rng, cls)])
                for _ in range(rng.choice([1, 2, 2]))]))
    if not supp:
        for _ in range(rng.choice([0, 0, 1, 2])):
            c = rng.choice("bei")
            if c == "b":
                lo = rng.random() < .5
                ops.append({"op": "bounds", "type": "lo" if lo else "up",
                            "m": 0, "terms": [
                                [progs.gen_ref(rng), rng.choice(
                                    [.05, .1, .2, 0] if lo else
                                    [.1, .2, .3, .5, 1])]
                                for _ in range(rng.choice([1, 1, 2]))],
                            "key": rng.choice(["name", "obj", "sym"])})
            else:
                ops.append(progs.gen_cons(
                    rng, 1, "eqs" if c == "e" else "ineqs") | {"m": 0})
    solves = []
    for _ in range(1 if supp else rng.randint(2, 5)):
        o = None if supp or rng.random() < .3 else progs.gen_obj(rng)
        if o and not o["terms"]:
            o = None
        solves.append({"obj": o, "dual": int(rng.random() < .6),
                       "mode": "fao" if ptype == "sdp" and not o
                       and rng.random() < .75 else "plain",
                       "alt": rng.choice([None, rng.randrange(1 << 20)])})
    return {"sc": name, "ptype": ptype, "col": col, "opts": opts,
            "models": models, "mixes": mixes, "hist": hist, "ops": ops,
            "solves": solves, "supp": int(supp)}


class Side:
    """The reference's view of a program: translation of names."""

    def __init__(self, spec, u, ctx):
        sc = u.sc
        self.u, self.lp = u, spec["ptype"] == "lp"
        self.R = ref.LPRef(sc) if self.lp else refsdp.SDPRef(sc, u.col)
        self.names = {}
        seen = {}
        for m in u.moments:
            if m.is_one:
                k = ()
            elif m.is_zero:
                continue
            else:
                k = self.R.of_program(m)
                ok = (k in self.R.event) if self.lp else k is not None
                ctx.require(ok, "not a moment of the problem",
                            f"{m.name} in {scen.label(spec['sc'])}")
            ctx.require(k not in seen, "one moment under two names",
                        f"{m.name} and {seen.get(k)}")
            seen[k] = m.name
            self.names[m.name] = k
        self.names["1"] = self.names["constant_term"] = ()
        if not self.lp:
            missing = [k for k in self.R.keys if k not in seen]
            ctx.require(not missing, "moments missing",
                        f"{len(missing)} of {len(self.R.keys)}")
            self.nonneg = [self.names[m.name]
                           for m in u.prog.moment_lowerbounds
                           if not (m.is_one or m.is_zero)]

    def lin(self, d):
        out = {}
        for n, c in d.items():
            k = self.names[n]
            out[k] = out.get(k, 0) + c
        return out


def settings(u, S, M, ops):
    """(eqs, ineqs) of the reference for the settings in force."""
    given, eqs, ineqs = {}, [], []
    known = []
    lo, up, cons = {}, {}, {"eqs": [], "ineqs": []}
    for op in ops:
        if op["op"] == "dist":
            given = S.R.from_distribution(M.dist(0, op["v"]))
            if S.lp:
                # the program has a moment for all outcomes but the last of
                # each setting: it is these it is given
                mine = {(a,) for k in S.names.values() for a in k}
                given = {k: v for k, v in given.items() if k in mine}
            known = S.R.known(given, not op.get("sr"), bool(op.get("lpi")))
        elif op["op"] in ("values", "update"):
            d = progs.value_items(u, M, {**op, "key": "name"})
            if op["op"] == "values":
                given = {}
            given = {**given, **{S.names[n]: v for n, v in d.items()}}
            if not S.lp:
                given = {k: v for k, v in given.items()}
            known = S.R.known(given, not op.get("only"),
                              bool(op.get("lpi")))
        elif op["op"] == "bounds":
            b = {S.names[n]: x for n, x in bound_terms(u, op).items()}
            if op["type"] == "lo":
                lo = b
            else:
                up = b
        else:
            cons[op["op"]] = [S.lin(d) for d in progs.cons_items(
                u, M, {**op, "key": "name", "split": 0})] \
                if op["list"] else []
    eqs = known + [(d, 0.0) for d in cons["eqs"]]
    ineqs = [(d, 0.0) for d in cons["ineqs"]]
    ineqs += [({k: 1.0}, x) for k, x in lo.items()]
    ineqs += [({k: -1.0}, -x) for k, x in up.items()]
    return eqs, ineqs, given


def bound_terms(u, op):
    d = {}
    for r, x in op["terms"]:
        d[u.mon(r).name] = x
    return d


def apply(u, M, op, ctx):
    if op["op"] == "bounds":
        d = {u.key(u.mon(r), op["key"]): x for r, x in op["terms"]}
        ctx.call("set_bounds", u.prog.set_bounds, d, op["type"])
    else:
        progs.apply(u, M, op, ctx)


def run(spec, ctx):
    sc = scen.get(spec["sc"])
    M = Mix(sc, spec["models"], spec["mixes"])
    NODE.reset(Policy())
    u = progs.Unit(sc, spec["ptype"], spec["col"], spec["opts"], ctx=ctx)
    S = Side(spec, u, ctx)
    lp = S.lp
    if not lp:
        ctx.require(u.prog.n_columns == len(S.R.columns), "generating set",
                    f"{u.prog.n_columns} columns, expected "
                    f"{len(S.R.columns)} for {spec['col']}")
    for op in spec["hist"]:
        if op["op"] == "solve":
            ctx.call("solve", u.solve, bool(op["dual"]), op["mode"])
        else:
            progs.apply(u, M, op, ctx)
    if spec["hist"]:
        ctx.call("reset", u.prog.reset, "all")
    used = []
    for op in spec["ops"]:
        if not lp and op["op"] in ("bounds", "values", "dist", "update"):
            # a value on the wrong side of a bound is refused: not a solve
            if any(o["op"] == "bounds" for o in used) and \
                    op["op"] != "bounds":
                continue
            if op["op"] == "bounds":
                kn = progs.known_of(u)
                if any(n in kn for n in bound_terms(u, op)):
                    continue
            elif op["op"] != "dist" and any(
                    v < 1e-9 for v in progs.value_items(
                        u, M, {**op, "key": "name"}).values()):
                continue
            elif op["op"] == "dist" and np.min(
                    M.dist(0, op["v"])) < -1e-12:
                continue
        apply(u, M, op, ctx)
        used.append(op)
        ctx.ev(op["op"])
    if spec["supp"]:
        return supports(spec, ctx, u, S, M)
    eqs, ineqs, given = settings(u, S, M, used)
    tag = f"{scen.label(spec['sc'])} {spec['ptype']} {spec['col'] or ''}"
    lam = None
    for op in spec["solves"]:
        pol = NODE.reset(Policy())
        if op["alt"] is not None and lp:
            pol.alt = progs.rnd(op["alt"])
            ctx.fault("alternative optimum")
        obj, sense = None, "max"
        if op["obj"]:
            progs.apply(u, M, op["obj"], ctx)
            o = progs.obj_items(u, {**op["obj"], "key": "name", "split": 0})
            obj, sense = S.lin(o), op["obj"]["dir"]
        else:
            ctx.call("set_objective(None)", u.prog.set_objective, None)
        v, val = ctx.call("solve", u.solve, bool(op["dual"]), op["mode"])
        ctx.solves += 1
        what = (f"{tag} {op['mode']} {'dual' if op['dual'] else 'primal'}"
                f"{' ' + sense if obj else ''}")
        if v == "none":
            ctx.probe("no verdict")
            continue
        if lp:
            w, wal = S.R.solve(eqs, ineqs, obj, sense)
        else:
            w, wal = S.R.solve(eqs, ineqs, obj, sense,
                               fao=op["mode"] == "fao", nonneg=S.nonneg)
        ctx.ev("solve", op["mode"], v, w)
        ctx.state(scen.label(spec["sc"]), spec["ptype"], spec["col"],
                  [o["op"] for o in used], op["mode"], v,
                  None if val is None else round(val, 3))
        if w in ("unknown", "unbounded") or v == "unbounded" and w == \
                "infeasible":
            ctx.probe("reference undecided")
            continue
        if v != w:
            if lp:
                mar = S.R.margin_of(eqs, ineqs)
                if mar is None or mar < 1e-6 and (
                        w == "infeasible" or mar > 1e-9):
                    ctx.probe("borderline")
                    continue
            elif op["mode"] == "plain":
                if lam is None:
                    lam = S.R.solve(eqs, ineqs, fao=True, nonneg=S.nonneg)
                if lam[0] == "unknown" or lam[1] is not None and \
                        abs(lam[1]) < 1e-4:
                    ctx.probe("borderline")
                    continue
            elif linear_slack(S, eqs, ineqs):
                ctx.probe("borderline")
                continue
        ctx.require(v == w, "verdict differs from the reference",
                    f"{what}: program {v} {val}, reference {w} {wal}")
        ctx.probe("decided")
        ctx.probe(f"decided: {spec['ptype']} {w}")
        if w != "feasible" or (op["mode"] == "plain" and not obj):
            continue
        sc_ = 1 + sum(abs(c) for c in (obj or {}).values())
        tol = (2e-6 if lp else 2e-5 if op["mode"] == "fao" else 3e-4) * sc_
        if not lp and op["mode"] == "plain" and abs(val - wal) > tol:
            if lam is None:
                lam = S.R.solve(eqs, ineqs, fao=True, nonneg=S.nonneg)
            if lam[1] is None or lam[1] < 1e-4:
                ctx.probe("borderline value")
                continue
        ctx.require(abs(val - wal) <= tol,
                    "value differs from the reference",
                    f"{what}: program {val:.8g}, reference {wal:.8g}")
        ctx.probe("value compared")


def linear_slack(S, eqs, ineqs):
    """Are the linear constraints alone on the edge of infeasibility?"""
    ineqs = list(ineqs) + [({k: 1.0}, 0.0) for k in S.nonneg]
    loose = [(l, r - 1e-4) for l, r in ineqs]
    tight = [(l, r + 1e-4) for l, r in ineqs]
    a = S.R.solve(eqs, loose, fao=True, nonneg=())[0]
    b = S.R.solve(eqs, tight, fao=True, nonneg=())[0]
    return a != b or "unknown" in (a, b)


def supports(spec, ctx, u, S, M):
    P = M.dist(0, 1.0)
    vals = [v for v in S.R.from_distribution(P).values()]
    if any(0 < v < 2e-3 for v in vals):
        raise Inconclusive("support with tiny probabilities")
    for op in spec["solves"]:
        NODE.reset(Policy())
        v, _ = ctx.call("solve", u.solve, bool(op["dual"]), "plain")
        ctx.solves += 1
        w = S.R.support(P)
        ctx.ev("supports", v, w)
        if v == "none" or w == "unknown":
            ctx.probe("no verdict")
            continue
        ctx.probe("decided")
        ctx.probe(f"decided: supports {w}")
        ctx.require(v == w, "support verdict differs from the reference",
                    f"{scen.label(spec['sc'])}: program {v}, reference {w}")


def nontrivial(spec, rec):
    return rec["probes"].get("decided", 0)


def simpler(spec):
    if spec["hist"]:
        yield dict(spec, hist=[])
    if len(spec["solves"]) > 1:
        for s in spec["solves"]:
            yield dict(spec, solves=[s])
    if spec["opts"]:
        yield dict(spec, opts={})
    for i, op in enumerate(spec["ops"]):
        for f in ("terms", "refs", "list"):
            if op.get(f) and len(op[f]) > 1:
                for j in range(len(op[f])):
                    o = dict(op)
                    o[f] = op[f][:j] + op[f][j + 1:]
                    yield dict(spec, ops=spec["ops"][:i] + [o]
                               + spec["ops"][i + 1:])
