"""C14: an interrupted operation leaves the program usable and correct.

Two programs are driven through the same seeded settings: one undisturbed, one
whose operations (construction, building, setting, solving, querying,
exporting) are interrupted - by the user or by memory exhaustion - at seeded
executed lines, or inside the solver.  The disturbed one then repeats the
operation, or resets and re-applies its settings, or is built anew from the
same scenario object.  From there on both must agree on everything.
"""
import hashlib
import os

from . import files, interrupt, progs, scen
from .core import Inconclusive
from .lab import pick
from .mosek_node import NODE, Policy
from .w_c05 import compare_known, solve_pair
from .w_c09 import scenario

PROP = "C14"
RUNS = {"quick": 340, "thorough": 7000}
RULE = ("one run = two programs, 3-9 operations, 1-4 interruptions at seeded "
        "lines; non-trivial when at least one interruption struck")
ASSUME = ["exceptions strike between lines of the code under test (and "
          "inside the solver), not within compiled helpers",
          "nothing is asked of the program between the interruption and the "
          "repetition or reset"]
STATES = "function of the code under test in which an interruption struck"
SDPS = [(n, c) for n, c in scen.SDP if n not in ("bil22", "tri222",
                                                 "tri221_o3")]
FMT = {"lp": ["lp", "mps"], "sdp": ["dat-s", "csv", "mat"]}
EXC = {"user": KeyboardInterrupt, "memory": MemoryError}


def strike(rng):
    return {"at": round(rng.random() ** rng.choice([1, 1, 3, 6]), 6),
            "exc": rng.choice(sorted(EXC)),
            "then": rng.choice(["retry", "retry", "again", "reset",
                                "rebuild"])}


def gen(rng, tier):
    ptype = "lp" if rng.random() < .5 else "sdp"
    name, col = scen.draw(rng, ptype, None if ptype == "lp" else SDPS)
    sc = scen.get(name)
    opts = {}
    if ptype == "lp" and rng.random() < .15:
        opts["include_all_outcomes"] = True
    models = [pick(rng, sc, ptype) for _ in range(2)]
    ops = []
    for _ in range(rng.randint(2, 7)):
        r = rng.random()
        if r < .22:
            op = progs.gen_dist(rng, ptype, 2)
        elif r < .32:
            op = progs.gen_values(rng, 2)
        elif r < .40:
            op = progs.gen_values(rng, 2, "update")
        elif r < .50:
            op = progs.gen_obj(rng)
        elif r < .59:
            op = progs.gen_bounds(rng, 2)
        elif r < .67:
            op = progs.gen_cons(rng, 2)
        elif r < .72:
            op = progs.gen_reset(rng)
        elif r < .76 and ptype == "sdp":
            op = {"op": "regen", "col": rng.choice(scen.columns(name, SDPS))}
        elif r < .84:
            op = {"op": "query", "what": rng.choice(progs.QUERIES),
                  "ref": progs.gen_ref(rng)}
        elif r < .91:
            op = {"op": "export", "fmt": rng.choice(FMT[ptype])}
        else:
            op = progs.gen_solve(rng, ptype)
            if rng.random() < .4:
                op["fault"] = rng.choice(["interrupt", "memory", "crash",
                                          "license", "space"])
        ops.append(op)
    cols = scen.columns(name, SDPS) if ptype == "sdp" else []
    if cols and rng.random() < .3:
        # other columns, interrupted
        ops.insert(rng.randint(0, len(ops)), {
            "op": "regen", "col": rng.choice([c for c in cols if c != col]
                                             or cols), "strike": strike(rng)})
    ops.append(progs.gen_solve(rng, ptype))
    ops.insert(0, {"op": "build"})
    for op in rng.sample(ops, rng.randint(1, 3)):
        if not op.get("fault"):
            op["strike"] = strike(rng)
    if rng.random() < .15:
        ops[0]["problem"] = strike(rng)
    probes = [progs.gen_solve(rng, ptype)]
    o = progs.gen_obj(rng)
    if o["terms"]:
        probes.append({"op": "probe", "obj": o, "dual": int(rng.random()
                                                            < .5)})
    return {"sc": name, "ptype": ptype, "col": col, "opts": opts,
            "models": models, "ops": ops, "probes": probes,
            "other": int(rng.random() < .4)}


class Pair:
    def __init__(self, spec, ctx):
        self.spec, self.ctx = spec, ctx
        self.sc = scen.get(spec["sc"])
        self.M = progs.Models(self.sc, spec["models"])
        self.s = progs.blank()
        self.u = self.r = None           # disturbed, undisturbed
        self.struck = 0

    # -- one operation on one of the two ------------------------------------
    def do(self, u, op, tag):
        k = op["op"]
        if k == "query":
            return progs.query(u, op)
        if k == "export":
            path = f"out.{op['fmt']}"
            home = os.getcwd()
            os.makedirs(tag, exist_ok=True)
            os.chdir(tag)
            try:
                u.prog.write_to_file(path)
            except Exception as e:                   # noqa: BLE001
                if isinstance(e, MemoryError):
                    raise
                return type(e).__name__
            finally:
                os.chdir(home)
            path = os.path.join(tag, path)
            with open(path, "rb") as f:
                return hashlib.sha1(clean(f.read(), op["fmt"])).hexdigest()
        if k == "solve":
            NODE.reset(Policy())
            return list(u.solve(bool(op["dual"]), op["mode"]))
        progs.apply(u, self.M, op)
        return None

    def known(self, u):
        return {k: round(v, 9) + 0.0 for k, v in progs.known_of(u).items()}

    # -- interruption and recovery ------------------------------------------
    def interrupted(self, st, n, fn):
        """Strike fn; True when it was interrupted (and not completed)."""
        at = 1 + int(st["at"] * n)
        hit, where, got = interrupt.strike(fn, at, EXC[st["exc"]]())
        if not hit:
            if got is not None:
                raise got
            return False
        self.struck += 1
        self.ctx.fault("interrupt by " + st["exc"])
        self.ctx.ev("struck", list(where), st["exc"],
                    type(got).__name__ if got is not None else None)
        self.ctx.state(where)
        self.where = where
        if got is None:
            self.ctx.probe("interruption swallowed")
            return False
        return True

    def build(self, op):
        ctx, spec = self.ctx, self.spec

        def make(problem):
            return progs.Unit(self.sc, spec["ptype"], spec["col"],
                              spec["opts"], problem=problem)
        n0, pr = interrupt.count(lambda: scen.problem(self.sc))
        if op.get("problem"):
            self.interrupted(op["problem"], n0,
                             lambda: scen.problem(self.sc))
        self.problem = scen.problem(self.sc)
        n, self.r = interrupt.count(lambda: make(pr))
        if not progs.columns_ok(self.r):
            raise Inconclusive("too large")
        before = scenario(self.problem)
        st = op.get("strike")
        if st:
            self.interrupted(st, n, lambda: make(self.problem))
            self.same_scenario(before)
            if spec["ptype"] == "sdp" and st["then"] in ("retry", "again"):
                # the same program object generates its relaxation again
                u = progs.Unit(self.sc, "sdp", None, spec["opts"],
                               problem=self.problem)
                m, _ = interrupt.count(
                    lambda: progs.Unit(self.sc, "sdp", None, spec["opts"],
                                       problem=pr).prog.generate_relaxation(
                                           spec["col"]))
                self.interrupted(
                    st, m, lambda: u.prog.generate_relaxation(spec["col"]))
                ctx.call("generate_relaxation after an interruption",
                         u.prog.generate_relaxation, spec["col"])
                u.col = spec["col"]
                self.u = u
                return
        self.u = ctx.call("build", make, self.problem)
        self.same_scenario(before)

    def same_scenario(self, before):
        now = scenario(self.problem)
        for k, v in before.items():
            self.ctx.require(now.get(k) == v, "scenario modified",
                             f"an interrupted operation altered {k} of the "
                             "scenario object")

    def recover(self, op, st):
        """Bring the disturbed program to where the other one is; returns
        what the operation returned."""
        ctx, u, s = self.ctx, self.u, self.s
        k = op["op"]
        label = f"{k} after an interruption in {self.where[1]}"
        if st["then"] == "reset" and k not in ("query",):
            ctx.probe("recovered by reset")
            if k == "regen":
                ctx.call(label, self.do, u, op, "u")
                u._classes = None
                return None
            ctx.call("reset", u.prog.reset, "all")
            ctx.call("reset", u.prog.set_extra_equalities, None)
            ctx.call("reset", u.prog.set_extra_inequalities, None)
            for o in progs.replay_ops(s):
                progs.apply(u, self.M, o, ctx)
            return ctx.call(label, self.do, u, op, "u")
        if st["then"] == "rebuild":
            ctx.probe("recovered by a new program")
            c = s["col"] or self.spec["col"]
            self.u = u = ctx.call("build", progs.Unit, self.sc,
                                  self.spec["ptype"], c, self.spec["opts"],
                                  self.problem)
            for o in progs.replay_ops(s):
                progs.apply(u, self.M, o, ctx)
            return ctx.call(label, self.do, u, op, "u")
        if st["then"] == "again":
            # and the repetition is interrupted, too
            self.interrupted(dict(st, at=(st["at"] * 7.3) % 1.0), self.n,
                             lambda: self.do(u, op, "u"))
        ctx.probe("recovered by repetition")
        u._classes = None
        return ctx.call(label, self.do, u, op, "u")

    def step(self, op):
        ctx = self.ctx
        k = op["op"]
        t = self.s if k in ("query", "export", "solve") else \
            progs.settle(self.s, op, self.u.ptype)
        if self.u.ptype == "sdp" and (t["up"] or t["lo"]) and t["vals"] and \
                k in ("dist", "values", "update", "bounds"):
            shadow = progs.Unit(self.sc, "sdp", self.u.col, self.u.opts)
            if progs.contradicts(self.u, self.M, self.s, op, shadow):
                ctx.ev("skip", k)
                return
        st = op.get("strike")
        if not st:
            if op.get("fault"):
                pol = NODE.reset(Policy())
                pol.plan = {0: {"kind": op["fault"], "seed": 1}}
                ctx.fault("solver " + op["fault"])
                self.struck += 1
                try:
                    self.u.solve(bool(op["dual"]), op["mode"])
                except BaseException as e:           # noqa: BLE001
                    ctx.ev("solve", op["fault"], type(e).__name__)
                NODE.reset(Policy())
            a = ctx.call(k, self.do, self.u, op, "u")
            b = self.do(self.r, op, "r")
        else:
            self.n, b = interrupt.count(lambda: self.do(self.r, op, "r"))
            box = []
            if self.interrupted(st, self.n, lambda: box.append(
                    self.do(self.u, op, "u"))):
                a = self.recover(op, st)
            else:
                a = box[0] if box else None
        if k == "regen":
            for w in (self.u, self.r):
                w._classes = None
        ctx.ev(k, a)
        self.s = t
        if k == "solve":
            self.compare_results(op, a, b)
        elif k == "export":
            if a != b:
                self.compare_files(op["fmt"], a, b)
            else:
                ctx.probe("same file")
        if self.struck:
            compare_known(ctx, self.u, self.r)

    def compare_files(self, fmt, a, b):
        """Files that differ in their letters must mean the same."""
        ctx = self.ctx
        what = f"export .{fmt} with interruptions versus without"
        ctx.require(len(a) == len(b) == 40, "export", f"{what}: {a}, {b}")
        A, B = f"u/out.{fmt}", f"r/out.{fmt}"
        if self.u.ptype == "lp":
            x, y = files.solve_lp(A), files.solve_lp(B)
            if "none" in (x[0], y[0]):
                return
            ctx.require(x[0] == y[0] and x[2] == y[2] and (
                x[1] is None or abs(x[1] - y[1]) <= 1e-5 * (1 + abs(y[1]))),
                "export", f"{what}: {x}, {y}")
            return
        from . import w_c11
        P, Q = (w_c11.read(w, w, f, fmt) for w, f in ((self.u, A),
                                                      (self.r, B)))
        x, y = P.solve(True), Q.solve(True)
        if "unknown" in (x[0], y[0]):
            return
        ctx.require(x[0] == y[0] and (x[1] is None or abs(x[1] - y[1]) <=
                                      1e-4 * (1 + abs(y[1]))),
                    "export", f"{what}: margin {x}, {y}")
        if x[1] is None or x[1] < 1e-4:
            return
        x, y = P.solve(), Q.solve()
        if "unknown" in (x[0], y[0]) or x[0] != y[0] or x[1] is None:
            return
        ctx.require(abs(x[1] - y[1]) <= 1e-3 * (1 + abs(y[1])), "export",
                    f"{what}: optimum {x}, {y}")

    def compare_results(self, op, a, b):
        ctx = self.ctx
        if "none" in (a[0], b[0]):
            return
        lp = self.u.ptype == "lp"
        if a[0] != b[0] and not lp:
            ctx.probe("borderline_probe")
            return
        ctx.require(a[0] == b[0] and (a[1] is None or abs(a[1] - b[1]) <= (
            1e-5 if lp else 5e-4) * (1 + abs(b[1]))), "result",
            f"{scen.label(self.spec['sc'])} {self.u.ptype} {op['mode']}: {a} "
            f"with interruptions, {b} without")


def clean(data, fmt):
    if fmt == "mat":                     # header carries the date
        return data[128:]
    return data


def run(spec, ctx):
    NODE.reset(Policy())
    P = Pair(spec, ctx)
    for op in spec["ops"]:
        if op["op"] == "build":
            P.build(op)
            ctx.ev("build", len(P.u.moments), len(P.r.moments))
            ctx.require({m.name for m in P.u.moments} ==
                        {m.name for m in P.r.moments}, "moments",
                        "different moments after an interrupted build")
        else:
            P.step(op)
    if not P.struck:
        return
    ctx.probe("disturbed")
    u, r, s = P.u, P.r, P.s
    compare_known(ctx, u, r)
    probes(spec, ctx, P, u, r)
    if spec["other"]:
        # another program from the same scenario object
        c = s["col"] or spec["col"]
        a = ctx.call("build", progs.Unit, P.sc, spec["ptype"], c,
                     spec["opts"], P.problem)
        b = progs.Unit(P.sc, spec["ptype"], c, spec["opts"])
        for o in progs.replay_ops(s):
            progs.apply(a, P.M, o, ctx)
            progs.apply(b, P.M, o)
        compare_known(ctx, a, b)
        probes(spec, ctx, P, a, b)
        ctx.probe("other program compared")


def probes(spec, ctx, P, u, r):
    for q in spec["probes"]:
        if q["op"] == "probe":
            for w in (u, r):
                progs.apply(w, P.M, q["obj"], ctx)
            solve_pair(ctx, u, r, dict(q, mode="plain"), "objective probe")
        else:
            solve_pair(ctx, u, r, q, "probe")


def nontrivial(spec, rec):
    return rec["probes"].get("disturbed", 0)


def simpler(spec):
    ops = spec["ops"]
    if spec["other"]:
        yield dict(spec, other=0)
    for i in range(len(ops) - 1, 0, -1):
        yield dict(spec, ops=ops[:i] + ops[i + 1:])
    for i, op in enumerate(ops):
        for f in ("strike", "fault", "problem"):
            if op.get(f):
                yield dict(spec, ops=ops[:i] + [
                    {k: v for k, v in op.items() if k != f}] + ops[i + 1:])
        st = op.get("strike")
        if st and st["then"] != "retry":
            yield dict(spec, ops=ops[:i] + [dict(op, strike=dict(
                st, then="retry"))] + ops[i + 1:])
    for i in range(len(spec["probes"])):
        yield dict(spec, probes=spec["probes"][:i] + spec["probes"][i + 1:])
