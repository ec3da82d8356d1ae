"""C09: programs and their inputs do not interfere with each other.

Two or three programs (LP and SDP mixed) are built from one scenario object
and driven through seeded scripts, either interleaved operation by operation
or on real threads interleaved line by line under a deterministic scheduler.
Each must report exactly what it reports when it runs alone, from a scenario
object of its own, in a process of its own.  Around every call the caller's
arrays, dictionaries, lists and the scenario object are digested; after a call
the caller may overwrite what it handed in.
"""
import copy
import os

import numpy as np
import sympy

from . import core, direct, lab, progs, scen
from .core import Inconclusive, Violation
from .mosek_node import NODE, Policy
from .threads import Scheduler

PROP = "C09"
RUNS = {"quick": 420, "thorough": 9000}
RULE = ("one run = 2-3 programs on one scenario object in one interleaving "
        "(or direct calls of the solver interfaces); non-trivial when results "
        "of interleaved and solitary executions were compared, or inputs of "
        "a direct call were digested")
ASSUME = ["threads switch between executed source lines of the code under "
          "test; library and native calls are atomic",
          "tolerances 1e-7 (LP) and 1e-5 (SDP): the executions are the same "
          "computation"]
STATES = "distinct (scenario, interleaving, results) triples"
LIMIT = 300


# ---------------------------------------------------------------- digests ---
def dg(x, depth=0):
    """What a value is, deeply, as something comparable."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("obj", x.shape, [dg(v, depth + 1) for v in x.flat])
        return ("arr", x.shape, str(x.dtype), x.tobytes())
    if hasattr(x, "tocoo") and hasattr(x, "nnz"):      # as a matrix
        return ("sparse", x.shape, np.asarray(x.todense()).tobytes())
    if isinstance(x, dict):
        return ("dict", [(dg(k, depth + 1), dg(v, depth + 1))
                         for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [dg(v, depth + 1) for v in x])
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(str(dg(v, depth + 1)) for v in x))
    if isinstance(x, (str, int, float, bool, type(None), np.generic,
                      sympy.Basic)):
        return repr(x)
    if hasattr(x, "name"):
        return str(x.name)
    return type(x).__name__


def scenario(p):
    """What a scenario object says, attributes computed on demand aside."""
    return {k: dg(v) for k, v in sorted(vars(p).items())}


class Watch:
    """Guards every call: inputs and the scenario object stay as they were.
    Afterwards the caller overwrites its own data (if `scribble`)."""

    def __init__(self, problem, scribble=False, on=True):
        self.problem, self.scribble, self.on = problem, scribble, on
        self.checked = 0
        self.base = scenario(problem) if problem is not None else {}

    def call(self, label, fn, *a, **k):
        if not self.on:
            return fn(*a, **k)
        mine = [x for x in a if isinstance(x, (np.ndarray, dict, list, set))]
        mine += [v for v in k.values()
                 if isinstance(v, (np.ndarray, dict, list, set))
                 or hasattr(v, "tocoo")]
        before = dg(mine)
        try:
            return fn(*a, **k)
        finally:
            self.checked += 1
            if dg(mine) != before:
                raise Violation("input modified", f"{label} altered what the "
                                f"caller handed in: {show(before)} -> "
                                f"{show(dg(mine))}")
            self.same(label)
            if self.scribble:
                for x in mine:
                    scribble(x)

    def same(self, label):
        if self.problem is None:
            return
        now = scenario(self.problem)
        for k, v in self.base.items():
            if now.get(k) != v:
                raise Violation("scenario modified", f"{label} altered "
                                f"{k} of the scenario object")
        self.base = now


def show(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


def scribble(x):
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype != object:
            x[...] = 0
    elif isinstance(x, list):
        for y in x:
            scribble(y)
        x.clear()
    elif isinstance(x, (dict, set)):
        x.clear()


# ------------------------------------------------------------------- gen ----
def gen(rng, tier):
    r = rng.random()
    if r < .12:
        return {"sc": "direct", "kind": "direct",
                "ops": [[rng.choice(["lp", "sdp"]), None, rng.random() < .5]
                        for _ in range(6)], "seed": rng.randrange(1 << 30)}
    thread = r < .5
    while True:
        name, col = scen.draw(rng, "sdp", [
            (n, c) for n, c in scen.SDP if n not in
            ("bil22", "tri222", "tri221_o3", "tri221")], p=.4)
        if not (thread and isinstance(name, str) and
                name in ("gl3", "bell_l2", "instr3")):
            break
    sc = scen.get(name)
    models = [lab.pick(rng, sc, "sdp") for _ in range(2)]
    for m in models:
        m["eta"] = .1
    progs_, n = [], rng.choice([2, 2, 3])
    for k in range(n):
        ptype = rng.choice(["lp", "sdp"])
        opts = {}
        if ptype == "lp" and rng.random() < .25:
            opts["include_all_outcomes"] = True
        if rng.random() < .1:
            opts["supports_problem"] = True
        ops = []
        if ptype == "sdp":
            ops.append({"op": "gen", "how": rng.choice(["str", "str", "list",
                                                        "sym"])})
        for _ in range(rng.randint(1, 2 if thread else 5)):
            ops.append(gen_op(rng, ptype, opts))
        ops.append({"op": "solve", "dual": int(rng.random() < .6),
                    "mode": rng.choice(["plain", "plain", "fao"]),
                    "par": int(rng.random() < .3)})
        if rng.random() < .5:
            ops.append({"op": "cert"})
        progs_.append({"ptype": ptype, "opts": opts, "ops": ops,
                       "col": col if ptype == "sdp" else None})
    total = sum(len(p["ops"]) + 1 for p in progs_)
    spec = {"sc": name, "kind": "threads" if thread else "ops",
            "models": models, "progs": progs_,
            "scribble": int(rng.random() < .5)}
    if thread:
        spec["seed"] = rng.randrange(1 << 30)
        spec["quantum"] = rng.choice([8, 60, 400, 2500, 10000])
        spec["prebuilt"] = int(rng.random() < .3)
    else:
        order = [k for k, p in enumerate(progs_)
                 for _ in range(len(p["ops"]) + 1)]
        rng.shuffle(order)
        assert len(order) == total
        spec["sched"] = order
    return spec


def gen_op(rng, ptype, opts):
    r = rng.random()
    if opts.get("supports_problem"):
        return {"op": "dist", "m": rng.randrange(2), "v": 1.0}
    if r < .28:
        return progs.gen_dist(rng, ptype, 2)
    if r < .42:
        return progs.gen_values(rng, 2)
    if r < .5:
        return progs.gen_values(rng, 2, "update")
    if r < .65:
        return progs.gen_obj(rng)
    if r < .75:
        return progs.gen_bounds(rng, 1)
    if r < .88:
        return progs.gen_cons(rng, 1)
    if r < .91:
        return progs.gen_reset(rng)
    if r < .96:
        return {"op": "helpers", "ref": progs.gen_ref(rng),
                "int": int(rng.random() < .5)}
    if r < .985:
        return {"op": "poly", "m": rng.randrange(2),
                "terms": [[progs.gen_ref(rng, "kall"), 2.0],
                          [progs.gen_ref(rng, "kall"), -1.0]]}
    return {"op": "solve", "dual": 1, "mode": "plain"}


# ------------------------------------------------------------------- run ----
class Actor:
    """One program and its script; records what it observes."""

    def __init__(self, spec, k, problem, M, watch):
        self.spec, self.p = spec, spec["progs"][k]
        self.k, self.watch = k, watch
        self.M = copy.copy(M)              # values are computed once: each
        self.M._v = {}                     # actor computes its own
        self.problem = problem
        self.u = None
        self.at = 0
        self.rec = []

    def todo(self):
        return len(self.p["ops"]) + 1 - self.at

    def step(self):
        i, self.at = self.at, self.at + 1
        try:
            if i == 0:
                self.build()
            else:
                self.do(self.p["ops"][i - 1])
        except (Violation, Inconclusive):
            raise
        except Exception as e:                       # noqa: BLE001
            if core.from_harness(e):
                raise
            self.rec.append(["raised", type(e).__name__, str(e)[:80]])

    def all(self):
        while self.todo():
            self.step()
        return self.rec

    def build(self):
        sc = scen.get(self.spec["sc"])
        self.u = progs.Unit(sc, self.p["ptype"], None, self.p["opts"],
                            problem=self.problem, ctx=self.watch)
        if self.p["ptype"] == "lp":
            self.rec.append(["built", len(self.u.moments)])

    def do(self, op):
        u, w, k = self.u, self.watch, op["op"]
        if k == "gen":
            col = self.p["col"]
            if op["how"] != "str":
                # (what the program returns stays the program's: copies)
                col = [np.array(c) if isinstance(c, np.ndarray) else c
                       for c in u.prog.build_columns(
                           col, symbolic=op["how"] == "sym")]
            try:
                w.call("generate_relaxation", u.prog.generate_relaxation,
                       col)
            except Exception as e:                   # noqa: BLE001
                if isinstance(e, (Violation, Inconclusive)) or \
                        op["how"] == "str" or core.from_harness(e):
                    raise
                self.rec.append(["raised", type(e).__name__])
                u.prog.generate_relaxation(self.p["col"])
            u._classes = None
            if not progs.columns_ok(u):
                raise Inconclusive("too large")
            self.rec.append(["built", len(u.moments),
                             core.hashlib.sha1(repr(sorted(
                                 m.name for m in u.moments)).encode()
                             ).hexdigest()[:12]])
        elif k == "solve":
            extra = {}
            if op.get("par"):
                extra["solverparameters"] = {
                    "intpntTolPFeas" if u.ptype == "sdp" else
                    "MSK_IPAR_LOG": 1e-8 if u.ptype == "sdp" else 0}
            dual = bool(op["dual"])
            v = w.call("solve", u.solve, dual, op["mode"], **extra)
            self.rec.append(["solve", *v])
        elif k == "helpers":
            self.helpers(op)
        elif k == "cert":
            c = u.prog.certificate_as_dict()
            self.rec.append(["cert", len(c)])
        elif k == "poly":
            d = {}
            for r, c in op["terms"]:
                d[u.mon(r)] = c
            v = w.call("evaluate_polynomial", u.prog.evaluate_polynomial, d,
                       self.M.dist(op["m"]).copy())
            self.rec.append(["poly", float(v)])
        else:
            progs.apply(u, self.M, op, w)
            self.rec.append([k])
        kn = progs.known_of(u)
        self.rec.append(["known", len(kn), round(float(sum(kn.values())), 7)])


    def helpers(self, op):
        """Public helpers that take arrays and dictionaries."""
        u, w = self.u, self.watch
        p = self.problem
        m = u.mon(op["ref"])
        mon = np.vstack([np.array(f.as_2d_array) for f in m.factors])
        if op["int"]:
            mon = mon.astype(int)
        out = []
        for label, f in (("rectify_fake_setting", p.rectify_fake_setting),
                         ("factorize_monomial_2d", p.factorize_monomial_2d),
                         ("mon_to_lexrepr", u.prog.mon_to_lexrepr
                          if u.ptype == "sdp" else p.mon_to_lexrepr)):
            a = mon.copy()
            out.append(w.call(label, lambda x: int(sum(
                np.sum(y) for y in f(x))), a))
        d = {m.name: 1.5, "1": -0.5, u.mon([op["ref"][0],
                                            op["ref"][1] + 1]).name: 2.0}
        out.append(w.call("string_from_dict", u.prog.string_from_dict,
                          dict(d)))
        out.append(str(w.call("probs_from_dict", u.prog.probs_from_dict,
                              dict(d))))
        if m.is_knowable:
            P = self.M.dist(0).copy()
            out.append(float(w.call("compute_marginal", m.compute_marginal,
                                    P)))
        self.rec.append(["helpers", out])


def apart(fn):
    """Run fn in a process of its own; returns its JSON-able result."""
    import json
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            out = ["ok", fn()]
        except Inconclusive as e:
            out = ["inconclusive", str(e)]
        except Violation as e:
            out = ["violation", e.kind, e.msg]
        except BaseException as e:                   # noqa: BLE001
            import traceback
            out = ["error", "".join(traceback.format_exception(e))[-1500:]]
        with os.fdopen(w, "w") as f:
            f.write(json.dumps(out, default=core._plain))
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    out = json.loads(data)
    if out[0] == "inconclusive":
        raise Inconclusive(out[1])
    if out[0] == "violation":
        raise Violation(out[1], out[2])
    if out[0] == "error":
        raise RuntimeError(out[1])
    return out[1]


def make_problem(spec, watch=None):
    sc = scen.get(spec["sc"])
    from inflation import InflationProblem
    if watch is None:
        return scen.problem(sc)
    kw = {}
    real = InflationProblem

    def grab(**k):
        kw.update(k)
    import inflation
    inflation.InflationProblem = grab
    try:
        scen.problem(sc)
    finally:
        inflation.InflationProblem = real
    kw["order"] = kw.get("order") or list(scen.parties(sc))
    return watch.call("InflationProblem", real, **kw)


def run(spec, ctx):
    if spec["kind"] == "direct":
        return run_direct(spec, ctx)
    sc = scen.get(spec["sc"])
    M = progs.Models(sc, spec["models"])
    for i in range(2):                     # computed once, shared by copying
        M.P(i)
    n = len(spec["progs"])

    def alone(k):
        NODE.reset(Policy())
        return Actor(spec, k, make_problem(spec), M,
                     Watch(None, on=False)).all()
    want = [apart(lambda k=k: alone(k)) for k in range(n)]
    NODE.reset(Policy())
    problem = make_problem(spec, Watch(None, False))
    thread = spec["kind"] == "threads"
    watch = Watch(problem, bool(spec["scribble"]))
    acts = [Actor(spec, k, problem, M, watch) for k in range(n)]
    if thread:
        # digests of a scenario other threads are using mean nothing midway
        watch.problem = None
        if spec["prebuilt"]:
            for a in acts:
                a.step()
        before = scenario(problem)
        s = Scheduler(spec["seed"], spec["quantum"])
        res = s.run([a.all for a in acts])
        for a, r in zip(acts, res):
            if r[0] == "raised":
                raise r[1]
        now = scenario(problem)
        for k, v in before.items():
            ctx.require(now.get(k) == v, "scenario modified",
                        f"threads altered {k} of the scenario object")
        ctx.fault("thread switches", s.switches)
        ctx.ev("threads", s.switches, s.lines)
        ctx.probe("switched in " + (max(s.where, key=s.where.get)
                                    if s.where else "nothing"))
    else:
        for k in spec["sched"]:
            if k < len(acts) and acts[k].todo():
                acts[k].step()
        for a in acts:
            a.all()
        ctx.fault("operations interleaved", len(spec["sched"]))
    ctx.probe("calls watched", watch.checked)
    for a, w in zip(acts, want):
        ctx.ev("program", a.k, a.p["ptype"], a.rec)
        compare(ctx, spec, a, w)
    ctx.state(spec["sc"] if isinstance(spec["sc"], str) else "random",
              [a.rec for a in acts])


def compare(ctx, spec, a, want):
    tol = 1e-7 if a.p["ptype"] == "lp" else 1e-5
    lab_ = f"{scen.label(spec['sc'])}, program {a.k} ({a.p['ptype']})"
    ctx.require([r[0] for r in a.rec] == [r[0] for r in want],
                "different course", f"{lab_}: {a.rec[-3:]} together, "
                f"{want[-3:]} alone")
    for i, (x, y) in enumerate(zip(a.rec, want)):
        x = core._plain(x)
        y = core._plain(y)
        if x[0] == "solve" and "none" in (x[1], y[1]):
            continue
        if x[0] == "cert":
            continue
        same = len(x) == len(y) and all(
            abs(p - q) <= tol * (1 + abs(q))
            if isinstance(p, float) and isinstance(q, float) else p == q
            for p, q in zip(x, y))
        ctx.require(same, "not as if alone", f"{lab_}: step {i}: {x} "
                    f"together, {y} alone")
        if x[0] == "solve":
            ctx.probe("decided")


def run_direct(spec, ctx):
    r = progs.rnd(spec["seed"])
    w = Watch(None)

    def call(f, **k):
        return w.call(f.__name__, f, **k)
    for kind, _, dual in spec["ops"]:
        d = (direct.gen_lp if kind == "lp" else direct.gen_sdp)(r)
        NODE.reset(Policy())
        try:
            (direct.call_lp if kind == "lp" else direct.call_sdp)(
                d, dual, call)
        except (Violation, Inconclusive):
            raise
        except Exception as e:                       # noqa: BLE001
            if core.from_harness(e):
                raise
            ctx.ev("raised", type(e).__name__)
            continue
        ctx.ev("direct", kind, dual)
        ctx.probe("decided")
    ctx.probe("calls watched", w.checked)
