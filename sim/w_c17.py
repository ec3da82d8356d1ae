"""C17: what a program prints, and whether printing works, changes no answer.

Two programs are driven through the same seeded settings: one silent, one
built, driven and solved at a seeded verbosity, whose terminal is simulated:
both output streams are behind a seam that can fail at any write (closed pipe,
full device, an output encoding that cannot express a character), and the
clock that drives progress bars is virtual and can jump, also backwards.  An
operation the broken terminal stopped is repeated (or the settings are
reapplied, or the program is built anew); from there on both must agree.
"""
import contextlib
import os
import sys
import threading

from . import progs, scen, w_c14
from .core import Inconclusive
from .mosek_node import NODE, Policy
from .w_c05 import compare_known
from .w_c14 import SDPS

PROP = "C17"
RUNS = {"quick": 420, "thorough": 8000}
RULE = ("one run = a silent program and a talking one, 3-9 operations, 0-3 "
        "failing writes, 0-2 clock jumps; non-trivial when the talking one "
        "wrote something and was compared")
ASSUME = ["a failing log stream inside the solver is ignored by the solver"]
STATES = "operation during which the terminal failed, and the kind of failure"
REAL = ["inflation (all modules)", "tqdm", "mosek task building"]
STUB = ["MOSEK's optimizer", "terminal", "clock of the progress bars"]

FAIL = {"pipe": lambda: BrokenPipeError(32, "Broken pipe"),
        "full": lambda: OSError(28, "No space left on device"),
        "io": lambda: OSError(5, "Input/output error")}


class Term:
    """Both streams of a simulated terminal."""
    encoding = "utf-8"
    errors = "strict"

    def __init__(self):
        self.writes, self.chars = 0, 0
        self.fail_at, self.kind, self.sticky = None, None, False
        self.failed = 0

    def write(self, text):
        self.writes += 1
        if self.kind == "ascii":
            try:
                str(text).encode("ascii")
            except UnicodeEncodeError:
                self.failed += 1
                raise
        elif self.fail_at is not None and (
                self.writes == self.fail_at or
                self.sticky and self.writes > self.fail_at):
            self.failed += 1
            raise FAIL[self.kind]()
        self.chars += len(text)
        return len(text)

    def flush(self):
        pass

    def isatty(self):
        return True

    def fileno(self):
        raise OSError(25, "not a real device")


class Clock:
    def __init__(self):
        self.t, self.calls, self.jumps = 1.7e9, 0, {}

    def __call__(self):
        self.calls += 1
        self.t += .03 + self.jumps.get(self.calls, 0)
        return self.t


CLOCK = Clock()


def seams():
    """Virtual clock for progress bars; no monitor thread."""
    import tqdm
    import tqdm.std
    tqdm.tqdm.monitor_interval = 0
    tqdm.std.tqdm.monitor_interval = 0
    tqdm.tqdm.set_lock(threading.RLock())  # none shared between processes
    tqdm.std.time = CLOCK


@contextlib.contextmanager
def terminal(term):
    from inflation.sdp import sdp_utils
    old = sys.stdout, sys.stderr, getattr(sdp_utils, "stdout", None)
    sys.stdout = sys.stderr = term
    if old[2] is not None:
        sdp_utils.stdout = term
    try:
        yield term
    finally:
        sys.stdout, sys.stderr = old[:2]
        if old[2] is not None:
            sdp_utils.stdout = old[2]


def gen(rng, tier):
    spec = w_c14.gen(rng, tier)
    for op in spec["ops"]:
        op.pop("strike", None)
        op.pop("problem", None)
    spec["level"] = [rng.choice([0, 1, 2]), rng.choice([None, 1, 1, 2, 3])]
    if not spec["level"][0] and spec["level"][1] is None:
        spec["level"][0] = 2
    for op in spec["ops"]:
        if op["op"] == "solve" and rng.random() < .6:
            op["talk"] = rng.choice([0, 1, 2, 3])
    n = rng.choice([0, 1, 1, 1, 2, 3])
    for op in rng.sample(spec["ops"], min(n, len(spec["ops"]))):
        op["term"] = {"at": round(rng.random(), 6),
                      "kind": rng.choice(sorted(FAIL) + ["ascii"]),
                      "sticky": int(rng.random() < .4),
                      "then": rng.choice(["retry", "retry", "reset",
                                          "rebuild"])}
    spec["jumps"] = {str(rng.randint(1, 60)): rng.choice([-5, -86400, 3, 1e6])
                     for _ in range(rng.choice([0, 0, 1, 2]))}
    return spec


class Talk(w_c14.Pair):
    talked = 0

    def words(self, u, op):
        if op["op"] == "solve" and op.get("talk") is not None and \
                u is self.u:
            return {"verbose": op["talk"]}
        return {}

    def do(self, u, op, tag):
        if op["op"] == "solve":
            NODE.reset(Policy())
            return list(u.solve(bool(op["dual"]), op["mode"],
                                **self.words(u, op)))
        return super().do(u, op, tag)

    def aloud(self, fn, term=None):
        """fn() on a terminal; returns (what it returned, None) or
        (None, what it raised)."""
        term = term or Term()
        try:
            with terminal(term):
                return fn(), None
        except Exception as e:                       # noqa: BLE001
            return None, e
        finally:
            self.talked += term.chars
            self.term = term

    def talking(self, op, fn, again, label):
        """fn() with the terminal of op; recovered by again(how)."""
        ctx, t = self.ctx, op.get("term")
        term = Term()
        if t:
            term.kind, term.sticky = t["kind"], bool(t["sticky"])
            term.fail_at = 1 + int(t["at"] * 40) if t["at"] < .8 else 1
        got, err = self.aloud(fn, term)
        if term.failed:
            self.struck += 1
            ctx.fault("terminal " + t["kind"])
            ctx.state([op["op"], t["kind"]])
            ctx.ev("terminal", t["kind"], term.failed,
                   type(err).__name__ if err else None)
        if term.failed and op["op"] == "export" and got and len(got) != 40:
            err = OSError(got)
        if err is None:
            return got
        if not term.failed:
            ctx.require(False, "raised", f"{label} at verbosity "
                        f"{self.spec['level']}/{op.get('talk')} raised "
                        f"{type(err).__name__}: {str(err)[:160]}; the silent "
                        "program did not")
        ctx.probe("stopped by the terminal")
        got, err = self.aloud(lambda: again(t["then"]))
        if err is not None:
            ctx.require(False, "raised", f"{label} repeated on a working "
                        f"terminal raised {type(err).__name__}: "
                        f"{str(err)[:160]}")
        return got

    def make(self, problem):
        v = self.spec["level"][1]
        opts = dict(self.spec["opts"])
        if v is not None:
            opts["verbose"] = v
        return progs.Unit(self.sc, self.spec["ptype"], self.spec["col"],
                          opts, problem=problem)

    def build(self, op):
        self.problem = scen.problem(self.sc)
        self.r = progs.Unit(self.sc, self.spec["ptype"], self.spec["col"],
                            self.spec["opts"], problem=self.problem)
        if not progs.columns_ok(self.r):
            raise Inconclusive("too large")

        def loud():
            p = scen.problem(self.sc, verbose=self.spec["level"][0])
            return self.make(p)
        self.u = self.talking(op, loud, lambda how: loud(), "building")

    def recover_by(self, how, op):
        s, u = self.s, self.u
        if op["op"] == "query":
            how = "retry"
        if how == "retry":
            u._classes = None
            return self.do(u, op, "u")
        if how == "rebuild":
            self.u = u = self.make(scen.problem(
                self.sc, verbose=self.spec["level"][0]))
            if s["col"] and self.spec["ptype"] == "sdp" and \
                    s["col"] != self.spec["col"]:
                u.prog.generate_relaxation(s["col"])
                u.col = s["col"]
        else:
            if op["op"] == "regen":
                u._classes = None
                return self.do(u, op, "u")
            u.prog.reset("all")
            u.prog.set_extra_equalities(None)
            u.prog.set_extra_inequalities(None)
        for o in progs.replay_ops(s):
            progs.apply(u, self.M, o)
        return self.do(u, op, "u")

    def step(self, op):
        ctx = self.ctx
        k = op["op"]
        t = self.s if k in ("query", "export", "solve") else \
            progs.settle(self.s, op, self.spec["ptype"])
        if self.u.ptype == "sdp" and (t["up"] or t["lo"]) and t["vals"] and \
                k in ("dist", "values", "update", "bounds"):
            shadow = progs.Unit(self.sc, "sdp", self.r.col, self.r.opts)
            if progs.contradicts(self.r, self.M, self.s, op, shadow):
                ctx.ev("skip", k)
                return
        if op.get("fault"):
            got = []
            for u in (self.u, self.r):
                pol = NODE.reset(Policy())
                pol.plan = {0: {"kind": op["fault"], "seed": 1}}
                ctx.fault("solver " + op["fault"])
                try:
                    with terminal(Term()) as tm:
                        u.solve(bool(op["dual"]), op["mode"],
                                **self.words(u, op))
                    e = None
                except BaseException as x:           # noqa: BLE001
                    e = type(x).__name__
                self.talked += tm.chars
                p = u.prog
                got.append([e, str(p.status), bool(getattr(
                    p, "success", False))])
                NODE.reset(Policy())
            ctx.ev("solve", op["fault"], got)
            ctx.require(got[0] == got[1], "failing solve",
                        f"{op['mode']} solve with {op['fault']}: {got[0]} "
                        f"when talking, {got[1]} when silent")
        with terminal(Term()) as tm:
            b = ctx.call(k, self.do, self.r, op, "r")
        ctx.require(not tm.chars, "silence", "a program at verbosity 0 "
                    f"printed during {k}")
        a = self.talking(op, lambda: self.do(self.u, op, "u"),
                         lambda how: self.recover_by(how, op), k)
        if k == "regen":
            for w in (self.u, self.r):
                w._classes = None
        ctx.ev(k, a)
        self.s = t
        if k == "solve":
            self.compare_results(op, a, b)
        elif k == "export":
            if a != b:
                self.compare_files(op["fmt"], a, b)
            else:
                ctx.probe("same file")
        elif k == "query" and not op.get("term"):
            ctx.require(a == b, "query", f"{op['what']}: talking and silent "
                        "program answer differently")
        compare_known(ctx, self.u, self.r)


def run(spec, ctx):
    with terminal(Term()):
        run_(spec, ctx)


def run_(spec, ctx):
    NODE.reset(Policy())
    seams()
    CLOCK.__init__()
    CLOCK.jumps = {int(k): v for k, v in spec["jumps"].items()}
    for v in spec["jumps"].values():
        ctx.fault("clock jump")
    P = Talk(spec, ctx)
    for op in spec["ops"]:
        if op["op"] == "build":
            P.build(op)
            ctx.ev("build", len(P.u.moments), len(P.r.moments))
            ctx.require([m.name for m in P.u.moments] ==
                        [m.name for m in P.r.moments], "moments",
                        "different moments when talking")
        else:
            P.step(op)
    if P.talked:
        ctx.probe("talked")
    w_c14.probes(spec, ctx, P, P.u, P.r)


def nontrivial(spec, rec):
    return rec["probes"].get("talked", 0)


def simpler(spec):
    ops = spec["ops"]
    if spec["jumps"]:
        yield dict(spec, jumps={})
    for i in range(len(ops) - 1, 0, -1):
        yield dict(spec, ops=ops[:i] + ops[i + 1:])
    for i, op in enumerate(ops):
        for f in ("term", "fault", "talk"):
            if f in op:
                yield dict(spec, ops=ops[:i] + [
                    {k: v for k, v in op.items() if k != f}] + ops[i + 1:])
    for i in range(len(spec["probes"])):
        yield dict(spec, probes=spec["probes"][:i] + spec["probes"][i + 1:])
