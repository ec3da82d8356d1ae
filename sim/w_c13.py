"""C13: the critical parameter search brackets the true critical value.

A one-parameter family of distributions between a compatible and (usually) an
incompatible one, possibly reparametrised, is handed to `max_within_feasible`
in the ways a user does, with either method, seeded bounds and precision, any
optimal answer the solver may legitimately choose - and, in some runs, with
the solver failing at seeded steps of the search.  The reference is the
relaxation itself: new programs given the numerical distributions on a grid
and a bisection of our own.
"""
import random

import numpy as np

from . import outlaw, progs, scen, w_c07
from .core import Inconclusive
from .lab import pick
from .mosek_node import NODE, Policy

PROP = "C13"
RUNS = {"quick": 400, "thorough": 8000}
RULE = ("one run = one program, one family, one fault-free search and up to "
        "two searches with solver failures at seeded steps; non-trivial when "
        "the reference found one clear critical value and the search's "
        "answer was compared with it")
ASSUME = ["families whose margin changes sign once and not flatly (others "
          "are inconclusive)", "the simulated solver is correct to 1e-6"]
STATES = "scenario, method, formulation, failing step and kind"
SDPS = [(n, c) for n, c in scen.SDP if n not in ("bil22", "tri222",
                                                 "tri221_o3", "bell_l2")]
LPI = [("mono_l2", scen.N2), ("bil11", scen.L1), ("instr_l2", scen.N1),
       ("uc", scen.N1)]
REPAR = ["v", "v", "v", "affine", "square", "root", "const"]
GRID = 9


def gen(rng, tier):
    ptype = "lp" if rng.random() < .55 else "sdp"
    name, col = scen.draw(rng, ptype, None if ptype == "lp" else SDPS)
    lpi = ptype == "sdp" and rng.random() < .25
    if lpi:
        name, col = rng.choice(LPI)
    sc = scen.get(name)
    kinds = list(BAD)
    spec = {"sc": name, "ptype": ptype, "col": col, "opts": {},
            "bad": {"kind": rng.choice(kinds), "seed": rng.randrange(1 << 30)},
            "good": pick(rng, sc, ptype), "mix": rng.choice([.2, .5, .8]),
            "repar": rng.choice(REPAR), "how": rng.choice(
                ["known", "known", "names", "symbols"]),
            "method": rng.choice(["bisection", "dual"]),
            "precision": rng.choice([None, 1e-2, 1e-3, 1e-4, 1e-5]),
            "cert": int(rng.random() < .5), "dual": int(rng.random() < .7),
            "lpi": 0, "only": int(rng.random() < .3),
            "alt": rng.choice([None, rng.randrange(1 << 20)]),
            "give": rng.choice(["all", "all", "atoms"]),
            "before": []}
    if lpi:
        spec.update(lpi=1, method="bisection", only=0,
                    give=rng.choice(["all", "atoms"]))
    if ptype == "lp" and rng.random() < .1:
        spec["opts"]["include_all_outcomes"] = True
    for _ in range(rng.choice([0, 0, 1, 2])):
        spec["before"].append(rng.choice([
            {"op": "dist", "m": 0}, {"op": "solve", "dual": 1,
                                     "mode": "plain"},
            progs.gen_values(rng, 1)]))
    spec["faults"] = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        spec["faults"].append({"at": rng.choice([0, 1, rng.randrange(12)]),
                               "fault": w_c07.gen_fault(rng)})
    return spec


def parity(sc, seed):
    """Outcomes uniform among those whose sum is a function of the
    settings (PR-like boxes)."""
    g = np.random.default_rng(seed)
    P = np.zeros(scen.shape(sc))
    n = len(sc["out"])
    o = min(sc["out"])
    f = {}
    for i in np.ndindex(P.shape):
        x = i[n:]
        f.setdefault(x, int(g.integers(0, o)))
        P[i] = sum(i[:n]) % o == f[x]
    return P / P.sum(axis=tuple(range(n)), keepdims=True)


def sharp(sc, seed):
    """Every setting has its own, nearly deterministic, joint outcome."""
    g = np.random.default_rng(seed)
    P = g.random(scen.shape(sc)) ** 12
    return P / P.sum(axis=tuple(range(len(sc["out"]))), keepdims=True)


BAD = dict(outlaw.KINDS, parity=parity, sharp=sharp)


class Family:
    """P(v) = v bad + (1 - v) good, v a function of the parameter t."""

    def __init__(self, spec, sc, M):
        self.sc, self.seed = sc, spec["bad"]["seed"]
        self.kinds = list(BAD)
        k = self.kinds.index(spec["bad"]["kind"])
        self.kinds = self.kinds[k:] + self.kinds[:k]
        self.good = M.dist(0, spec["mix"])
        self.pick(0)
        self.r = spec["repar"]
        self.bounds = {"affine": (-1.0, 3.0), "const": (0.0, .97)
                       }.get(self.r, (0.0, 1.0))

    def pick(self, i):
        self.bad = BAD[self.kinds[i % len(self.kinds)]](self.sc,
                                                        self.seed + i)
        if i >= 2 * len(BAD) - 4:        # nothing else is refuted: leave
            k = 1 << (i - 2 * len(BAD) + 5)             # the simplex
            self.bad = k * self.bad - (k - 1) * self.good

    def v(self, t, sqrt=np.sqrt):
        if self.r == "affine":
            return (t + 1) / 4
        if self.r == "square":
            return t ** 2
        if self.r == "root":
            return (3 * t - t ** 2) / 2
        return t

    def at(self, t):
        v = self.v(t)
        return v * self.bad + (1 - v) * self.good

    def symbolic(self, t):
        v = self.v(t)
        P = np.empty(self.bad.shape, dtype=object)
        for i in np.ndindex(P.shape):
            P[i] = float(self.good[i]) + v * float(self.bad[i]
                                                   - self.good[i])
        return P


def run(spec, ctx):
    import sympy
    from inflation import max_within_feasible
    sc = scen.get(spec["sc"])
    M = progs.Models(sc, [spec["good"]])
    F = Family(spec, sc, M)
    NODE.reset(Policy())
    u = progs.Unit(sc, spec["ptype"], spec["col"], spec["opts"], ctx=ctx)
    if not progs.columns_ok(u):
        raise Inconclusive("too large")
    crit, slope, steep, margin = reference(spec, ctx, u, F)
    lo, up = F.bounds
    # the family, as a user writes it
    t = sympy.Symbol("t")
    w = progs.Unit(sc, spec["ptype"], spec["col"], spec["opts"])
    if spec["how"] == "known":
        u.prog.set_distribution(F.symbolic(t))
        values = u.prog.known_moments
    else:
        w.prog.set_distribution(F.symbolic(t))
        values = w.prog.known_moments
    if spec["give"] == "atoms":
        values = {m: v for m, v in values.items()
                  if m.is_atomic and not m.is_one}
    if spec["how"] != "known":
        values = {(m.name if spec["how"] == "names" else m.symbol): v
                  for m, v in values.items()}
    if not any(hasattr(v, "atoms") and v.atoms(sympy.Symbol)
               for v in values.values()):
        raise Inconclusive("constant family")
    for op in spec["before"]:
        if op["op"] == "solve":
            NODE.reset(Policy())
            try:
                u.solve(True, "plain")
            except Exception:                        # noqa: BLE001
                pass
        else:
            progs.apply(u, M, op, ctx)
    p = spec["precision"] or 1e-4
    kw = {"return_last_certificate": bool(spec["cert"]),
          "solve_dual": bool(spec["dual"]), "bounds": np.array([lo, up])}
    if spec["precision"]:
        kw["precision"] = p
    if spec["only"]:
        kw["only_specified_values"] = True
    if spec["lpi"]:
        kw["use_lpi_constraints"] = True
        ctx.probe("with LPI constraints")
    what = (f"{scen.label(spec['sc'])} {spec['ptype']} {spec['method']} "
            f"{spec['repar']} {spec['how']} {spec['give']}"
            f"{' only' if spec['only'] else ''}"
            f"{' LPI' if spec['lpi'] else ''}")

    def search(plan):
        pol = NODE.reset(Policy())
        if spec["alt"] is not None:
            pol.alt = random.Random(spec["alt"])
        pol.plan = plan
        r = max_within_feasible(u.prog, dict(values) if spec["how"] != "known"
                                else values, spec["method"], **kw)
        return r, pol

    known0 = dict(values)
    (res, pol) = ctx.call("max_within_feasible", search, {})
    n = pol.count
    ctx.solves += n
    cert = None
    if spec["cert"]:
        ctx.require(isinstance(res, tuple) and len(res) == 2, "no certificate",
                    f"{what}: {res!r}")
        res, cert = res
    res = float(res)
    check_value(spec, ctx, F, res, n, p, crit, slope, steep, margin, what)
    if cert is not None and not spec["lpi"]:
        check_cert(spec, ctx, u, F, cert, res, p, crit, slope, steep, what, w)
    ctx.require(dict(values) == known0, "family altered", what)
    # failures
    for f in spec["faults"]:
        at = f["at"] % n
        err = got = None
        NODE.reset(Policy())
        try:
            got, pol = search({at: f["fault"]})
        except BaseException as e:                   # noqa: BLE001
            err = type(e).__name__
        ctx.fault(f["fault"]["kind"])
        ctx.ev("failing search", at, f["fault"]["kind"], err)
        ctx.state(what, f["fault"]["kind"], at, err)
        ctx.require(err is not None, "a number despite a solver failure",
                    f"{what}: solve {at} of {n} failed "
                    f"({f['fault']['kind']}), yet the search returned {got}; "
                    f"without failures {res}")
        ctx.probe("failing search raised")
    if spec["faults"]:
        again, pol = ctx.call("max_within_feasible", search, {})
        again = float(again[0] if spec["cert"] else again)
        ctx.require(abs(again - res) <= 1e-9, "unusable after failure",
                    f"{what}: {res} before, {again} after")
        NODE.reset(Policy())
        put(spec, u, F.at(lo))
        a = u.solve(True, "fao")
        ctx.require(a[0] == "feasible" and abs(a[1] - margin(lo)) < 1e-5,
                    "unusable after failure", f"{what}: {a}, "
                    f"{margin(lo)} expected")
        ctx.probe("recovered")
    ctx.probe("decided")
    ctx.probe("decided: " + spec["method"])


def put(spec, r, P):
    """The same values as numbers."""
    kw = {"use_lpi_constraints": True} if spec["lpi"] else {}
    if spec["give"] == "all":
        r.prog.set_distribution(P, **kw)
    else:
        r.prog.set_distribution(P)
        d = {m.name: float(v) for m, v in r.prog.known_moments.items()
             if m.is_atomic and not m.is_one}
        r.prog.set_values(d, only_specified_values=bool(spec["only"]), **kw)


def reference(spec, ctx, u, F):
    """(critical value, slope there, steepest slope, margin function)."""
    r = progs.Unit(u.sc, u.ptype, u.col, u.opts)
    memo = {}

    def margin(t):
        t = float(t)
        if t not in memo:
            NODE.reset(Policy())
            put(spec, r, F.at(t))
            a = r.solve(True, "fao")
            ctx.solves += 1
            if a[1] is None:
                raise Inconclusive(f"reference: {a[0]}")
            memo[t] = a[1]
        return memo[t]
    lo, up = F.bounds
    for i in range(2 * len(BAD) - 4 * (u.ptype == "sdp")):
        F.pick(i)
        memo.clear()
        if margin(up) < -1e-4:
            break
    ts = np.linspace(lo, up, GRID)
    m = [margin(t) for t in ts]
    ctx.ev("reference", [round(x, 5) for x in m])
    if m[0] < 1e-5 or m[-1] > -1e-4:
        raise Inconclusive("nothing refuted" if m[-1] > -1e-4 else
                           "no margin at the lower end")
    neg = [x < -1e-6 for x in m]
    k = neg.index(True)
    if not all(neg[k:]):
        raise Inconclusive("not monotonous")
    a, b = ts[k - 1], ts[k]
    while b - a > 1e-7 * (up - lo):
        c = (a + b) / 2
        if margin(c) > -1e-9:
            a = c
        else:
            b = c
    h = (up - lo) * 1e-3
    out = (margin(min(up, b + h)) - margin(b)) / (min(up, b + h) - b)
    if -out < 1e-3:
        raise Inconclusive("flat")
    sl = [(y - x) / (ts[1] - ts[0]) for x, y in zip(m, m[1:])]
    return b, -out, max(-min(sl), -out), margin


def check_value(spec, ctx, F, res, n, p, crit, slope, steep, margin, what):
    lo, up = F.bounds
    eps = (p / 1000 + 3e-6) / slope + 1e-6
    ctx.ev("search", res, crit, n)
    if spec["method"] == "bisection":
        limit = int(np.log2((up - lo) / p)) + 8
        tol = (p + eps, p + eps)
    else:
        limit = int((up - lo) / p) + 4
        tol = (p + eps, 3 * p * max(1, steep / slope) + eps)
    ctx.require(n <= limit, "too many solves", f"{what}: {n} > {limit}")
    ctx.require(-tol[0] <= res - crit <= tol[1], "critical value",
                f"{what}: {res:.8g}, reference {crit:.8g}, precision {p}, "
                f"slope {slope:.3g}, steepest {steep:.3g}, {n} solves")


def check_cert(spec, ctx, u, F, cert, res, p, crit, slope, steep, what, w):
    """The surface separates what lies beyond from what is feasible."""
    lo, up = F.bounds
    cert = {getattr(k, "name", str(k)): float(c) for k, c in cert.items()}
    scale = max([abs(c) for c in cert.values()] + [1e-12])

    def value(t):
        w.prog.set_distribution(F.at(t))
        kn = {m.name: float(v) for m, v in w.prog.known_moments.items()}
        kn[w.prog.constant_term_name] = 1.0
        kn["1"] = 1.0
        missing = [k for k in cert if k not in kn]
        ctx.require(not missing, "certificate of unknowns",
                    f"{what}: {missing[:3]}")
        return sum(c * kn[k] for k, c in cert.items()) / scale
    ctx.require(len(cert) > 0, "empty certificate", what)
    beyond = crit + max(30 * p * max(1, steep / slope), .03 * (up - lo))
    if beyond < up:
        v = value(beyond)
        ctx.require(v < 0, "certificate does not refute", f"{what}: at "
                    f"{beyond:.6g} (critical {crit:.6g}) it is {v:.3g}")
        ctx.probe("certificate refutes")
    for t in (lo, lo + (crit - lo) / 2, crit - .01 * (up - lo)):
        if lo <= t < crit:
            v = value(t)
            ctx.require(v > -1e-5 / slope, "certificate refutes the feasible",
                        f"{what}: at {t:.6g} (critical {crit:.6g}) it is "
                        f"{v:.3g}")


def nontrivial(spec, rec):
    return rec["probes"].get("decided", 0) > 0


def simpler(spec):
    if len(spec["faults"]) > 1:
        for f in spec["faults"]:
            yield dict(spec, faults=[f])
    if spec["faults"]:
        yield dict(spec, faults=[])
    if spec["before"]:
        yield dict(spec, before=[])
    for k, v in (("cert", 0), ("give", "all"), ("only", 0), ("dual", 1), ("alt", None),
                 ("precision", 1e-3), ("repar", "v")):
        if spec[k] != v:
            yield dict(spec, **{k: v})
