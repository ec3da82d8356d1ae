"""C18: everything a program says about its problem describes one problem.

A program is driven through a seeded history of settings, refused calls,
failing and stopped solves, exports and regenerations.  At seeded points every
public description of it is read - moments and their names, symbols and
factors, factorisation conditions, constraints, values, bounds, objective, in
the dictionary, by-name and sparse forms - and compared with each other, with
the problem the solver is actually handed, and with the meaning of the moments
on concrete models of the scenario.
"""
import numpy as np
import scipy.sparse as sp

from . import equiv, progs, scen
from .core import Inconclusive
from .lab import pick
from .mosek_node import NODE, Policy
from .w_c05 import SDPS, gen_op, refused

PROP = "C18"
RUNS = {"quick": 700, "thorough": 12000}
RULE = ("one run = one program, a random history of 2-9 operations, all "
        "public descriptions compared at 2-4 points of it; non-trivial when "
        "at least two points were compared")
ASSUME = ["the numbers a scenario's concrete models give to a moment (own "
          "implementation, sim/lab.py)"]


def gen(rng, tier):
    ptype = "lp" if rng.random() < .6 else "sdp"
    name, col = scen.draw(rng, ptype, None if ptype == "lp" else SDPS)
    sc = scen.get(name)
    opts = {}
    if ptype == "lp":
        if rng.random() < .2:
            opts["include_all_outcomes"] = True
        if rng.random() < .15:
            opts["default_non_negative"] = False
    models = [pick(rng, sc, ptype) for _ in range(2)]
    ops = []
    for _ in range(rng.randint(2, 9)):
        op = gen_op(rng, ptype, 2, False)
        if op["op"] == "regen":
            op["col"] = rng.choice(scen.columns(name, SDPS))
        if op["op"] in ("values", "update", "obj", "bounds", "eqs",
                        "ineqs") and rng.random() < .12:
            op["refused"] = rng.randrange(8)
        ops.append(op)
        if rng.random() < .25:
            s = progs.gen_solve(rng, ptype)
            if rng.random() < .4:
                s["fault"] = rng.choice(["license", "space", "stall",
                                         "memory", "interrupt"])
            ops.append(s)
        if rng.random() < .3:
            ops.append({"op": "look"})
    ops.append({"op": "look"})
    rng.random() < .3 and ops.insert(0, {"op": "look"})
    return {"sc": name, "ptype": ptype, "col": col, "opts": opts,
            "models": models, "ops": ops}


def nm(d):
    return {k.name: float(v) for k, v in d.items()}


def close(a, b, eps=1e-9):
    return set(a) == set(b) and all(abs(a[k] - b[k]) <= eps * (1 + abs(a[k]))
                                    for k in a)


def nonzero(d):
    return {k: v for k, v in d.items() if abs(v) > 1e-12}


class Stated:
    """A problem assembled from public descriptions only (LP)."""

    def __init__(self, prog, names):
        at = {n: i for i, n in enumerate(names)}
        self.nv, rows = len(names), []

        def add(d, lo, up):
            rows.append((nonzero(d), lo, up))
        for d in prog.moment_equalities_by_name:
            add(d, 0, 0)
        for d in prog.moment_inequalities_by_name:
            add(d, 0, np.inf)
        for n, (c, n2) in prog.semiknown_by_name.items():
            d = {n: 1.0}
            d[n2] = d.get(n2, 0) - c
            add(d, 0, 0)
        lo = np.zeros(self.nv) if prog.default_non_negative else \
            np.full(self.nv, -np.inf)
        up = np.full(self.nv, np.inf)
        for n, v in prog.lowerbounds_by_name.items():
            lo[at[n]] = max(lo[at[n]], v)
        for n, v in prog.upperbounds_by_name.items():
            up[at[n]] = min(up[at[n]], v)
        for n, v in prog.known_vars_by_name.items():
            add({n: 1.0}, v, v)
        self.blx, self.bux = lo, up
        self.nc = len(rows)
        self.A = sp.lil_matrix((self.nc, self.nv))
        for i, (d, _, _) in enumerate(rows):
            for n, v in d.items():
                self.A[i, at[n]] += v
        self.A = self.A.tocsr()
        self.blc = np.array([r[1] for r in rows], float)
        self.buc = np.array([r[2] for r in rows], float)
        self.c = np.zeros(self.nv)
        for n, v in prog.objective_by_name.items():
            self.c[at[n]] += v
        self.maximize = True


class Look:
    def __init__(self, ctx, spec, u, M):
        self.ctx, self.spec, self.u, self.M = ctx, spec, u, M
        self.ev = [spec["sc"] if isinstance(spec["sc"], str) else "rand"]

    def ok(self, cond, kind, msg):
        self.ctx.require(cond, kind, f"{scen.label(self.spec['sc'])} "
                         f"{self.u.ptype}: {msg}")

    def value(self, i, m):
        return 0.0 if m.is_zero else self.M.value(i, m)

    def get(self, name):
        return self.ctx.call(f"reading {name}", getattr, self.u.prog, name)

    # -- moments ------------------------------------------------------------
    def moments(self):
        p, u = self.u.prog, self.u
        ms = u.moments
        names = [m.name for m in ms]
        live = [m for m in ms if not (m.is_zero or m.is_one)]
        self.ok(len({m.name for m in live}) == len(live), "names",
                "two moments of one name")
        self.ok(len({str(m.symbol) for m in live}) == len(live) or
                u.ptype == "sdp", "names", "two moments of one symbol")
        for m in live[:: max(1, len(live) // 12)]:
            self.ok(p.monomial_from_name[m.name] == m, "look-up",
                    f"{m.name} is looked up as another moment")
        if u.ptype == "lp":
            self.ok(list(self.get("monomials_as_strings")) == names and
                    [str(x) for x in p.monomial_names] == names, "names",
                    "lists of names differ")
            self.ok(all(p.compmonomial_to_idx[m] == i
                        for i, m in enumerate(ms)), "names", "numbering")
        else:
            self.ok(sorted({int(i) for i in p.momentmatrix.flat}) ==
                    sorted({m.idx for m in ms if (p.momentmatrix ==
                                                  m.idx).any()}),
                    "moment matrix", "an entry of the moment matrix is no "
                    "moment of the program")
            self.ok(np.array_equal(p.momentmatrix, p.momentmatrix.T),
                    "moment matrix", "not symmetric")
        return ms, names

    def factors(self, ms):
        p, u = self.u.prog, self.u
        for m in ms:
            if m.is_zero or m.is_one:
                continue
            fs = [p._monomial_from_atoms([f]) for f in m.factors]
            self.ok(len(fs) == m.n_factors, "factors", f"{m.name} has "
                    f"{len(fs)} factors, says {m.n_factors}")
            for i in (0, 1):
                v, w = self.value(i, m), np.prod(
                    [self.value(i, f) for f in fs])
                self.ok(abs(v - w) < 1e-9, "factors", f"{m.name} is {v:.6g} "
                        f"in a model, the product of its factors {w:.6g}")
        names = {f.name for m in ms for f in m.factors}
        atoms = self.get("atomic_factors")
        self.ok({a.name for a in atoms} == names, "atoms", "atomic_factors "
                "are not the factors of the moments")
        mons = self.get("atomic_monomials")
        self.ok(sorted(m.name for m in mons) == sorted(
            p._monomial_from_atoms([a]).name for a in atoms), "atoms",
            "atomic_monomials are not those of atomic_factors")
        self.ok({m.name for m in self.get("knowable_atoms")} ==
                {m.name for m in mons if m.is_knowable}, "atoms",
                "knowable_atoms")
        self.ok(all(not m.is_knowable
                    for m in self.get("do_conditional_atoms")), "atoms",
                "a knowable atom among do_conditional_atoms")
        look = self.get("atom_from_name")
        for a in atoms:
            self.ok(look[a.name] == a, "atoms", f"{a.name} is looked up as "
                    f"{look[a.name].name}")

    def conditions(self, ms):
        p = self.u.prog
        many = {m.name: m for m in ms if m.n_factors > 1}
        full = self.get("factorization_conditions_by_name")
        self.ok(set(full) == set(many), "factorisation", "conditions for "
                "other moments than the composite ones")
        objs = self.get("factorization_conditions")
        spars = self.get("sparse_factorization_conditions")
        self.ok({k.name: tuple(f.name for f in v) for k, v in objs.items()}
                == full, "factorisation", "objects and names differ")
        at = {m.name: i for i, m in enumerate(ms)}
        self.ok({int(k): tuple(int(x) for x in np.ravel(v))
                 for k, v in spars.items()} ==
                {at[k]: tuple(at[f] for f in v) for k, v in full.items()},
                "factorisation", "numbers and names differ")
        by = {m.name: m for m in ms}
        quad = self.get("quadratic_factorization_conditions_by_name")
        self.ok(set(quad) == set(many), "factorisation", "quadratic "
                "conditions for other moments than the composite ones")
        qs = self.get("sparse_quadratic_factorization_conditions")
        self.ok({int(k): tuple(int(x) for x in np.ravel(v))
                 for k, v in qs.items()} ==
                {at[k]: tuple(at[f] for f in v) for k, v in quad.items()},
                "factorisation", "quadratic numbers and names differ")
        for tab in (full, quad):
            for k, v in tab.items():
                for i in (0, 1):
                    a = self.value(i, by[k])
                    b = np.prod([self.value(i, by[f]) for f in v])
                    self.ok(abs(a - b) < 1e-9, "factorisation",
                            f"{k} = {' * '.join(v)} fails in a model "
                            f"({a:.6g}, {b:.6g})")

    # -- constraints --------------------------------------------------------
    def inherent(self, s):
        """The constraints of the scenario hold in its models."""
        p, u = self.u.prog, self.u
        eqs, ineqs = self.get("moment_equalities"), \
            self.get("moment_inequalities")
        if u.ptype == "lp":
            k, l = len(p.extra_equalities), len(p.extra_inequalities)
        else:
            k, l = len(s["eqs"] or []), len(s["ineqs"] or [])
        if u.ptype == "lp":
            eqs, ineqs = eqs[:len(eqs) - k], ineqs[:len(ineqs) - l]
        else:
            if k or l:
                return
        for i in (0, 1):
            for d in eqs:
                t = sum(c * self.value(i, m) for m, c in d.items())
                self.ok(abs(t) < 1e-8, "equality", f"{nm(d)} is {t:.6g} in "
                        "a model")
            for d in ineqs:
                t = sum(c * self.value(i, m) for m, c in d.items())
                self.ok(t > -1e-8, "inequality", f"{nm(d)} is {t:.6g} in a "
                        "model")

    def forms(self, names):
        p = self.u.prog
        for what in ("equalities", "inequalities"):
            a = [nm(d) for d in self.get(f"moment_{what}")]
            b = self.get(f"moment_{what}_by_name")
            self.ok(len(a) == len(b) and all(
                close(x, y) for x, y in zip(a, b)), "forms", f"moment_{what} "
                "by object and by name differ")
            m = self.get(f"sparse_{what}").tocsr()
            self.ok(m.shape == (len(a), len(names)), "forms",
                    f"sparse_{what} has shape {m.shape}")
            for i, d in enumerate(a):
                r = m[[i]].tocoo()
                e = {}
                for c, v in zip(r.coords[-1] if hasattr(r, "coords")
                                else r.col, r.data):
                    e[names[c]] = e.get(names[c], 0) + float(v)
                self.ok(close(nonzero(e), nonzero(d)), "forms",
                        f"row {i} of sparse_{what} differs")
        for what, d in (("objective", p.objective),
                        ("known_vars", p.known_moments),
                        ("lowerbounds", p.moment_lowerbounds),
                        ("upperbounds", p.moment_upperbounds)):
            a, b = nm(d), self.get(f"{what}_by_name")
            self.ok(close(nonzero(a), nonzero(b)), "forms", f"{what} by "
                    f"object and by name differ: {nonzero(a)} {nonzero(b)}"
                    [:300])
            if what != "objective":
                self.ok(set(a) == set(b), "forms", f"{what}_by_name lists "
                        "other moments")
        self.ok({k: (round(float(c), 12), m) for k, (c, m) in
                 self.get("semiknown_by_name").items()} ==
                {k.name: (round(float(c), 12), m.name) for k, (c, m) in
                 p.semiknown_moments.items()}, "forms", "semiknown")

    def given(self, s):
        """The settings in force are the ones described."""
        p, u, M = self.u.prog, self.u, self.M
        want = {}
        if s["obj"] and s["obj"]["terms"]:
            sg = 1 if s["obj"]["dir"] == "max" else -1
            for r, c in s["obj"]["terms"]:
                k = u.mon(r).name
                want[k] = want.get(k, 0) + sg * c
            if s["obj"].get("const"):
                want[p.One.name] = sg * s["obj"]["const"]
        self.ok(close(nonzero(want), nonzero(nm(p.objective))), "given",
                f"objective stated as {nonzero(nm(p.objective))}, given "
                f"{nonzero(want)}"[:400])
        self.ok(bool(p.maximize) == (not want or s["obj"]["dir"] == "max"),
                "given", "direction of the objective")

    def submitted(self, names):
        """The problem handed to the solver is the one described."""
        u, p = self.u, self.u.prog
        st = Stated(p, names)
        NODE.reset(Policy())
        pol = NODE.policy
        pol.problems = []
        st0 = p.status
        self.ctx.call("solve", u.solve, False, "plain")
        self.ctx.solves += 1
        q = pol.problems[-1]
        d = equiv.same_lp(q, st)
        if d and "variables versus" not in d:
            self.ok(False, "submitted", f"the solver was handed another "
                    f"problem than the one described: {d}")
        self.ctx.probe("submitted compared" if not d else "not comparable")

    def all(self, s):
        u = self.u
        ms, names = self.moments()
        if u.ptype == "lp" or True:
            self.factors(ms)
        if u.ptype == "lp":
            self.conditions(ms)
            self.forms(names)
        self.given(s)
        if not self.u.opts.get("no_models"):
            self.inherent(s)
        if u.ptype == "lp":
            self.submitted(names)
        self.ctx.probe("looks")


def run(spec, ctx):
    sc = scen.get(spec["sc"])
    M = progs.Models(sc, spec["models"])
    NODE.reset(Policy())
    u = progs.Unit(sc, spec["ptype"], spec["col"], spec["opts"], ctx=ctx)
    if not progs.columns_ok(u) or len(u.moments) > 260:
        raise Inconclusive("too large")
    s, shadow = progs.blank(), None
    for op in spec["ops"]:
        k = op["op"]
        if k == "look":
            Look(ctx, spec, u, M).all(s)
            ctx.ev("look", len(u.moments), len(u.prog.known_moments))
            continue
        if k == "query":
            ctx.ev("query", op["what"], progs.query(u, op))
            continue
        if k == "export":
            try:
                u.prog.write_to_file(f"f.{op['fmt']}")
                ctx.ev("export", op["fmt"])
            except Exception as e:                   # noqa: BLE001
                ctx.ev("export", op["fmt"], type(e).__name__)
            continue
        if k == "solve":
            pol = NODE.reset(Policy())
            if op.get("fault"):
                pol.plan = {0: {"kind": op["fault"], "seed": 1}}
                ctx.fault("solver " + op["fault"])
            try:
                u.solve(bool(op["dual"]), op["mode"])
                ctx.ev("solve", op.get("fault"), str(u.prog.status))
            except BaseException as e:               # noqa: BLE001
                if not op.get("fault"):
                    raise
                ctx.ev("solve", op["fault"], type(e).__name__)
            NODE.reset(Policy())
            continue
        t = progs.settle(s, op, u.ptype)
        if u.ptype == "sdp" and (t["up"] or t["lo"]) and t["vals"] and \
                k in ("dist", "values", "update", "bounds"):
            if shadow is None or shadow.col != u.col:
                shadow = progs.Unit(sc, "sdp", u.col, u.opts)
            if progs.contradicts(u, M, s, op, shadow):
                ctx.ev("skip", k)
                continue
        if op.get("refused") is not None and (
                op.get("terms") or op.get("list") or op.get("refs")):
            refused(ctx, u, M, op)
        progs.apply(u, M, op, ctx)
        s = t
        ctx.ev(k)
        ctx.state(scen.label(spec["sc"]), spec["ptype"], s)


def nontrivial(spec, rec):
    return rec["probes"].get("looks", 0)


def simpler(spec):
    ops = spec["ops"]
    for i in range(len(ops) - 1, -1, -1):
        yield dict(spec, ops=ops[:i] + ops[i + 1:])
    for i, op in enumerate(ops):
        for f in ("refused", "fault"):
            if f in op:
                yield dict(spec, ops=ops[:i] + [
                    {a: b for a, b in op.items() if a != f}] + ops[i + 1:])
        for f in ("terms", "refs", "list"):
            if op.get(f) and len(op[f]) > 1:
                for j in range(len(op[f])):
                    o = dict(op)
                    o[f] = op[f][:j] + op[f][j + 1:]
                    yield dict(spec, ops=ops[:i] + [o] + ops[i + 1:])
