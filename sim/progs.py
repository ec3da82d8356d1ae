"""Driving the code under test: the operation language, the ledger of settings
in force, and observation of results.

Operations are plain JSON.  A monomial is referenced as ``[class, number]``:
the number is taken modulo the size of the class, the class being a list of
monomial *names* in sorted order - so a spec means the same thing in every
process and on every refactored tree.
"""
import random

import numpy as np

from . import lab, scen
from .mosek_node import NODE, Policy

MAXCOLS = 24


def name_sort(xs):
    return sorted(xs, key=lambda m: (len(m.name), m.name))


class Unit:
    """One program under test together with the catalogue entry it was built
    from."""

    def __init__(self, sc, ptype, col=None, opts=None, problem=None,
                 ctx=None):
        from inflation import InflationLP, InflationSDP
        self.sc, self.ptype, self.col = sc, ptype, col
        self.opts = dict(opts or {})
        self.problem = problem if problem is not None else scen.problem(sc)
        call = ctx.call if ctx else (lambda label, f, *a, **k: f(*a, **k))
        if ptype == "lp":
            self.prog = call("build", InflationLP, self.problem, **self.opts)
        else:
            self.prog = call("build", InflationSDP, self.problem, **self.opts)
            if col is not None:
                call("build", self.prog.generate_relaxation,
                     columns(col, sc))
        self._classes = None

    # -- names --------------------------------------------------------------
    @property
    def moments(self):
        return list(self.prog.monomials if self.ptype == "lp"
                    else self.prog.moments)

    def classes(self):
        if self._classes is None:
            ms = [m for m in self.moments if not (m.is_zero or m.is_one)]
            ms = name_sort(ms)
            self._classes = {
                "any": ms,
                "kn": [m for m in ms if m.is_knowable and m.is_atomic],
                "kall": [m for m in ms if m.is_knowable],
                "unk": [m for m in ms if not m.is_knowable],
                "atom": [m for m in ms if m.is_atomic],
            }
        return self._classes

    def mon(self, ref):
        cl = self.classes()
        lst = cl.get(ref[0]) or cl["any"]
        if not lst:
            from .core import Inconclusive
            raise Inconclusive("no such moment")
        return lst[ref[1] % len(lst)]

    def key(self, mon, how):
        """A way of naming `mon` to the program."""
        if how == "obj":
            return mon
        if how == "sym":
            return mon.symbol
        if how == "arr" and mon.is_atomic and not (mon.is_one or mon.is_zero):
            # the same moment on other copies of the sources
            a = np.array(mon.factors[0].as_2d_array, dtype=int)
            for s, n in enumerate(self.prog.inflation_levels):
                c = a[:, 1 + s]
                a[:, 1 + s] = np.where(c > 0, c % int(n) + 1, 0)
            return tuple(tuple(int(v) for v in r) for r in a)
        return mon.name

    # -- state digest -------------------------------------------------------
    def solve(self, dual=True, mode="plain", **extra):
        p = self.prog
        if self.ptype == "lp":
            kw = {"solve_dual": dual}
            if mode == "fao":
                kw["feas_as_optim"] = True
            elif mode == "relax":
                kw["relax_known_vars"] = True
                kw["relax_inequalities"] = True
            elif mode == "relaxkv":
                kw["relax_known_vars"] = True
            kw.update(extra)
            p.solve(**kw)
        else:
            p.solve(solve_dual=dual, feas_as_optim=(mode == "fao"), **extra)
        return self.result(dual)

    def result(self, dual=True):
        """(verdict, value): verdict in feasible / infeasible / unbounded /
        none."""
        p = self.prog
        st = str(p.status)
        if self.ptype == "sdp":
            if st == "feasible":
                return "feasible", float(p.objective_value)
            return ("infeasible" if st == "infeasible" else "none"), None
        if "optimal" in st:
            return "feasible", float(p.objective_value)
        if "prim_infeas" in st:
            return ("unbounded" if dual else "infeasible"), None
        if "dual_infeas" in st:
            return ("infeasible" if dual else "unbounded"), None
        return "none", None


def columns(col, sc=None):
    if isinstance(col, dict):
        from . import refsdp
        return refsdp.SDPRef(sc, col).spelled(scen.parties(sc))
    return col


def columns_ok(unit):
    return unit.ptype == "lp" or unit.prog.n_columns <= MAXCOLS


# ------------------------------------------------------------ distributions -
class Models:
    """The run's pool of concrete models; index -> Model, with values."""

    def __init__(self, sc, specs):
        self.sc = sc
        self.models = [lab.Model(sc, s["seed"], s["style"]) for s in specs]
        self.etas = [s.get("eta", 0) for s in specs]
        self._P, self._v = {}, {}

    def __getitem__(self, i):
        return self.models[i % len(self.models)]

    def P(self, i):
        i %= len(self.models)
        if i not in self._P:
            self._P[i] = self.models[i].distribution(self.etas[i])
        return self._P[i]

    def dist(self, i, v=1.0):
        P = self.P(i)
        if v < 1:
            P = v * P + (1 - v) * scen.noise(self.sc)
        return P

    def value(self, i, mon):
        i %= len(self.models)
        k = (i, mon.name)
        if k not in self._v:
            v = lab.moment_value(self.models[i], mon)
            self._v[k] = 0.0 if abs(v) < 1e-12 else v
        return self._v[k]


def pr_array(rng_seed, shape, nparty):
    """An arbitrary normalised array, usually signalling or non-realisable."""
    g = np.random.default_rng(rng_seed)
    P = g.random(shape) ** 3
    return P / P.sum(axis=tuple(range(nparty)), keepdims=True)


# ------------------------------------------------------------------- ledger -
def blank():
    return {"vals": [], "obj": None, "up": None, "lo": None, "eqs": None,
            "ineqs": None, "col": None}


VALOPS = ("dist", "values")


def settle(s, op, ptype):
    """Settings in force after `op` (documented semantics only)."""
    s = dict(s)
    k = op["op"]
    if k in VALOPS:
        s["vals"] = [op]
        s["eqs"] = s["ineqs"] = None
    elif k == "novals" or (k == "reset" and op["which"] in ("values",)):
        s["vals"] = []
        s["eqs"] = s["ineqs"] = None
    elif k == "update":
        s["vals"] = s["vals"] + [op]
    elif k == "obj":
        s["obj"] = op if op["terms"] else None
    elif k == "bounds":
        s[op["type"]] = op if op["terms"] else None
    elif k in ("eqs", "ineqs"):
        s[k] = op if op["list"] else None
    elif k == "reset":
        w = op["which"]
        if w == "all":
            s = blank() | {"col": s["col"]}
        elif w == "bounds":
            s["up"] = s["lo"] = None
        elif w == "lowerbounds":
            s["lo"] = None
        elif w == "upperbounds":
            s["up"] = None
        elif w == "objective":
            s["obj"] = None
        elif isinstance(w, list):
            for x in w:
                s = settle(s, {"op": "reset", "which": x}, ptype)
    elif k == "regen":
        s = blank() | {"col": op["col"]}
    return s


def replay_ops(s):
    """A short script that puts a new program into settings `s`."""
    out = list(s["vals"])
    for k in ("eqs", "ineqs", "up", "lo", "obj"):
        if s[k]:
            out.append(s[k])
    return out


def value_items(u, M, op):
    if "pairs" in op:
        return {u.key(u.mon(r), op.get("key", "name")): v
                for r, v in op["pairs"]}
    d = {}
    for r in op["refs"]:
        m = u.mon(r)
        v = M.value(op["m"], m)
        if op.get("shift"):
            v += op["shift"]
        d[u.key(m, op.get("key", "name"))] = v
    return d


def obj_items(u, op):
    d = {}
    for r, c in op["terms"]:
        m = u.mon(r)
        d[m] = d.get(m, 0) + c
    if op.get("const"):
        d[u.prog.One] = op["const"]
    how = op.get("key", "name")
    if how in ("expr", "fact"):
        return expression(d, how)
    if op.get("split"):
        return spelled(u, {m: c for m, c in d.items()}, op["split"])
    return {("1" if m.is_one else u.key(m, how)): c for m, c in d.items()}


def expression(d, how):
    """The linear function as an algebraic expression, for "fact" one that
    is not expanded."""
    import sympy
    e = sympy.S.Zero
    for m, c in d.items():
        e = e + c * m.symbol
    if how == "fact" and e.free_symbols:
        for y in sorted(e.free_symbols, key=str):
            f = sympy.collect(e, y)
            if f != e:
                return f
        return sympy.Mul(2, e / 2, evaluate=False)
    return e


def spellings(m):
    """Different ways of naming one moment, all documented."""
    out = [m.name, m, m.symbol, m.legacy_name]
    if m.is_atomic:
        out.append(tuple(tuple(int(v) for v in r)
                         for r in m.factors[0].as_2d_array))
    return out


def spelled(u, items, seed):
    """The linear function `items` with every coefficient spread over two
    spellings of the moment."""
    rng = random.Random(seed)
    d = {}
    for m, c in items.items():
        if m.is_one:
            d["1"] = d.get("1", 0) + c
            continue
        a, b = rng.sample(range(len(spellings(m))), 2)
        for k, part in ((a, .25), (b, .75)):
            k = spellings(m)[k]
            for have in d:            # the same spelling twice (name ==
                if type(have) is type(k) and have == k:     # legacy name)
                    d[have] += part * c
                    break
            else:
                d[k] = part * c
    return d


def bound_items(u, M, op):
    d = {}
    for r, delta in op["terms"]:
        m = u.mon(r)
        v = M.value(op["m"], m)
        b = v + delta if op["type"] == "up" else v - delta
        d[m] = round(b, 6)
    return {u.key(m, op.get("key", "name")): b for m, b in d.items()}


def cons_items(u, M, op):
    out = []
    for terms, slack in op["list"]:
        d = {}
        tot = 0.0
        for r, c in terms:
            m = u.mon(r)
            k = u.key(m, op.get("key", "name"))
            d[k] = d.get(k, 0) + c
            tot += c * M.value(op["m"], m)
        if op["op"] == "ineqs":
            tot -= slack
        if op.get("split"):
            e = {}
            for r, c in terms:
                e[u.mon(r)] = e.get(u.mon(r), 0) + c
            d = spelled(u, e, op["split"])
        elif op.get("key") in ("expr", "fact"):
            e = {}
            for r, c in terms:
                e[u.mon(r)] = e.get(u.mon(r), 0) + c
            out.append(expression(e, op["key"]) - tot)
            continue
        d["1"] = -tot
        out.append(d)
    return out


def apply(u, M, op, ctx=None):
    """Perform a settings operation on unit `u`."""
    p = u.prog
    call = ctx.call if ctx else (lambda label, f, *a, **k: f(*a, **k))
    k = op["op"]
    if k == "dist":
        P = M.dist(op["m"], op.get("v", 1.0)).copy()
        kw = {}
        if op.get("lpi"):
            kw["use_lpi_constraints"] = True
        if op.get("sr"):
            kw["shared_randomness"] = True
        call("set_distribution", p.set_distribution, P, **kw)
    elif k in ("values", "update"):
        d = value_items(u, M, op)
        kw = {}
        if op.get("lpi"):
            kw["use_lpi_constraints"] = True
        if op.get("only"):
            kw["only_specified_values"] = True
        f = p.set_values if k == "values" else p.update_values
        call("set_values", f, d, **kw)
    elif k == "novals":
        how = op.get("how", "values")
        if how == "dist":
            call("set_distribution(None)", p.set_distribution, None)
        elif how == "empty":
            call("set_values({})", p.set_values, {})
        else:
            call("set_values(None)", p.set_values, None)
    elif k == "obj":
        if op["terms"]:
            call("set_objective", p.set_objective, obj_items(u, op),
                 op["dir"])
        else:
            call("set_objective(None)", p.set_objective, None)
    elif k == "bounds":
        d = bound_items(u, M, op) if op["terms"] else None
        call("set_bounds", p.set_bounds, d, op["type"])
    elif k == "eqs":
        call("set_extra_equalities", p.set_extra_equalities,
             cons_items(u, M, op) if op["list"] else None)
    elif k == "ineqs":
        call("set_extra_inequalities", p.set_extra_inequalities,
             cons_items(u, M, op) if op["list"] else None)
    elif k == "reset":
        call("reset", p.reset, op["which"])
    elif k == "regen":
        call("regenerate", p.generate_relaxation,
             columns(op["col"], u.sc))
        u._classes = None
        u.col = op["col"]
    else:
        raise ValueError(k)


def fresh(u, M, s, ctx=None):
    """A new program, from a new scenario object, in settings `s`."""
    r = Unit(u.sc, u.ptype, s["col"] or u.col, u.opts, ctx=ctx)
    for op in replay_ops(s):
        apply(r, M, op, ctx)
    return r


def merged(u, M, s):
    """One set_values call for values given in several (None if the
    documentation does not say that it is the same)."""
    if len(s["vals"]) < 2 or s["vals"][0]["op"] != "values":
        return None
    d = {}
    for op in s["vals"]:
        if op.get("only") or op.get("lpi") or op.get("sr"):
            return None
        for r, v in op["pairs"] if "pairs" in op else [
                (r, None) for r in op["refs"]]:
            m = u.mon(r)
            if not m.is_atomic:
                return None
        d.update(value_items(u, M, {**op, "key": "name"}))
    r = {m.name: k for k, m in enumerate(u.classes()["any"])}
    if not all(n in r for n in d):
        return None
    return {"op": "values", "key": "name",
            "pairs": [[["any", r[n]], d[n]] for n in sorted(d)]}


QUERIES = ("cert_dict", "cert_string", "cert_probs", "strings", "known",
           "matrices", "names", "factor", "sanitise", "equalities")


def query(u, op, ctx=None):
    """Read-only accessors; they must not influence anything."""
    p, q = u.prog, op["what"]
    try:
        if q == "cert_dict":
            p.certificate_as_dict()
        elif q == "cert_string":
            p.certificate_as_string()
        elif q == "cert_probs":
            p.certificate_as_probs(clean=False)
        elif q == "strings":
            [str(m) for m in u.moments[:10]]
        elif q == "known":
            p.knowable_atoms, p.atomic_monomials
        elif q == "matrices":
            if u.ptype == "lp":
                p._prepare_solver_matrices()
                p._prepare_solver_matrices(separate_bounds=False)
            else:
                p._prepare_solver_arguments()
        elif q == "names":
            p.atom_from_name, p.do_conditional_atoms
        elif q == "factor":
            if u.ptype == "lp":
                p.factorization_conditions_by_name
                p._prepare_solver_arguments()
                p._prepare_solver_arguments(separate_bounds=False)
        elif q == "sanitise":
            m = u.mon(op["ref"])
            (p._sanitise_monomial if u.ptype == "lp"
             else p._sanitise_moment)(m.name)
        elif q == "equalities":
            list(p.moment_equalities), list(p.moment_inequalities)
    except MemoryError:
        raise
    except Exception:                                # noqa: BLE001
        # accessors may legitimately refuse (nothing solved yet)
        return False
    return True


# --------------------------------------------------------------- generators -
def gen_ref(rng, cls=None):
    c = cls or rng.choice(["any", "any", "kn", "unk", "atom", "kall"])
    return [c, rng.randrange(1 << 20)]


def gen_obj(rng):
    if rng.random() < .12:
        return {"op": "obj", "terms": None}
    n = rng.choice([1, 1, 2, 3, 5])
    return {"op": "obj",
            "terms": [[gen_ref(rng), rng.choice([1, -1, 2, .5, -1.5, .99])]
                      for _ in range(n)],
            "const": rng.choice([0, 0, 0, 1, -2.5]),
            "dir": rng.choice(["max", "min"]),
            "key": rng.choice(["name", "obj", "sym", "expr", "fact", "arr"]),
            "split": rng.choice([0, 0, 0, rng.randrange(1, 1 << 20)])}


def gen_dist(rng, ptype, nm, lpi=True):
    op = {"op": "dist", "m": rng.randrange(nm),
          "v": rng.choice([1.0, .9, .7]) if ptype == "lp"
          else rng.choice([.95, .9, .7])}
    r = rng.random()
    if lpi and r < .25:
        op["lpi"] = 1
    elif r < .35:
        op["sr"] = 1
    return op


def gen_values(rng, nm, kind="values"):
    cls = rng.choice(["kn", "kn", "any", "atom", "unk", "kall"])
    n = rng.choice([1, 1, 2, 4, 8])
    return {"op": kind, "m": rng.randrange(nm),
            "refs": [gen_ref(rng, cls) for _ in range(n)],
            "only": int(rng.random() < .5),
            "key": rng.choice(["name", "obj", "sym", "arr"])}


def gen_bounds(rng, nm, cut=[]):
    t = rng.choice(["up", "lo"])
    if rng.random() < .12:
        return {"op": "bounds", "type": t, "terms": None, "m": 0}
    n = rng.choice([1, 1, 2, 3])
    return {"op": "bounds", "type": t, "m": rng.randrange(nm),
            "terms": [[gen_ref(rng, rng.choice(["any", "unk", "atom"])),
                       rng.choice([0.02, .05, .1, .2, .4, 1] + cut)]
                      for _ in range(n)],
            "key": rng.choice(["name", "obj", "sym", "arr"])}


def gen_cons(rng, nm, kind=None):
    kind = kind or rng.choice(["eqs", "ineqs"])
    if rng.random() < .12:
        return {"op": kind, "list": None, "m": 0}
    out = []
    for _ in range(rng.choice([1, 1, 2])):
        n = rng.choice([1, 2, 2, 3])
        out.append([[[gen_ref(rng), rng.choice([1, -1, 2, .5, 1.01, -.99])]
                     for _ in range(n)], rng.choice([0, .05, .1])])
    return {"op": kind, "list": out, "m": rng.randrange(nm),
            "key": rng.choice(["name", "obj", "sym", "expr", "fact", "arr"]),
            "split": rng.choice([0, 0, 0, rng.randrange(1, 1 << 20)])}


def gen_reset(rng):
    w = rng.choice(["all", "values", "bounds", "objective", "lowerbounds",
                    "upperbounds", ["objective", "bounds"],
                    ["values", "objective"]])
    return {"op": "reset", "which": w}


def gen_solve(rng, ptype):
    mode = rng.choice(["plain", "plain", "fao"] if ptype == "sdp" else
                      ["plain", "plain", "fao", "relax"])
    return {"op": "solve", "dual": int(rng.random() < .6), "mode": mode}


# ------------------------------------------------------------ contradiction -
def known_of(u):
    """name -> numeric value the program currently fixes."""
    out = {}
    for m, v in u.prog.known_moments.items():
        try:
            out[m.name] = float(v)
        except TypeError:
            pass
    return out


def contradiction(u, M, s, op, shadow):
    """By how much `op` would leave a value outside a bound in force (then
    the program is entitled to refuse), -1 if it cannot.  Decided on
    `shadow`, a program without bounds."""
    if u.ptype != "sdp":
        return -1
    t = settle(s, op, "sdp")
    if not (t["up"] or t["lo"]) or not t["vals"]:
        return -1
    if op["op"] not in ("dist", "values", "update", "bounds"):
        return -1
    shadow.prog.set_values(None)
    for v in t["vals"]:
        apply(shadow, M, v)
    kn = known_of(shadow)
    out = -1
    for ty in ("up", "lo"):
        if t[ty]:
            for name, b in bound_items(shadow, M,
                                       {**t[ty], "key": "name"}).items():
                if name in kn:
                    out = max(out, (kn[name] - b) * (1 if ty == "up" else -1))
    return out


def contradicts(u, M, s, op, shadow):
    return contradiction(u, M, s, op, shadow) > -1e-7


def negative_known(u, M, op):
    return False


def quiet():
    return NODE.reset(Policy())


def rnd(seed):
    return random.Random(seed)
