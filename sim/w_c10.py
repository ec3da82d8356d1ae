"""C10: results do not depend on hash order or declaration order.

The same seeded script runs in four simulated processes that differ in the
interpreter's hash seed and in the order in which the edges of the causal
graph are listed (children of a node, position of the visible nodes' edges
and, in part of the runs, the order of the sources).  Moments are identified
independently of their names by an executable reference (operators up to
commutation, adjoint and relabelling of copies), so the same script means the
same in every process.  Compared are the moments, their names and values
(where the sources keep their order), the submitted polyhedron, the verdicts
and the optimal values.
"""
import base64
import hashlib
import json
import os
import pickle
import random

import numpy as np

from . import core, equiv, lab, progs, ref, refsdp, scen
from .core import Inconclusive, Violation
from .mosek_node import NODE, Policy

PROP = "C10"
RUNS = {"quick": 240, "thorough": 6000}
RULE = ("one run = one script executed in 4 processes with different hash "
        "seeds and edge orders; non-trivial when verdicts were compared")
ASSUME = ["tolerances 1e-6 (LP) and 5e-4 (SDP), relative",
          "four processes stand for all"]
WARM = (False, False)
NW = 4
WORLD = None
STATES = "distinct (scenario, script, results) triples"


def hashseeds():
    s = int(os.environ.get("VERIF_SEED", "1"))
    return [(s * 2654435761 + k * 1000003 + 7) % 4294967291
            for k in range(NW)]


def gen(rng, tier):
    ptype = "lp" if rng.random() < .55 else "sdp"
    pool = None
    if ptype == "sdp":
        pool = [(n, c) for n, c in scen.SDP if n not in
                ("bil22", "tri222", "tri221_o3")]
    name, col = scen.draw(rng, ptype, pool, p=.6)
    sc = scen.get(name)
    opts = {}
    if ptype == "lp" and rng.random() < .15:
        opts["include_all_outcomes"] = True
    models = [lab.pick(rng, sc, ptype) for _ in range(2)]
    if ptype == "sdp":
        for m in models:
            m["eta"] = .1
    ops = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        r = rng.random()
        op = (progs.gen_dist(rng, ptype, 2) if r < .35 else
              progs.gen_values(rng, 2, rng.choice(["values", "update"]))
              if r < .6 else progs.gen_bounds(rng, 1) if r < .75 else
              progs.gen_cons(rng, 1))
        if op.get("key") == "sym":
            op["key"] = "name"
        if "split" in op:
            op["split"] = 0
        ops.append(op)
    probes = []
    for _ in range(3):
        o = progs.gen_obj(rng)
        while not o["terms"]:
            o = progs.gen_obj(rng)
        o["key"], o["split"] = rng.choice(["name", "obj"]), 0
        probes.append({"obj": o, "dual": int(rng.random() < .5)})
    probes.insert(0, {"obj": None, "dual": 1})
    probes.append({"obj": None, "dual": 0, "fao": 1})
    return {"sc": name, "ptype": ptype, "col": col, "opts": opts,
            "models": models, "ops": ops, "probes": probes,
            "worlds": hashseeds(),
            "edges": [0] + [rng.randrange(1, 1 << 20)
                            for _ in range(NW - 1)],
            "perm": int(rng.random() < .5)}


# ------------------------------------------------------- inside one process --
def relisted(sc, seed, perm):
    """The same scenario with its edges listed in another order."""
    if not seed:
        return sc
    r = random.Random(seed)
    names = scen.parties(sc)
    lat = list(sc["cil"]) + list(sc["nil"])
    src = [k for k in sc["dag"] if k not in names and k not in lat]
    new = list(src)
    if perm:
        r.shuffle(new)
    rest = [k for k in sc["dag"] if k not in src]
    r.shuffle(rest)
    keys = list(new)
    for k in rest:
        keys.insert(r.randint(0, len(keys)), k)
    dag = {}
    for k in keys:
        dag[k] = list(sc["dag"][k])
        r.shuffle(dag[k])
    lev = dict(zip(src, sc["lev"]))
    out = dict(sc, dag=dag, lev=[lev[s] for s in new])
    if not isinstance(sc["cl"], str):
        out["cl"] = list(sc["cl"])
        r.shuffle(out["cl"])
    return out


class Ident:
    """Names for moments that do not depend on the program."""

    def __init__(self, base, here, ptype, col):
        self.st = lab.Structure(here)
        base_src = lab.Structure(base).sources
        self.order = [self.st.sources.index(s) for s in base_src]
        self.sdp = refsdp.SDPRef(base, col) if ptype == "sdp" else None
        self.lp = self.sdp.lp if self.sdp else ref.LPRef(base,
                                                         size_only=True)
        self.base = self.lp.st

    def rows(self, f):
        out = []
        for r in f.as_2d_array:
            r = [int(v) for v in r]
            cp = [r[1 + j] for j in self.order]
            out.append((r[0] - 1, tuple((s, c) for s, c in
                                        zip(self.base.sources, cp)
                                        if c > 0), r[-2], r[-1]))
        return out

    def key(self, mon):
        if not self.sdp:
            return str(tuple(sorted(self.lp.canon(self.rows(f))
                                    for f in mon.factors)))
        R = self.sdp
        one = []
        both = []
        for f in mon.factors:
            w = [R.opix[R.lp.ix[i, cp, e], o]
                 for i, cp, e, o in self.rows(f)]
            one.append(R.canon_part(R.normal(w)))
            both.append(R.canon_part(R.normal(tuple(reversed(w)))))
        return str(min(tuple(sorted(one)), tuple(sorted(both))))


class Models(progs.Models):
    def __init__(self, sc, specs, here):
        super().__init__(sc, specs)
        self.here = here

    def value(self, i, mon):
        i %= len(self.models)
        v = 1.0
        for f in mon.factors:
            v *= self.models[i].moment([lab.op_of(self.here, r)
                                        for r in f.as_2d_array])
        return 0.0 if abs(v) < 1e-12 else v


class Unit(progs.Unit):
    """A program whose moments are listed in an order independent of it."""

    def ident(self, base):
        I = Ident(base, self.sc, self.ptype, self.col)
        ms = [m for m in self.moments if not (m.is_zero or m.is_one)]
        self.keys = {m: I.key(m) for m in ms}
        ms.sort(key=lambda m: (len(self.keys[m]), self.keys[m]))
        self._classes = {
            "any": ms,
            "kn": [m for m in ms if m.is_knowable and m.is_atomic],
            "kall": [m for m in ms if m.is_knowable],
            "unk": [m for m in ms if not m.is_knowable],
            "atom": [m for m in ms if m.is_atomic]}


def dig(x):
    return hashlib.sha256(json.dumps(x).encode()).hexdigest()[:16]


def run(spec, ctx):
    """One process's part: only records what happened."""
    base = scen.get(spec["sc"])
    w = spec["world"] if "world" in spec else WORLD
    here = relisted(base, spec["edges"][w], spec["perm"])
    NODE.reset(Policy())
    try:
        u = Unit(here, spec["ptype"], spec["col"], spec["opts"])
    except Exception as e:                           # noqa: BLE001
        if core.from_harness(e):
            raise
        ctx.ev("build raised", type(e).__name__, str(e)[:200])
        return
    if not progs.columns_ok(u):
        raise Inconclusive("too large")
    try:
        u.ident(base)
    except ref.TooLarge:
        raise Inconclusive("too large for the reference")
    cl = u.classes()
    ks = [u.keys[m] for m in cl["any"]]
    ctx.ev("moments", len(ks), len(set(ks)), dig(ks), dig(sorted(
        m.name for m in cl["any"])) if not spec["perm"] else "",
        dig([len(cl[c]) for c in sorted(cl)]))
    M = Models(base, spec["models"], u_st(here))
    for op in spec["ops"]:
        try:
            progs.apply(u, M, op)
            ctx.ev("set", op["op"])
        except Exception as e:                       # noqa: BLE001
            if core.from_harness(e):
                raise
            ctx.ev("set", op["op"], "raised", type(e).__name__)
    kn = sorted((u.keys[m], round(float(v), 9))
                for m, v in u.prog.known_moments.items()
                if m in u.keys and not hasattr(v, "free_symbols"))
    ctx.ev("known", len(kn), dig([k for k, v in kn]),
           [v for k, v in kn] if len(kn) < 40 else
           [v for k, v in kn][::len(kn) // 20])
    if spec.get("margin"):
        u.prog.set_objective(None)
        ctx.ev("margin", u.solve(True, "fao")[1])
        return
    for pr in spec["probes"]:
        try:
            if pr["obj"]:
                progs.apply(u, M, pr["obj"])
            else:
                u.prog.set_objective(None)
            pol = NODE.reset(Policy())
            pol.problems = []
            v = u.solve(bool(pr["dual"]), "fao" if pr.get("fao") else "plain")
            ctx.solves += 1
            ctx.ev("solve", *v)
            if spec["ptype"] == "lp" and not pr["dual"] and pol.problems:
                problem(u, pol.problems[-1], ctx, spec)
        except Exception as e:                       # noqa: BLE001
            if core.from_harness(e):
                raise
            ctx.ev("solve raised", type(e).__name__, str(e)[:100])


def u_st(here):
    return lab.Structure(here)


def problem(u, p, ctx, spec):
    """The submitted polyhedron, its columns in an order independent of the
    program."""
    ms = list(u.prog.monomials)
    if p.nv != len(ms):
        return
    ks = [u.keys.get(m, "1") for m in ms]
    if len(set(ks)) != len(ks):
        return
    o = np.argsort(np.array(ks, dtype=object), kind="stable")
    p.A = p.A.tocsc()[:, o].tocsr()
    p.c, p.blx, p.bux = p.c[o], p.blx[o], p.bux[o]
    rs = sorted((k, round(a, 7) + 0.0, round(b, 7) + 0.0)
                for k, (a, b) in equiv.rows(p).items())
    ctx.ev("problem", dig([str(rs), [round(float(x), 7) + 0.0
                                     for x in p.c], bool(p.maximize)]))
    if spec.get("full"):
        ctx.log[-1].append(base64.b64encode(pickle.dumps(p)).decode())


# ------------------------------------------------------------ across them ---
WORLDS = {}


def worlds(seeds, jobs=2):
    key = tuple(seeds)
    if key not in WORLDS:
        WORLDS[key] = [world_cls()("sim.w_c10", k, h, jobs)
                       for k, h in enumerate(seeds)]
    return WORLDS[key]


def world_cls():
    from .world import World
    return World


def ask(ws, items):
    for w in ws:
        w.send(items)
    return [w.receive() for w in ws]


def tol(ptype):
    return 1e-6 if ptype == "lp" else 5e-4


def judge(spec, recs, again):
    """Merge the processes' records into one; `again(spec, k)` re-executes."""
    out = {"ok": True, "log": recs[0]["log"], "probes": {},
           "faults": {"hash seeds": len(recs),
                      "edge orders": len(recs) - 1,
                      **({"source orders": len(recs) - 1}
                         if spec["perm"] else {})},
           "steps": sum(r["steps"] for r in recs),
           "solves": sum(r["solves"] for r in recs),
           "states": [dig([spec["sc"], recs[0]["log"]])]}
    if any(r["ok"] is None for r in recs):
        out.update(ok=None, error=next(r.get("error", "?") for r in recs
                                       if r["ok"] is None))
        if any(r.get("timeout") for r in recs):
            out["timeout"] = True
        return out
    inc = [r.get("inconclusive") for r in recs]
    if any(inc):
        if not all(inc):
            return bad(out, "size", f"{spec['sc']}: {inc}")
        out["inconclusive"] = inc[0]
        return out
    L = [r["log"] for r in recs]
    decided = 0
    try:
        for k in range(1, len(L)):
            decided += compare(spec, L[0], L[k], k, again, out)
    except Violation as v:
        return bad(out, v.kind, f"{scen.label(spec['sc'])} {spec['ptype']} "
                   f"{spec['col'] or ''}, process {k}: {v.msg}")
    out["probes"]["decided"] = decided
    return out


def bad(out, kind, msg):
    out.update(ok=False, kind=kind, msg=msg[:1200], info={})
    out["log"] = out["log"] + [["VIOLATION", kind]]
    return out


def need(c, kind, msg):
    if not c:
        raise Violation(kind, msg)


def compare(spec, A, B, k, again, out):
    need(len(A) == len(B), "course", f"{[e[0] for e in A]} versus "
         f"{[e[0] for e in B]}")
    n = 0
    for a, b in zip(A, B):
        need(a[0] == b[0], "course", f"{a[:3]} versus {b[:3]}")
        if a[0] == "moments":
            need(a == b, "moments", f"{a} versus {b}")
        elif a[0] == "set":
            need(a == b, "course", f"{a} versus {b}")
        elif a[0] == "known":
            need(a[1:3] == b[1:3], "known moments", f"{a[1:3]} versus "
                 f"{b[1:3]}")
            need(np.allclose(a[3], b[3], atol=1e-6), "known values",
                 f"{a[3]} versus {b[3]}")
        elif a[0] == "problem":
            if a[1] != b[1] and not spec.get("full"):
                s = dict(spec, full=1)
                P, Q = [[pickle.loads(base64.b64decode(e[2]))
                         for e in again(s, w)["log"] if e[0] == "problem"]
                        for w in (0, k)]
                for p, q in zip(P, Q):
                    d = equiv.same_lp(p, q)
                    need(d is None, "submitted problem", str(d))
                out["probes"]["polyhedra compared"] = 1
            n += 1
        elif a[0] == "solve":
            if "none" in (a[1], b[1]):
                out["probes"]["no answer"] = 1
                continue
            if a[1] != b[1]:
                if spec["ptype"] == "sdp":
                    m = [e[1] for e in again(dict(spec, margin=1), 0)["log"]
                         if e[0] == "margin"]
                    if not m or m[0] is None or abs(m[0]) < 1e-4:
                        out["probes"]["borderline"] = 1
                        return n
                need(False, "verdict", f"{a[1:]} versus {b[1:]}")
            if a[2] is not None:
                need(abs(a[2] - b[2]) <= tol(spec["ptype"])
                     * (1 + abs(a[2])), "value", f"{a[1:]} versus {b[1:]}")
            n += 1
    return n


def one(spec):
    ws = worlds(spec["worlds"])

    def again(s, k):
        ws[k].send([[0, s]])
        return ws[k].receive()[0]
    recs = [r[0] for r in ask(ws, [[0, spec]])]
    return judge(spec, recs, again)


def batch(specs, on_result, stop):
    """Chunks of specs, each executed in all processes at once."""
    ws = None
    chunk = []

    def flush():
        res = ask(ws, [[k, s] for k, (i, s) in enumerate(chunk)])

        def again(s, k):
            ws[k].send([[0, s]])
            return ws[k].receive()[0]
        for k, (i, s) in enumerate(chunk):
            on_result(i, s, judge(s, [r[k] for r in res], again))
        chunk.clear()
    for i, s in specs:
        if ws is None:
            ws = worlds(s["worlds"], max(1, core.NPROC // NW))
        chunk.append((i, s))
        if len(chunk) >= 60:
            flush()
            if stop():
                return
    if chunk:
        flush()
