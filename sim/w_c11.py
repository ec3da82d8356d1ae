"""C11: an exported file states the program's current problem.

A random history of settings (with solves, failed solves, interrupted
exports) with exports in between; every file is read back by an independent
reader (sim/files.py), solved, and compared with a new program that was given
the settings in force at that moment.
"""
import os

import numpy as np

from . import files, progs, scen, w_c05
from .core import Inconclusive
from .mosek_node import NODE, Policy

PROP = "C11"
RUNS = {"quick": 700, "thorough": 16000}
RULE = ("one run = one program, a history of 1-8 settings and 1-4 exports "
        "in the formats the program offers; non-trivial when at least one "
        "exported file was read back and its verdict compared")
ASSUME = ["MOSEK's readers of .lp and .mps and the parsers of sim/files.py "
          "understand the formats", "objectives in SDP files are to be "
          "maximised", "the simulated solver is correct to 1e-6 (LP) / 5e-4 "
          "(SDP)"]
STATES = "scenario, settings, format, verdict"
SDPS = [(n, c) for n, c in scen.SDP if n not in ("bil22", "tri222",
                                                 "tri221_o3")]
LPI = [("mono_l2", scen.N2), ("bil11", scen.L1), ("instr_l2", scen.N1),
       ("instr3", scen.N1), ("uc", scen.N1), ("front_c", scen.N1)]
FMT = {"lp": ["lp", "mps"], "sdp": ["dat-s", "csv", "mat"]}


def gen(rng, tier):
    ptype = "lp" if rng.random() < .5 else "sdp"
    name, col = scen.draw(rng, ptype, None if ptype == "lp" else SDPS)
    lpi = ptype == "sdp" and rng.random() < .2
    if lpi:
        name, col = rng.choice([nc for nc in LPI if nc in SDPS])
    sc = scen.get(name)
    opts = {}
    supp = rng.random() < .06 and not lpi
    if supp:
        opts["supports_problem"] = True
    elif ptype == "lp":
        if rng.random() < .15:
            opts["include_all_outcomes"] = True
        if rng.random() < .15:
            opts["default_non_negative"] = False
    models = [w_c05.pick(rng, sc, ptype) for _ in range(2)]
    ops = []
    for _ in range(rng.randint(1, 8)):
        while True:
            op = w_c05.gen_op(rng, ptype, 2, supp)
            if op["op"] not in ("export", "query"):
                break
        if op["op"] == "regen":
            op["col"] = rng.choice(scen.columns(name, SDPS))
        ops.append(op)
        if rng.random() < .15:
            s = progs.gen_solve(rng, ptype)
            if supp:
                s["mode"] = "plain"
            if rng.random() < .3:
                s["fault"] = rng.choice(["license", "stall", "memory"])
            ops.append(s)
        if rng.random() < .25:
            ops.append(gen_export(rng, ptype, supp))
    if lpi:
        ops.append({"op": "regen", "col": col})
        ops.append(progs.gen_dist(rng, ptype, 2) | {"lpi": 1})
        ops.append(progs.gen_obj(rng))
        if rng.random() < .5:
            ops.append(progs.gen_cons(rng, 2))
        ops.append(gen_export(rng, ptype, supp))
    while sum(op["op"] == "export" for op in ops) < 2:
        if not supp and rng.random() < .7:
            o = progs.gen_obj(rng)
            if o["terms"]:
                ops.append(o)
        ops.append(gen_export(rng, ptype, supp))
    return {"sc": name, "ptype": ptype, "col": col, "opts": opts,
            "models": models, "ops": ops, "supp": supp}


def gen_export(rng, ptype, supp):
    fmt = rng.choice(FMT[ptype])
    if supp and fmt == "csv":
        # the moment 1, a variable there, is written like the number 1
        fmt = "mat"
    return {"op": "export", "fmt": fmt,
            "path": rng.choice(["f.{}", "f.{}", "./f.{}", "d.x/f.{}",
                                "a b.{}", "f.v2.{}", "bare", "./bare"])}


def target(op, ptype):
    """(argument of write_to_file, file that has to appear)."""
    p = op["path"]
    if "{}" in p:
        f = p.format(op["fmt"])
        return f, f, op["fmt"]
    ext = "lp" if ptype == "lp" else "dat-s"
    return p, f"{p}.{ext}", ext


def clean(name):
    return name.replace(" ", "").replace(",;", ";")


def run(spec, ctx):
    sc = scen.get(spec["sc"])
    M = progs.Models(sc, spec["models"])
    NODE.reset(Policy())
    u = progs.Unit(sc, spec["ptype"], spec["col"], spec["opts"], ctx=ctx)
    if not progs.columns_ok(u):
        raise Inconclusive("too large")
    os.makedirs("d.x", exist_ok=True)
    shadow = None
    s = progs.blank()
    for op in spec["ops"]:
        k = op["op"]
        if k == "solve":
            pol = NODE.reset(Policy())
            if op.get("fault"):
                pol.plan = {0: {"kind": op["fault"], "seed": 1}}
                ctx.fault(op["fault"])
            try:
                u.solve(bool(op["dual"]), op["mode"])
            except BaseException as e:               # noqa: BLE001
                if not op.get("fault"):
                    raise
            NODE.reset(Policy())
            ctx.ev("solve", op.get("fault"))
            continue
        if k == "export":
            export(spec, ctx, u, M, s, op)
            continue
        t = progs.settle(s, op, u.ptype)
        if u.ptype == "sdp" and not spec["supp"] and (t["up"] or t["lo"]) \
                and t["vals"] and k in ("dist", "values", "update",
                                        "bounds"):
            if shadow is None or shadow.col != u.col:
                shadow = progs.Unit(sc, "sdp", u.col, u.opts)
            if progs.contradicts(u, M, s, op, shadow):
                ctx.ev("skip", k)
                continue
        progs.apply(u, M, op, ctx)
        s = t
        ctx.ev(k)


def export(spec, ctx, u, M, s, op):
    arg, path, fmt = target(op, u.ptype)
    ctx.call("write_to_file", u.prog.write_to_file, arg)
    ctx.require(os.path.isfile(path), "no file", f"{arg} -> {path}")
    r = progs.fresh(u, M, s, ctx)
    what = f"{scen.label(spec['sc'])} {u.ptype} .{fmt}"
    ctx.probe(f"exported .{fmt}")
    try:
        if u.ptype == "lp":
            lp_file(spec, ctx, u, r, s, path, what)
        else:
            sdp_file(spec, ctx, u, r, s, path, fmt, what)
    except files.Malformed as e:
        ctx.require(False, "unreadable file", f"{what}: {e}")
    os.remove(path)


def lp_file(spec, ctx, u, r, s, path, what):
    NODE.reset(Policy())
    v, val = ctx.call("solve", r.solve, False, "plain")
    w, wal, sense = files.solve_lp(path)
    ctx.solves += 2
    ctx.ev("file", what, v, w)
    ctx.state(scen.label(spec["sc"]), s, what, v)
    if "none" in (v, w):
        ctx.probe("no verdict")
        return
    ctx.require(v == w, "file decides differently",
                f"{what}: program {v} {val}, file {w} {wal}")
    ctx.probe("decided")
    ctx.probe(f"decided: {v}")
    if v != "feasible" or spec["supp"]:
        return
    want = s["obj"]["dir"] if s["obj"] else "max"
    if sense != want:
        wal = -wal
    ctx.require(abs(val - wal) <= 2e-6 * (1 + abs(val)),
                "file has another optimum",
                f"{what}: program {val:.9g}, file {wal:.9g}")


def sdp_file(spec, ctx, u, r, s, path, fmt, what):
    P = read(u, r, path, fmt)
    p = r.prog
    if hasattr(P, "given"):
        mm = np.asarray(p.momentmatrix)
        kn = {m.idx: v for m, v in p.known_moments.items()}
        for (i, j), c in P.given.items():
            ctx.require(int(mm[i, j]) in kn or int(mm[i, j]) == 0,
                        "known value in the file only",
                        f"{what}: cell {i},{j}")
        for i in range(len(mm)):
            for j in range(i, len(mm)):
                k = int(mm[i, j])
                if k in kn:
                    ctx.require((i, j) in P.given and
                                abs(P.given[i, j] - kn[k]) < 1e-9,
                                "known value", f"{what}: cell {i},{j}: "
                                f"{P.given.get((i, j))}, program {kn[k]}")
    if not spec["supp"]:
        content(ctx, P, p, what)
    NODE.reset(Policy())
    if spec["supp"]:
        v, val = ctx.call("solve", r.solve, True, "plain")
        w, wal = P.solve()
        ctx.ev("file", what, v, w)
        if "unknown" in (w,) or v == "none" or v != w:
            ctx.probe("borderline")
            return
        ctx.probe("decided")
        return
    obj = bool(s["obj"])
    if obj:
        r.prog.set_objective(None)
    f = ctx.call("solve", r.solve, True, "fao")
    g = P.solve(fao=True)
    ctx.solves += 2
    ctx.ev("file", what, f[0], g[0])
    ctx.state(scen.label(spec["sc"]), s, what, f[0])
    if f[0] == "none" or g[0] == "unknown":
        ctx.probe("no verdict")
        return
    if f[0] != g[0]:
        # the linear constraints may be on the edge
        loose, tight = edge(P, 1e-4), edge(P, -1e-4)
        if loose != tight or "unknown" in (loose, tight):
            ctx.probe("borderline")
            return
    ctx.require(f[0] == g[0], "file decides differently",
                f"{what}: program {f[0]} {f[1]}, file {g[0]} {g[1]}")
    ctx.probe("decided")
    if f[0] != "feasible":
        return
    ctx.require(abs(f[1] - g[1]) <= 2e-5, "file has another margin",
                f"{what}: program {f[1]:.6g}, file {g[1]:.6g}")
    ctx.probe("decided: " + ("feasible" if f[1] > -1e-6 else "refuted"))
    if not obj or f[1] < 1e-4:
        return
    progs.apply(r, M_of(r, spec), s["obj"], ctx)
    v, val = ctx.call("solve", r.solve, True, "plain")
    w, wal = P.solve()
    ctx.solves += 2
    if v == "none" or w == "unknown" or v != w and "unbounded" in (v, w):
        ctx.probe("no verdict")
        return
    ctx.require(v == w, "file decides differently",
                f"{what}: program {v} {val}, file {w} {wal}")
    if s["obj"]["dir"] == "min":
        wal = -wal
    if spec.get("sense") and fmt == "dat-s":
        # as SDPA itself reads the file: c.x is minimised
        P.c = -P.c
        x, xal = P.solve()
        ctx.require(x == v and abs(val + xal) <= 5e-4 * (1 + abs(val)),
                    "objective sense", f"{what}: the program's optimum is "
                    f"{val:.8g}, SDPA minimises and gets {-xal:.8g}")
    ctx.require(abs(val - wal) <= 5e-4 * (1 + abs(val)),
                "file has another optimum",
                f"{what}: program {val:.8g}, file {wal:.8g}")
    ctx.probe("optimum compared")


def content(ctx, P, p, what):
    """The file's matrix, objective and constraints, number by number, against
    the program's, its known values and proportionalities substituted."""
    mm = np.asarray(p.momentmatrix)
    name = {int(m.idx): m.name for m in p.moments}
    known = {m.name: float(v) for m, v in p.known_moments.items()}
    semi = {m.name: (float(c), x.name)
            for m, (c, x) in p.semiknown_moments.items()}

    def fold(items):
        out, const = {}, 0.0
        for n, a in items:
            a = float(a)
            for _ in range(20):
                if n in known or n not in semi:
                    break
                a *= semi[n][0]
                n = semi[n][1]
            if n in ("1", "constant_term"):
                const += a
            elif n == "0":
                pass
            elif n in known:
                const += a * known[n]
            else:
                out[n] = out.get(n, 0) + a
        return {n: a for n, a in out.items() if abs(a) > 1e-12}, const
    own = {}
    for (i, j), k in P.pos.items():
        own[i, j] = fold([(name[int(mm[i, j])], 1)]) if mm[i, j] else ({}, 0)
    w = P.sv.w
    var = {}                            # variable of the file -> moment
    for (i, j), k in P.pos.items():
        vs = np.flatnonzero(np.abs(P.M[k]) > 1e-12)
        lin = own[i, j][0]
        if len(vs) == 1 and len(lin) == 1 and abs(
                P.M[k, vs[0]] / w[k] - 1) < 1e-9 and list(lin.values()) == [1]:
            var.setdefault(int(vs[0]), next(iter(lin)))

    def form(row, const):
        """None if it contains a variable that is no moment of the matrix."""
        out = {}
        for v in np.flatnonzero(np.abs(row) > 1e-12):
            if int(v) not in var:
                return None
            n = var[int(v)]
            out[n] = out.get(n, 0) + float(row[v])
        return out, float(const)

    def same(a, b, tol=1e-6):
        return abs(a[1] - b[1]) < tol and all(
            abs(a[0].get(n, 0) - b[0].get(n, 0)) < tol
            for n in set(a[0]) | set(b[0]))
    for (i, j), k in sorted(P.pos.items()):
        f = form(P.M[k] / w[k], P.M0[k] / w[k])
        if f is not None:
            ctx.require(same(f, own[i, j]), "cell of the matrix",
                        f"{what}: cell {i},{j}: file {f}, "
                        f"program {own[i, j]}")
    f = form(P.c, 0)
    o = fold([(m.name, c) for m, c in p.objective.items()])
    if f is not None:
        ctx.require(same(f, (o[0], 0)), "objective", f"{what}: file {f[0]}, "
                    f"program {o[0]}")
        ctx.probe("objective read back")
    # rows of the program have to be in the file (or be implied), and back
    rows = {"eq": [form(a, -b) for a, b in zip(P.A, P.b)],
            "ge": [form(-g, h) for g, h in zip(P.G, P.h)]}
    mine = {"eq": [fold((m.name, c) for m, c in e.items())
                   for e in p.moment_equalities],
            "ge": [fold((m.name, c) for m, c in e.items())
                   for e in p.moment_inequalities]}
    for bounds, sg in ((p.moment_lowerbounds, 1), (p.moment_upperbounds, -1)):
        for m, b in bounds.items():
            lin, c = fold([(m.name, sg)])
            mine["ge"].append((lin, c - sg * float(b)))

    def norm(f, kind):
        """Scaled; None for rows without variables."""
        lin = {n: a for n, a in f[0].items() if abs(a) > 1e-9}
        if not lin:
            return None
        s = max(abs(a) for a in lin.values())
        if kind == "eq" and lin[min(lin)] < 0:
            s = -s
        return {n: a / s for n, a in lin.items()}, f[1] / s
    for kind in ("eq", "ge"):
        F = [norm(f, kind) for f in rows[kind] if f is not None]
        Q = [norm(f, kind) for f in mine[kind]]
        skip = len(F) < len(rows[kind])
        F, Q = ([f for f in x if f] for x in (F, Q))
        if kind == "ge":
            # only the tightest of parallel inequalities counts
            F, Q = ([f for f in x if not any(
                g is not f and same((g[0], 0), (f[0], 0)) and g[1] < f[1] - 1e-7
                for g in x)] for x in (F, Q))
        for a, b, txt in ((F, Q, "in the file only"),
                          (Q, F, "missing in the file")):
            if skip and a is Q:
                continue
            for f in a:
                ctx.require(any(same(f, g) for g in b), "constraint " + txt,
                            f"{what}: {kind} {f}")
        if Q:
            ctx.probe(f"{kind} read back")
    if semi:
        ctx.probe("proportional moments read back")


def M_of(r, spec):
    return progs.Models(r.sc, spec["models"])


def edge(P, d):
    h = P.h
    P.h = [x + d for x in h]
    try:
        return P.solve(fao=True)[0]
    finally:
        P.h = h


def read(u, r, path, fmt):
    if fmt == "dat-s":
        return files.read_sdpa(path)
    if fmt == "mat":
        P = files.read_mat(path)
        return P
    known = {}
    for m, v in r.prog.known_moments.items():
        if not (m.is_one or m.is_zero):
            known[clean(m.name)] = float(v)
    semi = {clean(m.name): (float(c), clean(x.name))
            for m, (c, x) in r.prog.semiknown_moments.items()}
    return files.read_csv(path, known, semi)


def nontrivial(spec, rec):
    return rec["probes"].get("decided", 0) > 0


def simpler(spec):
    for i, op in enumerate(spec["ops"]):
        for f in ("terms", "refs", "list"):
            if op.get(f) and len(op[f]) > 1:
                for j in range(len(op[f])):
                    o = dict(op)
                    o[f] = op[f][:j] + op[f][j + 1:]
                    yield dict(spec, ops=spec["ops"][:i] + [o]
                               + spec["ops"][i + 1:])
