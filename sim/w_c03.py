"""C03: certificates of infeasibility are valid and self-consistent.

A distribution the program refuses is offered; whenever it is refuted (with
the solver free to choose among dual answers) every form of the certificate is
read, compared with the others, evaluated on the refuted distribution and on
realisable ones drawn independently.
"""
import re
import zlib

import numpy as np

from . import outlaw, progs, scen
from .core import Inconclusive
from .lab import Structure, pick
from .mosek_node import NODE, Policy

PROP = "C03"
RUNS = {"quick": 1500, "thorough": 24000}
RULE = ("one run = one scenario, one offered distribution, up to 3 solves, "
        "3 realisable distributions; non-trivial when a certificate of a "
        "refuted distribution was obtained and evaluated")
ASSUME = ["the independent scenario model and marginals are right",
          "the simulated solver returns a valid dual ray / dual solution "
          "(1e-7 LP, 1e-5 SDP, relative)"]


def gen(rng, tier):
    ptype = "lp" if rng.random() < .62 else "sdp"
    name, col = scen.draw(rng, ptype)
    if (not scen.get(name)["lev"] or max(scen.get(name)["lev"]) < 2) \
            and rng.random() < .5:
        pool = scen.LP if ptype == "lp" else scen.SDP
        name = rng.choice(pool)
        name, col = (name, None) if ptype == "lp" else name
    sc = scen.get(name)
    opts = {}
    if ptype == "lp":
        if rng.random() < .15:
            opts["include_all_outcomes"] = True
        if rng.random() < .15:
            opts["default_non_negative"] = False
    models = [pick(rng, sc, ptype) for _ in range(3)]
    for m in models[1:]:
        if rng.random() < .5:
            m["eta"] = rng.choice([.02, .1, .4])
    bad = {"kind": rng.choice(["correlated", "array", "stronger", "ghz"]),
           "seed": rng.randrange(1 << 30),
           "v": rng.choice([1.0, 1.0, .9, .75])}
    ops = []
    extra = rng.random()
    if extra < .1 and ptype == "lp":
        ops.append(progs.gen_bounds(rng, 1) | {"m": 0})
    elif extra < .25:
        ops.append(progs.gen_cons(rng, 1) | {"m": 0})
    elif extra < .35:
        o = progs.gen_obj(rng)
        ops.append(o)
    pre = []
    if rng.random() < .3:
        pre = [{"op": "dist", "m": rng.randrange(3)},
               progs.gen_solve(rng, ptype)]
    solves = []
    for _ in range(rng.randint(1, 3)):
        modes = ["plain", "fao"] + (["relax", "relaxkv", "plain"]
                                    if ptype == "lp" else ["fao"])
        solves.append({"dual": int(rng.random() < .65),
                       "mode": rng.choice(modes),
                       "alt": rng.choice([None, rng.randrange(1 << 20)]),
                       "decimals": rng.choice([3, 3, 2, 5]),
                       "chop": rng.choice([1e-10, 1e-10, 1e-8, 0]),
                       "order": rng.sample(range(4), 4)})
    return {"sc": name, "ptype": ptype, "col": col, "opts": opts,
            "models": models, "bad": bad, "sr": int(rng.random() < .25),
            "ops": ops, "pre": pre, "solves": solves}


NUM = re.compile(r"[+-]?\d+(?:\.\d*)?(?:e[+-]?\d+)?")


def parse(text, names):
    """Independent reading of a certificate string."""
    assert text.endswith(" < 0"), text[-20:]
    s = text[:-4]
    names = sorted(names, key=len, reverse=True)
    out, pos = {}, 0
    while pos < len(s):
        sign = 1.0
        if s[pos] in "+-":
            sign = -1.0 if s[pos] == "-" else 1.0
            pos += 1
        nm = next((n for n in names if n != "1" and s.startswith(n, pos)),
                  None)
        coeff = 1.0
        if nm is None:
            m = NUM.match(s, pos)
            if not m:
                raise ValueError(f"cannot read {s[pos:pos + 30]!r}")
            coeff = float(m.group())
            pos = m.end()
            if pos < len(s) and s[pos] == "*":
                pos += 1
                nm = next((n for n in names if s.startswith(n, pos)), None)
                if nm is None:
                    raise ValueError(f"cannot read {s[pos:pos + 30]!r}")
        if nm is not None:
            pos += len(nm)
        key = nm or "1"
        out[key] = out.get(key, 0.0) + sign * coeff
    return out


def same(a, b, tol):
    return all(abs(a.get(k, 0) - b.get(k, 0)) <= tol * (1 + abs(a.get(k, 0)))
               for k in set(a) | set(b))


def forms(ctx, u, op):
    """Read every form, in the seeded order, and compare."""
    p = u.prog
    kw = dict(round_decimals=op["decimals"], chop_tol=op["chop"])
    got = {}
    for which in op["order"]:
        if which == 0:
            got["raw"] = ctx.call("certificate_as_dict",
                                  p.certificate_as_dict, clean=False)
        elif which == 1:
            got["clean"] = ctx.call("certificate_as_dict",
                                    p.certificate_as_dict, **kw)
        elif which == 2:
            got["probs"] = ctx.call("certificate_as_probs",
                                    p.certificate_as_probs, **kw)
        else:
            got["text"] = ctx.call("certificate_as_string",
                                   p.certificate_as_string, **kw)
    raw = {("1" if m.is_one else m.name): float(c)
           for m, c in got["raw"].items()}
    clean = {("1" if m.is_one else m.name): float(c)
             for m, c in got["clean"].items()}
    again = {("1" if m.is_one else m.name): float(c)
             for m, c in p.certificate_as_dict(clean=False).items()}
    ctx.require(same(raw, again, 1e-12), "unstable certificate",
                "reading the certificate changed it")
    # clean = rescaled and rounded raw
    top = max(clean, key=lambda k: abs(clean[k]), default=None)
    if raw and clean[top]:
        ctx.require(top in raw, "rounding", f"{top} only in the clean form")
        f = raw[top] / clean[top]       # up to the rounding of this one
        ctx.require(f > 0, "rounding", f"sign of {top} changed by cleaning")
        half = .5000001 * 10.0 ** -op["decimals"]
        rel = half / abs(clean[top])
        for k in raw:
            d = abs(clean.get(k, 0) - raw[k] / f)
            ctx.require(d <= half + (rel + 1e-9) * abs(raw[k] / f) + op["chop"]
                        / f, "rounding", f"coefficient of {k}: "
                        f"{clean.get(k, 0)} for {raw[k]} / {f}")
    # polynomial
    vals = {}
    subs = {}
    for m in got["clean"]:
        for y in sorted(m.symbol.free_symbols, key=str):
            subs[y] = (zlib.crc32(str(y).encode()) % 9973 + 1) / 9974
        vals["1" if m.is_one else m.name] = float(m.symbol.subs(subs))
    names = sorted(clean)
    ex = got["probs"]
    num = float(ex.subs(subs)) if hasattr(ex, "subs") else float(ex)
    want = sum(c * vals[n] for n, c in clean.items())
    tol = 1e-7 * (1 + sum(abs(c) for c in clean.values()))
    ctx.require(abs(num - want) <= tol, "forms differ",
                f"polynomial form gives {num:.8g}, dictionary {want:.8g}")
    try:
        txt = parse(got["text"], names)
    except ValueError as e:
        ctx.require(False, "forms differ", f"text form: {e}")
    num = sum(c * vals.get(n, 0) for n, c in txt.items())
    unknown = set(txt) - set(names) - {"1"}
    ctx.require(not unknown and abs(num - want) <= tol * 3 + 2e-5 * sum(
        1 for c in clean.values() if abs(abs(c) - 1) < 2e-5),
        "forms differ", f"text form gives {num:.8g}, dictionary {want:.8g}")
    ctx.probe("forms compared")
    return got["raw"], got["clean"]


def run(spec, ctx):
    sc = scen.get(spec["sc"])
    st = Structure(sc)
    M = progs.Models(sc, spec["models"])
    NODE.reset(Policy())
    u = progs.Unit(sc, spec["ptype"], spec["col"], spec["opts"], ctx=ctx)
    if not progs.columns_ok(u):
        raise Inconclusive("too large")
    p = u.prog
    for op in spec["pre"]:
        if op["op"] == "solve":
            ctx.call("solve", u.solve, bool(op["dual"]), op["mode"])
        else:
            progs.apply(u, M, op, ctx)
    P = outlaw.make(sc, spec["bad"])
    ctx.call("set_distribution", p.set_distribution, P.copy(),
             shared_randomness=bool(spec["sr"]))
    constrained = False
    for op in spec["ops"]:
        progs.apply(u, M, op, ctx)
        constrained |= op["op"] != "obj"
    known = {m for m in p.known_moments}
    for op in spec["solves"]:
        pol = NODE.reset(Policy())
        if op["alt"] is not None and u.ptype == "lp":
            pol.alt = progs.rnd(op["alt"])
            ctx.fault("alternative dual")
        dual, mode = bool(op["dual"]), op["mode"]
        v, val = ctx.call("solve", u.solve, dual, mode)
        ctx.solves += 1
        ctx.ev("solve", mode, dual, v)
        hasobj = any(o["op"] == "obj" and o["terms"] for o in spec["ops"])
        lp = u.ptype == "lp"
        if v == "infeasible":
            ray = True
        elif v == "feasible" and mode != "plain" and not hasobj \
                and val < -1e-4:
            ray = False
        else:
            ctx.probe("not refuted" if v == "feasible" else "no verdict")
            continue
        if not lp and v == "infeasible" and mode == "plain":
            # the interior-point method must be clear about it
            NODE.reset(Policy())
            u2 = ctx.call("solve", u.solve, True, "plain")
            if u2[0] != "infeasible":
                ctx.probe("borderline")
                continue
            NODE.reset(Policy())
            ctx.call("solve", u.solve, dual, mode)
        ctx.probe("decided")
        raw, clean = forms(ctx, u, op)
        what = (f"{spec['sc']} {u.ptype} {spec['col'] or ''} {mode} "
                f"{'dual' if dual else 'primal'}")
        for m in raw:
            ctx.require(m in known or m.is_one or abs(raw[m]) < 1e-8,
                        "unknown moment in certificate", f"{what}: {m}")
        scale = max([abs(c) for c in raw.values()], default=0.0)
        pv = {}
        for m in set(raw) | set(clean):
            pv[m] = 1.0 if m.is_one else (0.0 if m.is_zero else
                                          outlaw.mon_value(st, P, m))
        at = sum(c * pv[m] for m, c in raw.items())
        ctx.require(raw and at < 0, "not negative on the refuted "
                    "distribution", f"{what}: value {at:.6g}, scale "
                    f"{scale:.3g}")
        tol = (1e-6 if lp else 2e-5) * max(scale, 1e-9) * (
            1 if lp else 3)
        if not ray:
            ctx.require(abs(at - val) <= max(tol * 10, 1e-5),
                        "certificate value", f"{what}: certificate gives "
                        f"{at:.6g}, optimum {val:.6g}")
        # evaluation by the program
        ev = ctx.call("evaluate_certificate", p.evaluate_certificate,
                      P.copy())
        if spec["solves"] and op["decimals"] == 3 and op["chop"] == 1e-10:
            want = sum(c * pv[m] for m, c in clean.items())
            ctx.require(abs(ev - want) <= 1e-7 * (1 + sum(
                abs(c) for c in clean.values())), "evaluation",
                f"{what}: evaluate_certificate {ev:.8g}, by hand {want:.8g}")
        cs = max([abs(c) for c in clean.values()], default=0.0)
        slack = .5 * 10.0 ** -op["decimals"] * len(clean) + tol / max(
            scale, 1e-12) * cs
        for i in range(1 if constrained else len(spec["models"])):
            Q = M.P(i)
            if constrained and M.etas[i]:
                continue
            qv = {m: 1.0 if m.is_one else (0.0 if m.is_zero else
                                           outlaw.mon_value(st, Q, m))
                  for m in pv}
            q = sum(c * qv[m] for m, c in raw.items())
            ctx.probe("evaluated on realisable")
            ctx.require(q >= -tol, "negative on a realisable distribution",
                        f"{what}: {M[i].style} realisation gives {q:.6g} "
                        f"(scale {scale:.3g}, refuted one {at:.4g})")
            q = sum(c * qv[m] for m, c in clean.items())
            ctx.require(q >= -slack - 1e-6, "negative on a realisable "
                        "distribution", f"{what}: cleaned certificate gives "
                        f"{q:.6g} on a {M[i].style} realisation")
        ctx.state(scen.label(spec["sc"]), u.ptype, spec["col"], mode, dual,
                  sorted((m.name, round(c, 2)) for m, c in clean.items()))


def simpler(spec):
    if len(spec["solves"]) > 1:
        for s in spec["solves"]:
            yield dict(spec, solves=[s])
    if spec["pre"]:
        yield dict(spec, pre=[])
    if spec["bad"].get("v", 1) != 1:
        yield dict(spec, bad=dict(spec["bad"], v=1.0))
