"""C12: disk errors during an export are never silent and change nothing.

One or two programs of one scenario, settings and exports in random order.
Each export is performed on a healthy disk first (the reference), then on a
disk that fails at a seeded point of the file - refused open, no space, I/O
error in a write or on close, a kernel that does not let the file grow, and,
harmlessly, short and interrupted writes - and then on a healthy disk again.
A failing disk must make the call raise; a harmless one, or a point past the
end, must not; the last export must be the reference byte for byte, and all
programs must submit and answer what they did before.
"""
import hashlib
import os
import random

from . import disk, progs, scen, w_c05
from .core import Inconclusive
from .mosek_node import NODE, Policy

PROP = "C12"
RUNS = {"quick": 700, "thorough": 20000}
RULE = ("one run = one or two programs, 1-5 exports, each reached through "
        "1-4 consecutive disk faults; non-trivial when at least one fault "
        "struck and the repeated export was compared")
ASSUME = ["files are written through Python's file objects (the kernel limit "
          "covers any other way)"]
STATES = "scenario, format, fault, point"
SDPS = [(n, c) for n, c in scen.SDP if n not in ("bil22", "tri222",
                                                 "tri221_o3")]
FMT = {"lp": ["lp", "mps"], "sdp": ["dat-s", "csv", "mat"]}
HEADER = 116            # of .mat files, contains the date


def gen(rng, tier):
    progs_ = []
    name = None
    for _ in range(rng.choice([1, 1, 2])):
        ptype = "lp" if rng.random() < .5 else "sdp"
        n, col = scen.draw(rng, ptype, None if ptype == "lp" else SDPS)
        progs_.append({"sc": n, "ptype": ptype, "col": col})
    models = [w_c05.pick(rng, scen.get(p["sc"]), p["ptype"]) for p in progs_]
    ops = []
    for _ in range(rng.randint(1, 5)):
        w = rng.randrange(len(progs_))
        for _ in range(rng.randint(0, 3)):
            while True:
                op = w_c05.gen_op(rng, progs_[w]["ptype"], 1, False)
                if op["op"] not in ("export", "query", "regen", "bounds"):
                    break
            ops.append(dict(op, who=w))
        ops.append({"op": "export", "who": w,
                    "fmt": rng.choice(FMT[progs_[w]["ptype"]]),
                    "path": rng.choice(["f.{}", "f.{}", "d.x/g.{}"]),
                    "over": int(rng.random() < .5),
                    "faults": [{"kind": rng.choice(disk.KINDS),
                                "at": rng.choice(
                                    [rng.random(), rng.random(), 0, 1.5,
                                     -rng.randint(1, 40)]),
                                "seed": rng.randrange(1 << 30)}
                               for _ in range(rng.choice([1, 1, 2, 4]))]})
    return {"progs": progs_, "models": models, "ops": ops}


def content(path, fmt):
    with open(path, "rb") as f:
        b = f.read()
    return b[HEADER:] if fmt == "mat" else b


def answer(u, ctx):
    """What the program submits and answers."""
    NODE.reset(Policy())
    try:
        a = u.solve(True, "plain")
    except Exception as e:                           # noqa: BLE001
        return ("raised", type(e).__name__)
    ctx.solves += 1
    return a


def same(a, b):
    return a[0] == b[0] and (a[1] is None or a[0] == "raised"
                             or abs(a[1] - b[1]) <= 1e-4 * (1 + abs(b[1])))


def run(spec, ctx):
    NODE.reset(Policy())
    us, Ms = [], []
    for p, m in zip(spec["progs"], spec["models"]):
        sc = scen.get(p["sc"])
        u = progs.Unit(sc, p["ptype"], p["col"], {}, ctx=ctx)
        if not progs.columns_ok(u):
            raise Inconclusive("too large")
        us.append(u)
        Ms.append(progs.Models(sc, [m]))
    os.makedirs("d.x", exist_ok=True)
    for op in spec["ops"]:
        u, M = us[op["who"]], Ms[op["who"]]
        if op["op"] == "solve":
            continue
        if op["op"] != "export":
            progs.apply(u, M, op, ctx)
            ctx.ev(op["op"])
            continue
        export(ctx, us, u, op)


def export(ctx, us, u, op):
    path, fmt = op["path"].format(op["fmt"]), op["fmt"]
    before = [answer(w, ctx) for w in us]
    ctx.call("write_to_file", u.prog.write_to_file, path)
    size = os.path.getsize(path)
    ref = content(path, fmt)
    what = f"{u.ptype} .{fmt}"
    struck = []
    for f in op["faults"]:
        kind, at = f["kind"], f["at"]
        point = size + at if at < 0 else int(at * size)
        point = max(0, point)
        if not op["over"] and os.path.exists(path):
            os.remove(path)
        d = disk.Disk(kind, point, random.Random(f["seed"]))
        err = None
        with d.mounted():
            try:
                u.prog.write_to_file(path)
            except Exception as e:                   # noqa: BLE001
                err = e
                e.__traceback__ = None
        fired = d.fired > 0 or kind == "kernel" and point < size
        if fired:
            ctx.fault(kind)
            ctx.state(what, kind, point * 20 // max(size, 1), op["over"])
            struck.append(kind)
        ctx.ev("export", what, kind, fired, type(err).__name__)
        if fired and kind not in disk.HARMLESS:
            ctx.require(err is not None, "silent disk error",
                        f"{what}: {kind} at byte {point} of {size}: "
                        "write_to_file returned as if the file were written")
        else:
            ctx.require(err is None, "export failed",
                        f"{what}: {kind} at byte {point} of {size}: "
                        f"{type(err).__name__}: {err}")
            ctx.require(content(path, fmt) == ref, "incomplete file",
                        f"{what}: {kind} at byte {point} of {size}")
        err = None
    ctx.call("write_to_file", u.prog.write_to_file, path)
    got = content(path, fmt)
    ctx.require(got == ref, "file differs after a disk error",
                f"{what}, after {struck}: {len(ref)} bytes before, "
                f"{len(got)} after")
    after = [answer(w, ctx) for w in us]
    for i, (a, b) in enumerate(zip(before, after)):
        ctx.require(same(a, b), "results differ after a disk error",
                    f"{what}, after {struck}: program {i}: {a} versus {b}")
    ctx.ev("after", hashlib.sha256(ref).hexdigest()[:8])
    if struck:
        ctx.probe("decided")
    os.remove(path)


def nontrivial(spec, rec):
    return rec["probes"].get("decided", 0) > 0


def simpler(spec):
    for i, op in enumerate(spec["ops"]):
        if op["op"] == "export" and len(op["faults"]) > 1:
            for f in op["faults"]:
                yield dict(spec, ops=spec["ops"][:i]
                           + [dict(op, faults=[f])] + spec["ops"][i + 1:])
