"""Entry point: check.sh <ID> quick|thorough, check.sh replay FILE, setup."""
import glob
import hashlib
import importlib
import json
import os
import re
import subprocess
import sys
import time

from . import core

MAX_REPORT = 4          # violation classes minimised and reported per check


def module(prop):
    return importlib.import_module(f"sim.w_{prop.lower()}")


def known_findings(prop):
    f = os.path.join(core.HOME, "known_findings.json")
    if not os.path.exists(f):
        return []
    with open(f) as fh:
        return [k for k in json.load(fh)["findings"]
                if k["property"] == prop]


def matches(k, rec):
    return (k["kind"] == rec["kind"]
            and re.search(k.get("match", ""), rec["msg"]) is not None)


def logdigest(rec):
    return hashlib.sha256(json.dumps(rec["log"]).encode()).hexdigest()[:16]


def specdigest(spec):
    s = {k: v for k, v in spec.items() if k not in ("i",)}
    return hashlib.sha256(json.dumps(s, sort_keys=True).encode()
                          ).hexdigest()[:16]


class Totals:
    def __init__(self):
        self.n = self.nontrivial = self.incon = self.steps = self.solves = 0
        self.simtime = 0
        self.seen = set()
        self.probes, self.faults = {}, {}
        self.states, self.hist = set(), set()
        self.samples, self.fails, self.errors = [], [], []
        self.scen = {}
        self.logh = {}
        self.redo = []

    def add(self, mod, i, spec, rec):
        self.n += 1
        self.steps += rec["steps"]
        self.solves += rec["solves"]
        for d, s in ((self.probes, rec["probes"]),
                     (self.faults, rec["faults"])):
            for k, v in s.items():
                d[k] = d.get(k, 0) + v
        self.states.update(rec["states"])
        h = logdigest(rec)
        self.logh[i] = h
        self.hist.add(h)
        if i % 97 == 5 and len(self.redo) < 4 and rec["ok"]:
            self.redo.append((i, spec))
        name = spec.get("sc")
        if isinstance(name, str):
            self.scen[name] = self.scen.get(name, 0) + 1
        if rec["ok"] is False:
            self.fails.append((i, spec, rec))
        elif rec["ok"] is None:
            self.errors.append((i, spec, rec))
        elif rec.get("inconclusive"):
            self.incon += 1
            k = "inconclusive: " + rec["inconclusive"][:60]
            self.probes[k] = self.probes.get(k, 0) + 1
        else:
            nt = getattr(mod, "nontrivial",
                         lambda s, r: r["probes"].get("decided", 0) > 0)
            if nt(spec, rec):
                d = specdigest(spec)
                if d not in self.seen:
                    self.seen.add(d)
                    self.nontrivial += 1
                    if len(self.samples) < 3:
                        self.samples.append({
                            "run": i, "spec": spec,
                            "log_tail": rec["log"][-6:]})


def write_replay(prop, seed, tier, i, spec, rec):
    os.makedirs(os.path.join(core.HOME, "replays"), exist_ok=True)
    kind = re.sub(r"[^A-Za-z0-9]+", "-", rec["kind"])[:40]
    path = os.path.join(core.HOME, "replays", f"{prop}-{kind}-{i}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "seed": seed, "tier": tier, "run": i,
                   "hashseed": os.environ.get("PYTHONHASHSEED"),
                   "kind": rec["kind"], "msg": rec["msg"],
                   "info": rec.get("info"), "spec": spec,
                   "log": rec["log"]}, f, indent=1)
    return path


def replay_in_fresh_process(path):
    r = subprocess.run([os.path.join(core.HOME, "check.sh"), "replay", path],
                       capture_output=True, text=True, timeout=300)
    return r.returncode == 1 and "REPRODUCED exactly" in r.stdout, r.stdout


def replay(path):
    with open(path) as f:
        d = json.load(f)
    if d.get("hashseed") is not None and \
            os.environ.get("PYTHONHASHSEED") != d["hashseed"]:
        os.environ["PYTHONHASHSEED"] = d["hashseed"]
        os.execv(sys.executable, [sys.executable, "-W", "ignore", "-m",
                                  "sim.main", "replay", path])
    mod = module(d["property"])
    prepare(mod)
    rec = one(mod, d["spec"])
    for e in rec["log"]:
        print("  ", json.dumps(e)[:400])
    if rec["ok"] is False:
        same = rec["kind"] == d["kind"] and rec["log"] == d["log"]
        print(f"{rec['kind']}: {rec['msg']}")
        print("REPRODUCED exactly" if same else "violation, but a different "
              "execution")
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    if rec["ok"] is None:
        print(rec["error"])
        return 2
    print("no violation on this tree")
    return 0


def one(mod, spec):
    if hasattr(mod, "one"):
        return mod.one(spec)
    return core.Pool(mod, 1, getattr(mod, "LIMIT", 240)).one(spec)


def prepare(mod):
    from . import warm
    warm.load()
    warm.warm(*getattr(mod, "WARM", (True, True)))


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = module(prop)
    prepare(mod)
    t_warm = time.time() - t0
    n = mod.RUNS[tier]
    if os.environ.get("VERIF_RUNS"):
        n = int(os.environ["VERIF_RUNS"])
    first = int(os.environ.get("VERIF_FIRST", "0"))
    cap = float(os.environ.get("VERIF_CAP", "420" if tier == "quick"
                               else "3000"))
    known = known_findings(prop)
    tot = Totals()
    pool = core.Pool(mod, core.NPROC, getattr(mod, "LIMIT", 240))
    timed_out = False

    def specs():
        for i in range(first, first + n):
            spec = mod.gen(core.rng_for(seed, prop, i), tier)
            yield i, spec

    def stop():
        nonlocal timed_out
        if time.time() - t0 > cap:
            timed_out = True
        new = {r["kind"] for _, _, r in tot.fails
               if not any(matches(k, r) for k in known)}
        nfail = sum(1 for f in tot.fails)
        # a broken tree need not be explored to the end
        return timed_out or (len(new) >= 1 and nfail >= 24
                             and not os.environ.get("VERIF_ALL"))

    if hasattr(mod, "batch"):
        mod.batch(specs(), lambda i, s, r: tot.add(mod, i, s, r), stop)
    else:
        pool.map(specs(), lambda i, s, r: tot.add(mod, i, s, r), stop)

    # a run that was killed: once more, alone, before calling it a hang
    errors = []
    for i, spec, rec in tot.errors:
        if rec.get("timeout"):
            again = one(mod, spec)
            if again.get("timeout"):
                again.update(ok=False, kind="hang", msg="the run did not end "
                             f"within {pool.limit} s, twice")
                tot.fails.append((i, spec, again))
            elif again["ok"] is False:
                tot.fails.append((i, spec, again))
            elif again["ok"] is None:
                errors.append((i, spec, again))
        else:
            errors.append((i, spec, rec))

    # determinism: some runs once more, event by event
    again = [(i, s) for i, s in tot.redo if i in tot.logh]
    redo = {"runs": 0, "identical": 0}
    for i, spec in again:
        if time.time() - t0 > cap:
            break
        redo["runs"] += 1
        redo["identical"] += logdigest(one(mod, spec)) == tot.logh[i]

    # known findings are re-executed from the committed file
    rc = 0
    for k in known:
        rec = one(mod, k["spec"])
        if rec["ok"] is False and matches(k, rec):
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
        elif rec["ok"] is False:
            tot.fails.append((-1, k["spec"], rec))
        else:
            print(f"note: known finding no longer fails: {k['what']}")
    fails = [(i, s, r) for i, s, r in tot.fails
             if not any(matches(k, r) for k in known)]
    fails.sort(key=lambda f: (f[2]["kind"], f[0]))
    groups = {}
    for i, s, r in fails:
        groups.setdefault(r["kind"], []).append((i, s, r))
    reports = []
    for kind, lst in sorted(groups.items(), key=lambda g: -len(g[1])):
        if len(reports) >= MAX_REPORT:
            break
        i, spec, rec = lst[0]
        trials = 0
        if kind != "hang" and not os.environ.get("VERIF_NOMIN"):
            small, trials = core.minimise(
                pool if not hasattr(mod, "one") else Serial(mod), mod, spec,
                kind, budget_s=30)
            rec2 = one(mod, small)
            if rec2["ok"] is False and rec2["kind"] == kind:
                spec, rec = small, rec2
        path = write_replay(prop, seed, tier, i, spec, rec)
        good = None
        if kind != "hang" and not os.environ.get("VERIF_NOMIN"):
            good, out = replay_in_fresh_process(path)
        print(f"{kind} ({len(lst)} runs, first run {i}, {trials} minimisation"
              f" trials, replay {'exact' if good else good}): {rec['msg']}")
        print(f"VIOLATION property={prop} replay={path}")
        reports.append(path)
        rc = 1
    for i, spec, rec in errors[:3]:
        print(f"HARNESS ERROR run {i}: {json.dumps(spec)[:600]}\n"
              f"{rec['error']}", file=sys.stderr)
    if errors and rc == 0:
        rc = 2
    if timed_out:
        print(f"note: stopped at the {cap:.0f} s cap after {tot.n} runs")
    wall = time.time() - t0
    body = wall - t_warm
    cov = {
        "evaluations": tot.n,
        "distinct_nontrivial": tot.nontrivial,
        "rule": mod.RULE,
        "samples": tot.samples or [{"note": "none"}],
        "seeds": f"VERIF_SEED={seed}, runs {first}..{first + n - 1}",
        "runs_per_hour": round(tot.n / max(body, 1e-9) * 3600),
        "simulated_steps": tot.steps,
        "simulated_solves": tot.solves,
        "faults_injected": tot.faults,
        "checks_made": tot.probes,
        "distinct_histories": len(tot.hist),
        "distinct_states": len(tot.states),
        "states_measure": getattr(mod, "STATES", "distinct (scenario, "
                                  "settings in force, result) triples"),
        "scenarios": tot.scen,
        "inconclusive": tot.incon,
        "executed_twice": redo,
        "history_digest": hashlib.sha256(json.dumps(
            sorted(tot.logh.items())).encode()).hexdigest()[:16],
        "real_components": getattr(mod, "REAL", [
            "inflation (all modules, from the working tree)", "MOSEK Fusion "
            "and Task model building", "numpy/scipy/sympy/networkx/numba"]),
        "stub_components": getattr(mod, "STUB", [
            "MOSEK optimize() and solution read-back: simulated solver "
            "(HiGHS for LP, own interior-point method for SDP)"]),
        "hash_seed": os.environ.get("PYTHONHASHSEED"),
        "completed": not timed_out,
    }
    if hasattr(mod, "extra"):
        cov.update(mod.extra())
    ev = {"property": prop, "tier": tier, "seed": seed,
          "level": getattr(mod, "LEVEL", "exploration"), "coverage": cov,
          "assumptions": mod.ASSUME, "wall_s": round(wall, 2),
          "violations": len(groups)}
    os.makedirs(os.path.join(core.HOME, "evidence"), exist_ok=True)
    with open(os.path.join(core.HOME, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {tot.n} runs, {tot.nontrivial} distinct "
          f"non-trivial, {tot.incon} inconclusive, {len(fails)} failing, "
          f"{len(errors)} harness errors, {wall:.0f} s (warm {t_warm:.0f})")
    return rc


class Serial:
    """Pool interface over a workload's own `one`."""
    n = 1

    def __init__(self, mod):
        self.mod = mod

    def map(self, specs, on_result, stop=lambda: False):
        for k, s in specs:
            on_result(k, s, self.mod.one(s))


def setup():
    for f in glob.glob(os.path.join(core.HOME, "sim", "w_*.py")):
        importlib.import_module("sim." + os.path.basename(f)[:-3])
    from . import warm
    warm.load()
    print("setup ok")
    return 0


def main(argv):
    if argv and argv[0] == "setup":
        return setup()
    if len(argv) == 2 and argv[0] == "replay":
        return replay(os.path.abspath(argv[1]))
    if len(argv) == 2 and argv[1] in ("quick", "thorough"):
        return check(argv[0], argv[1])
    print("usage: check.sh <ID> quick|thorough | replay FILE | setup")
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
