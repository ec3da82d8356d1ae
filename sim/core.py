"""Simulation core: seeded runs in forked children, violation classes,
minimisation, replay files, evidence.

One integer (VERIF_SEED) decides everything: run `i` of property `P` draws all
its choices from ``random.Random(f"{seed}/{P}/{i}")``.  ``gen`` turns that
stream into a *spec* - plain JSON holding scenario, operations, schedule and
faults - and ``run`` executes a spec; the run draws nothing else, so a spec is
a complete replay file.
"""
import hashlib
import json
import os
import random
import select
import signal
import sys
import time
import traceback

HOME = os.environ.get("VERIF_HOME", "/verif")
REPO = os.environ.get("VERIF_REPO", "/repo")
SCRATCH = os.environ.get("VERIF_SCRATCH", "/tmp")
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


class Violation(Exception):
    """The property is broken: `kind` is the violation class."""

    def __init__(self, kind, msg, **info):
        super().__init__(f"{kind}: {msg}")
        self.kind, self.msg, self.info = kind, msg, info


class Inconclusive(Exception):
    """The run could not decide (e.g. the simulated solver did not converge);
    counted, never reported."""


class Ctx:
    """What a run may use: event log, probes, guarded calls."""

    def __init__(self):
        self.log = []
        self.steps = 0
        self.probes = {}
        self.faults = {}
        self.states = set()
        self.solves = 0

    def ev(self, *a):
        self.steps += 1
        self.log.append([_plain(x) for x in a])

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fault(self, name, n=1):
        self.faults[name] = self.faults.get(name, 0) + n

    def state(self, *a):
        self.states.add(hashlib.sha1(repr(a).encode()).hexdigest()[:16])

    def call(self, label, fn, *a, allow=(), **k):
        """Call the code under test; an exception it has no business raising
        is a violation."""
        try:
            return fn(*a, **k)
        except (Violation, Inconclusive):
            raise
        except allow:
            raise
        except Exception as e:                       # noqa: BLE001
            if from_harness(e):
                raise
            raise Violation("crash:" + label,
                            f"{type(e).__name__}: {str(e)[:300]} at "
                            f"{where(e)}") from e

    def require(self, cond, kind, msg, **info):
        if not cond:
            raise Violation(kind, msg, **info)


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for f in reversed(tb):
        if "/inflation/" in f.filename:
            return f"{os.path.basename(f.filename)}:{f.name}"
    return f"{os.path.basename(tb[-1].filename)}:{tb[-1].name}" if tb else "?"


def from_harness(e):
    """True when the innermost frame of the exception is ours and the code
    under test is not on the stack at all."""
    tb = traceback.extract_tb(e.__traceback__)
    inside = any(f.filename.startswith(REPO) for f in tb)
    return not inside


def _plain(x):
    if isinstance(x, (str, int, type(None), bool)):
        return x
    if isinstance(x, float):
        return float(f"{x:.6g}") + 0.0
    if isinstance(x, (list, tuple)):
        return [_plain(y) for y in x]
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    try:
        return _plain(x.item())
    except (AttributeError, ValueError):
        return str(x)


def rng_for(seed, prop, i):
    return random.Random(f"{seed}/{prop}/{i}")


# ------------------------------------------------------------- child side --
def execute(mod, spec):
    """Run one spec in this process; returns a JSON-able record."""
    import warnings
    warnings.simplefilter("ignore")
    ctx = Ctx()
    rec = {"ok": True}
    try:
        mod.run(spec, ctx)
    except Violation as v:
        rec = {"ok": False, "kind": v.kind, "msg": v.msg[:1500],
               "info": _plain(v.info)}
        ctx.log.append(["VIOLATION", v.kind])
    except Inconclusive as v:
        rec = {"ok": True, "inconclusive": str(v)[:200]}
        ctx.log.append(["INCONCLUSIVE"])
    except Exception as e:                           # noqa: BLE001
        rec = {"ok": None, "error": "".join(traceback.format_exception(e))
               [-3000:]}
    rec.update(log=ctx.log, steps=ctx.steps, probes=ctx.probes,
               faults=ctx.faults, states=sorted(ctx.states),
               solves=ctx.solves)
    return rec


def _child(mod, spec, wfd):
    try:
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        if not os.environ.get("VERIF_DEBUG"):
            os.dup2(dn, 2)
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        d = os.path.join(SCRATCH, f"run{os.getpid()}")
        os.mkdir(d)
        os.chdir(d)
        rec = execute(mod, spec)
        os.chdir("/")
        import shutil
        shutil.rmtree(d, ignore_errors=True)
        data = json.dumps(rec).encode()
    except BaseException as e:                       # noqa: BLE001
        data = json.dumps({"ok": None, "error": repr(e)[:2000], "log": [],
                           "steps": 0, "probes": {}, "faults": {},
                           "states": [], "solves": 0}).encode()
    with os.fdopen(wfd, "wb") as f:
        f.write(data)
    os._exit(0)


class Pool:
    """Forks one child per spec, at most `n` at a time."""

    def __init__(self, mod, n=NPROC, limit=240):
        self.mod, self.n, self.limit = mod, n, limit

    def map(self, specs, on_result, stop=lambda: False):
        """specs: iterator of (key, spec)."""
        it = iter(specs)
        live = {}
        done = False
        while True:
            while not done and len(live) < self.n and not stop():
                try:
                    key, spec = next(it)
                except StopIteration:
                    done = True
                    break
                r, w = os.pipe()
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    _child(self.mod, spec, w)
                os.close(w)
                live[r] = [key, spec, pid, [], time.time()]
            if stop():
                done = True
            if not live:
                if done:
                    return
                continue
            rd, _, _ = select.select(list(live), [], [], 1.0)
            for r in rd:
                chunk = os.read(r, 1 << 16)
                if chunk:
                    live[r][3].append(chunk)
                    continue
                key, spec, pid, buf, t0 = live.pop(r)
                os.close(r)
                _, st = os.waitpid(pid, 0)
                try:
                    rec = json.loads(b"".join(buf))
                except ValueError:
                    rec = {"ok": None, "error": f"child died, status {st}",
                           "log": [], "steps": 0, "probes": {},
                           "faults": {}, "states": [], "solves": 0}
                rec["wall"] = time.time() - t0
                on_result(key, spec, rec)
            now = time.time()
            for r in list(live):
                if now - live[r][4] > self.limit:
                    key, spec, pid, buf, t0 = live.pop(r)
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    os.close(r)
                    on_result(key, spec, {
                        "ok": None, "timeout": True, "error": "timeout",
                        "log": [], "steps": 0, "probes": {}, "faults": {},
                        "states": [], "solves": 0, "wall": now - t0})

    def one(self, spec):
        out = []
        self.map([(0, spec)], lambda k, s, r: out.append(r))
        return out[0]


# ---------------------------------------------------------- minimisation ---
def _deletions(n):
    """Chunks to try deleting, large first."""
    size = n // 2
    while size >= 1:
        for a in range(0, n, size):
            yield a, min(a + size, n)
        size //= 2


def minimise(pool, mod, spec, kind, budget_s=45, max_trials=160):
    t0 = time.time()
    trials = 0

    def same(cands):
        """Index of the first candidate still failing the same way (tried in
        parallel, chosen in order so the result is deterministic)."""
        nonlocal trials
        res = {}
        pool.map(list(enumerate(cands)), lambda k, s, r: res.__setitem__(
            k, r))
        trials += len(cands)
        for k in range(len(cands)):
            r = res.get(k)
            if r is not None and r["ok"] is False and r["kind"] == kind:
                return k
        return None

    progress = True
    while progress and time.time() - t0 < budget_s and trials < max_trials:
        progress = False
        for field in ("ops", "faults", "sched", "probes"):
            lst = spec.get(field)
            if not isinstance(lst, list) or not lst:
                continue
            cands = []
            for a, b in _deletions(len(lst)):
                c = dict(spec)
                c[field] = lst[:a] + lst[b:]
                cands.append(c)
            for lo in range(0, len(cands), pool.n):
                if time.time() - t0 > budget_s or trials >= max_trials:
                    break
                k = same(cands[lo:lo + pool.n])
                if k is not None:
                    spec = cands[lo + k]
                    progress = True
                    break
        if hasattr(mod, "simpler") and not progress:
            cands = list(mod.simpler(spec))
            for lo in range(0, len(cands), pool.n):
                if time.time() - t0 > budget_s or trials >= max_trials:
                    break
                k = same(cands[lo:lo + pool.n])
                if k is not None:
                    spec = cands[lo + k]
                    progress = True
                    break
    return spec, trials
