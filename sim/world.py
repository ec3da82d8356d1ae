"""A simulated process of its own: one interpreter with its own hash seed.

Protocol (JSON lines): a request is a list of [key, spec]; the answers follow
as [key, record] in any order, then null.  Every spec runs in a forked child.
"""
import json
import os
import subprocess
import sys

from . import core


def serve(modname, k):
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    import importlib
    from . import warm
    mod = importlib.import_module(modname)
    warm.load()
    warm.warm()
    mod.WORLD = k
    pool = core.Pool(mod, int(os.environ.get("VERIF_WORLD_JOBS", "2")),
                     getattr(mod, "LIMIT", 240))
    print(json.dumps("ready"), file=out, flush=True)
    for line in sys.stdin:
        def done(key, spec, rec):
            print(json.dumps([key, rec]), file=out, flush=True)
        pool.map(json.loads(line), done)
        print("null", file=out, flush=True)


class World:
    def __init__(self, modname, k, hashseed, jobs=2):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed),
                   VERIF_WORLD_JOBS=str(jobs))
        self.p = subprocess.Popen(
            [sys.executable, "-W", "ignore", "-m", "sim.world", modname,
             str(k)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            cwd=core.HOME, env=env, text=True)
        self.ready = False

    def wait(self):
        if not self.ready:
            line = self.p.stdout.readline()
            if line.strip() != '"ready"':
                raise RuntimeError("a simulated process did not start: "
                                   + line[:200])
            self.ready = True

    def send(self, items):
        self.wait()
        self.p.stdin.write(json.dumps(items) + "\n")
        self.p.stdin.flush()

    def receive(self):
        out = {}
        while True:
            line = self.p.stdout.readline()
            if not line:
                raise RuntimeError("a simulated process died")
            x = json.loads(line)
            if x is None:
                return out
            out[x[0]] = x[1]

    def close(self):
        self.p.stdin.close()
        self.p.wait()


if __name__ == "__main__":
    serve(sys.argv[1], int(sys.argv[2]))
