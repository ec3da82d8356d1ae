"""Real threads under a scheduler we control.

Exactly one thread runs at a time.  A trace function counts the executed lines
of the code under test; after a seeded number of lines the running thread
hands the baton to a seeded choice among the unfinished ones.  One seed is one
interleaving, repeatable line for line.
"""
import random
import sys
import threading

from .interrupt import PREFIX


class Scheduler:
    def __init__(self, seed, quantum):
        self.rng = random.Random(seed)
        self.quantum = quantum
        self.left = self._slice()
        self.switches = 0
        self.where = {}
        self.lines = 0

    def _slice(self):
        # many short slices, some long ones
        q = self.quantum
        return self.rng.choice([1, 2, 5, q // 4, q // 2, q, q, 2 * q, 6 * q])

    def run(self, fns):
        """Run the callables in one thread each; returns their results or
        the exceptions they raised."""
        n = len(fns)
        self.alive = list(range(n))
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.done = threading.Event()
        self.out = [None] * n
        self.cur = 0
        ts = [threading.Thread(target=self._main, args=(k, f), daemon=True)
              for k, f in enumerate(fns)]
        for t in ts:
            t.start()
        self.cur = self.rng.choice(self.alive)
        self.sem[self.cur].release()
        self.done.wait()
        for t in ts:
            t.join()
        return self.out

    def _main(self, k, fn):
        self.sem[k].acquire()
        sys.settrace(self._call)
        try:
            self.out[k] = ("ok", fn())
        except BaseException as e:                   # noqa: BLE001
            self.out[k] = ("raised", e)
        finally:
            sys.settrace(None)
            self.alive.remove(k)
            if self.alive:
                self.cur = self.rng.choice(self.alive)
                self.sem[self.cur].release()
            else:
                self.done.set()

    def _call(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PREFIX):
            return self._line
        return None

    def _line(self, frame, event, arg):
        if event == "line":
            self.lines += 1
            self.left -= 1
            if self.left <= 0:
                self.left = self._slice()
                k = self.cur
                nxt = self.rng.choice(self.alive)
                if nxt != k:
                    self.switches += 1
                    c = frame.f_code
                    self.where[c.co_name] = self.where.get(c.co_name, 0) + 1
                    self.cur = nxt
                    self.sem[nxt].release()
                    self.sem[k].acquire()
        return self._line
