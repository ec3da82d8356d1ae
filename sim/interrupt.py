"""Interruption of the code under test at a chosen executed line.

`strike(fn, at, exc)` runs fn() with a trace function counting executed lines
of the code under test (files below REPO/inflation) and raises `exc` at the
`at`-th one.  Counting makes the point exactly repeatable.
"""
import os
import sys

from . import core

PREFIX = os.path.join(core.REPO, "inflation") + os.sep


class Tracer:
    def __init__(self, at=None, exc=None, hook=None):
        self.n, self.at, self.exc, self.hook = 0, at, exc, hook
        self.where = None

    def call(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PREFIX):
            return self.line
        return None

    def line(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n == self.at:
                self.where = (os.path.basename(frame.f_code.co_filename),
                              frame.f_code.co_name)
                raise self.exc
            if self.hook is not None:
                self.hook(self.n, frame)
        return self.line


def count(fn):
    """(number of lines executed, result)."""
    t = Tracer()
    old = sys.gettrace()
    sys.settrace(t.call)
    try:
        r = fn()
    finally:
        sys.settrace(old)
    return t.n, r


def strike(fn, at, exc):
    """Run fn, raising `exc` at line number `at`.  Returns (struck, where,
    what fn raised)."""
    t = Tracer(at, exc)
    old = sys.gettrace()
    sys.settrace(t.call)
    got = None
    try:
        fn()
    except BaseException as e:                       # noqa: BLE001
        got = e
    finally:
        sys.settrace(old)
    return t.where is not None, t.where, got
