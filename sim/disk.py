"""A disk that fails on command.

While a `Disk` is mounted, files the code under test opens for writing are
real files reached through Python's real buffering, on top of a raw device of
ours: errors appear where they do on a real system - when the buffer is
flushed, or on close.  `limit()` is the same idea one level deeper: the kernel
itself refuses to let files grow (RLIMIT_FSIZE), whatever call writes them.
"""
import builtins
import contextlib
import errno
import io
import os
import resource
import signal
import sys

KINDS = ("refused", "nospace-open", "full", "io", "short", "eintr", "close",
         "kernel")
HARMLESS = ("short", "eintr")


class Raw(io.FileIO):
    def __init__(self, disk, name, mode):
        super().__init__(name, mode)
        self.disk, self.at = disk, 0

    def write(self, b):
        d, n = self.disk, len(b)
        if d.kind == "full" and self.at + n > d.point:
            fit = max(0, d.point - self.at)
            if fit:                     # what fits is written
                self.at += super().write(bytes(b[:fit]))
                return fit
            d.hit()
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
        if d.kind == "io" and self.at + n > d.point:
            d.hit()
            raise OSError(errno.EIO, os.strerror(errno.EIO))
        if d.kind == "short" and n > 1:
            d.hit()
            n = 1 + d.rng.randrange(n)
            b = bytes(b[:n])
        if d.kind == "eintr" and d.rng.random() < .5:
            d.hit()
            return self._some(b)
        k = super().write(b)
        self.at += k
        return k

    def _some(self, b):
        k = super().write(bytes(b[:max(1, len(b) // 2)]))
        self.at += k
        return k

    def close(self):
        was = self.closed
        super().close()
        if not was and self.disk.kind == "close" and self.writable_once:
            self.disk.hit()
            raise OSError(errno.EIO, os.strerror(errno.EIO))

    writable_once = True


class Disk:
    def __init__(self, kind=None, point=0, rng=None):
        self.kind, self.point, self.rng = kind, point, rng
        self.fired = 0
        self.opened = []

    def hit(self):
        self.fired += 1

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
        if isinstance(file, int) or not set(mode) & set("wax+"):
            return self.real(file, mode, buffering, encoding, errors, newline,
                             closefd, opener)
        self.opened.append(os.fspath(file))
        if self.kind == "refused":
            self.hit()
            raise PermissionError(errno.EACCES, os.strerror(errno.EACCES),
                                  file)
        if self.kind == "nospace-open":
            self.hit()
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), file)
        raw = Raw(self, file, mode.replace("b", "").replace("t", ""))
        if "b" in mode and buffering == 0:
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        buf = (io.BufferedRandom if "+" in mode else io.BufferedWriter)(
            raw, size)
        if "b" in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline,
                                line_buffering=buffering == 1)
        return text

    @contextlib.contextmanager
    def mounted(self):
        self.real = builtins.open
        hook = sys.unraisablehook
        sys.unraisablehook = lambda *a: None
        builtins.open = io.open = self.open
        undo = None
        try:
            if self.kind == "kernel":
                undo = limit(self.point)
            yield self
        finally:
            if undo:
                undo()
            builtins.open = io.open = self.real
            sys.unraisablehook = hook


def limit(size):
    """No file grows beyond `size` bytes until the returned function runs."""
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    old = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (size, hard))

    def undo():
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        signal.signal(signal.SIGXFSZ, old)
    return undo
