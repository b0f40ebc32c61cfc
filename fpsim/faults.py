"""Faults that need no seam: interrupts at any line of the code under test, failing kernels, pristine forks."""
import os
import pickle
import sys

from .core import REPO, HarnessGap, Violation

PREFIX = REPO + os.sep + "forcepho" + os.sep


class LineInterrupt:
    """Raises at the n-th line executed in the code under test (deterministic: lines are counted, not time)."""

    def __init__(self, at, exc=KeyboardInterrupt, module=""):
        self.at, self.exc, self.prefix = at, exc, PREFIX + module
        self.n = 0
        self.fired = None

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.prefix) and frame.f_code.co_name not in ("__del__", "free", "clear"):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line" and self.fired is None:
            self.n += 1
            if self.n > self.at:
                self.fired = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}"
                sys.settrace(None)
                raise self.exc()
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


class Kernel:
    """The compiled kernel behind a seam: calls are counted, and a chosen one fails, before or after it ran."""

    def __init__(self, mod):
        self.real = mod.EvaluateProposal
        mod.EvaluateProposal = self
        self.calls = 0
        self.plan = None        # (n-th call from now, "before" or "after", exception)
        self.fired = False

    def arm(self, at, when, exc):
        self.plan = (self.calls + at, when, exc)
        self.fired = False

    def disarm(self):
        self.plan = None

    def __call__(self, *a):
        self.calls += 1
        p = self.plan
        if p and self.calls == p[0] + 1:
            self.fired = True
            if p[1] == "after":
                self.real(*a)
            raise p[2]
        return self.real(*a)


def pristine(fn, *args):
    """fn(*args) in a forked copy of this process; its result, or ('raised', type name, text)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                res = ("value", fn(*args))
            except BaseException as e:
                import traceback
                from .core import repo_frames
                res = ("raised", type(e).__name__, f"{e}\n{traceback.format_exc()}", repo_frames(e.__traceback__))
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if not data:
        return ("raised", "Died", f"status {st}", None)
    return pickle.loads(data)
