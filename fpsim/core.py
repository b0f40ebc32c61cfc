"""Core of the simulator: recorded choices, violations, runner, minimiser, evidence.

A *run* is a function of a stream of choices (and of the code under test) only.  The stream is
drawn from a PRNG seeded with (world, VERIF_SEED, run index); it is recorded, and a recorded
stream can be replayed, shortened or lowered (missing choices are 0, the simplest option).
"""
import errno
import hashlib
import json
import os
import random
import select
import signal
import struct
import pickle
import subprocess
import sys
import time
import traceback

from . import entropy

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FPSIM_REPO", "/repo")


class Violation(Exception):
    """The property does not hold on this run."""
    def __init__(self, prop, cls, msg):
        super().__init__(f"{prop} [{cls}] {msg}")
        self.prop, self.cls, self.msg = prop, cls, msg


class HarnessGap(BaseException):
    """The code used something the simulator does not model: no verdict."""


class Hang(BaseException):
    """The wall clock guard fired."""


class Injected(Exception):
    """A fault injected by the simulator."""


class Choices:
    """The only source of decisions of a run."""

    MAX = 200_000

    def __init__(self, rng=None, replay=None):
        self.rng = rng
        self.replay = replay
        self.rec = []

    def choose(self, n):
        """an integer in [0, n); 0 is the simplest"""
        n = int(n)
        if n <= 1:
            return 0
        i = len(self.rec)
        if i > self.MAX:
            raise HarnessGap("run uses too many choices")
        if self.replay is not None:
            v = self.replay[i] if i < len(self.replay) else 0
            v = min(max(int(v), 0), n - 1)
        else:
            v = self.rng.randrange(n)
        self.rec.append(v)
        return v

    def flip(self, p):
        """True with probability p; False is the simplest"""
        v = self.choose(1000)
        return v >= 1000 - int(round(1000 * p))

    def pick(self, seq):
        return seq[self.choose(len(seq))]

    def weighted(self, pairs):
        """pick among [(item, weight)], simplest first"""
        tot = sum(w for _, w in pairs)
        v = self.choose(tot)
        for item, w in pairs:
            if v < w:
                return item
            v -= w

    def between(self, lo, hi):
        """integer in [lo, hi]"""
        return lo + self.choose(hi - lo + 1)

    def uniform(self, lo, hi, steps=4096):
        return lo + (hi - lo) * self.choose(steps) / (steps - 1)

    def bits(self):
        return self.choose(2**31 - 1)

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.choose(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq


class Ctx:
    """What a world gets: choices, event log, fault and probe counters, and the property at stake."""

    def __init__(self, prop, ch, tier="quick"):
        self.prop, self.ch, self.tier = prop, ch, tier
        self.events = []
        self.faults = {}
        self.probes = {}
        self.sim_time = 0.0
        self.sig = []            # what makes the run distinct
        self.nontrivial = False
        self.other = []          # violations of other properties (not reported by this check)
        self.scratch = None

    def log(self, *a):
        if len(self.events) < 5000:
            self.events.append(" ".join(str(x) for x in a))

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, kind, n=1):
        self.probes[kind] = self.probes.get(kind, 0) + n

    def fail(self, prop, cls, msg):
        """A violation: raised if it is the property this check decides, else noted."""
        if prop == self.prop:
            raise Violation(prop, cls, msg)
        self.other.append(f"{prop} [{cls}]")

    def check(self, cond, prop, cls, msg=""):
        if not cond:
            self.fail(prop, cls, msg() if callable(msg) else msg)


def repo_frames(tb):
    """whether a traceback goes through the code under test"""
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(REPO + os.sep):
            return f"{os.path.relpath(fn, REPO)}:{tb.tb_frame.f_code.co_name}"
        tb = tb.tb_next
    return None


def exc_chain(e):
    seen = []
    while e is not None and e not in seen:
        seen.append(e)
        e = e.__cause__ or e.__context__
    return seen


UNUSABLE = (TypeError, ValueError, AttributeError, LookupError, AssertionError, ArithmeticError, OSError, EOFError)
RESOURCES = (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.ENFILE, errno.EAGAIN)    # of this machine, not of the code


def last_frame(tb):
    f = traceback.extract_tb(tb)[-1]
    return f"{os.path.basename(f.filename)}:{f.lineno}"


def run_once(world, prop, ch, tier, wall=120):
    """One simulated run.  Returns a plain dict."""
    ctx = Ctx(prop, ch, tier)
    out = dict(status="ok")
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(wall)
    entropy.enter()
    try:
        world.run(ctx)
    except Violation as v:
        out = dict(status="violation", prop=v.prop, cls=v.cls, msg=v.msg)
    except Hang:
        out = dict(status="violation", prop=prop, cls="hang",
                   msg=f"the run did not end within {wall} s of wall time")
    except HarnessGap as e:
        out = dict(status="harness", msg=f"HarnessGap: {e}", tb=traceback.format_exc())
    except BaseException as e:
        where = None if any(isinstance(x, HarnessGap) for x in exc_chain(e)) else repo_frames(e.__traceback__)
        if where:
            out = dict(status="violation", prop=prop, cls=f"unexpected-{type(e).__name__}",
                       msg=f"{type(e).__name__}: {e} (raised through {where})", tb=traceback.format_exc())
        elif isinstance(e, UNUSABLE) and getattr(e, "errno", None) not in RESOURCES and not any(isinstance(x, HarnessGap) for x in exc_chain(e)):
            # a caller of the code (the simulated user, worker or parent) could not use what it was given:
            # on the tree this was written for it always can
            out = dict(status="violation", prop=prop, cls=f"unusable-{type(e).__name__}",
                       msg=f"{type(e).__name__}: {e}: what the code returned or left behind cannot be used by its caller "
                           f"({last_frame(e.__traceback__)})", tb=traceback.format_exc())
        else:
            out = dict(status="harness", msg=f"{type(e).__name__}: {e}", tb=traceback.format_exc())
    finally:
        signal.alarm(0)
        entropy.leave()
        try:
            world.cleanup(ctx)
        except Exception:
            pass
    sig = hashlib.sha256("\n".join(ctx.sig if ctx.sig else ctx.events).encode()).hexdigest()[:16]
    ev = hashlib.sha256("\n".join(ctx.events).encode()).hexdigest()[:16]
    out.update(choices=ch.rec, events=ctx.events, faults=ctx.faults, probes=ctx.probes, sig=sig, evhash=ev,
               nontrivial=ctx.nontrivial, sim_time=ctx.sim_time, other=sorted(set(ctx.other)))
    return out


def hush():
    """forked processes do not write to the report of the check"""
    if os.environ.get("FPSIM_LOUD"):
        return
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    os.close(fd)


def _alarm(*_):
    raise Hang()


def run_seed(world, prop, seed, i, tier):
    rng = random.Random(f"{world.name}:{prop if world.per_property else ''}:{seed}:{i}")
    return run_once(world, prop, Choices(rng=rng), tier, world.wall)


def run_replay(world, prop, choices, tier):
    return run_once(world, prop, Choices(replay=list(choices)), tier, world.wall)


def isolated(fn, *args, wall=300):
    """Run fn in a forked process; returns its result, or a dict for a death."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            hush()
            try:
                res = fn(*args)
            except BaseException as e:
                res = dict(status="harness", msg=f"{type(e).__name__}: {e}", tb=traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    end = time.time() + wall
    while True:
        rr, _, _ = select.select([r], [], [], max(0, end - time.time()))
        if not rr:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return dict(status="violation", cls="hang", msg="process killed after wall time", choices=[], events=[],
                        faults={}, probes={}, sig="hang", evhash="", nontrivial=True, sim_time=0, other=[])
        b = os.read(r, 1 << 16)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if data:
        try:
            return pickle.loads(data)
        except Exception:
            pass
    s = os.WTERMSIG(st) if os.WIFSIGNALED(st) else -os.WEXITSTATUS(st)
    return dict(status="violation", cls=f"died-{s}", msg=f"the process died (signal {s})", choices=[], events=[],
                faults={}, probes={}, sig="died", evhash="", nontrivial=True, sim_time=0, other=[])


def _worker(world, prop, seed, tier, idx, n_workers, n_runs, wfd, deadline, quiet=True):
    with os.fdopen(wfd, "wb") as f:
        for i in range(idx, n_runs, n_workers):
            if time.time() > deadline:
                break
            # say which run is in progress, so that a death can be attributed
            f.write(struct.pack("<II", 0, i)); f.flush()
            if world.isolate:
                res = isolated(run_seed, world, prop, seed, i, tier, wall=world.wall + 30)
                res.setdefault("prop", prop)
            else:
                res = run_seed(world, prop, seed, i, tier)
            if res["status"] == "ok" and i >= 4:
                res = {k: v for k, v in res.items() if k not in ("choices", "events")}
            b = pickle.dumps((i, res))
            f.write(struct.pack("<II", 1, len(b))); f.write(b); f.flush()
            if res["status"] != "ok":
                break


def explore(world, prop, seed, tier, n_runs, n_workers=8, budget=400):
    """Fork workers; runs i = idx mod n_workers.  Returns (results, completed)."""
    deadline = time.time() + budget
    procs = {}
    for idx in range(n_workers):
        r, w = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for rr in procs:
                    os.close(rr)
                hush()
                _worker(world, prop, seed, tier, idx, n_workers, n_runs, w, deadline)
            except BaseException:
                traceback.print_exc()
                code = 3
            os._exit(code)
        os.close(w)
        procs[r] = [pid, b"", None]
    results, bad = {}, []
    while procs:
        rr, _, _ = select.select(list(procs), [], [], 5)
        for r in rr:
            st = procs[r]
            b = os.read(r, 1 << 20)
            if b:
                st[1] += b
                while len(st[1]) >= 8:
                    kind, val = struct.unpack("<II", st[1][:8])
                    if kind == 0:
                        st[2] = val
                        st[1] = st[1][8:]
                    else:
                        if len(st[1]) < 8 + val:
                            break
                        i, res = pickle.loads(st[1][8:8 + val])
                        st[1] = st[1][8 + val:]
                        results[i] = res
                        st[2] = None
                        if res["status"] != "ok":
                            bad.append(i)
            else:
                os.close(r)
                _, code = os.waitpid(st[0], 0)
                if st[2] is not None:
                    s = os.WTERMSIG(code) if os.WIFSIGNALED(code) else -os.WEXITSTATUS(code)
                    results[st[2]] = dict(status="violation", prop=prop, cls=f"died-{s}",
                                          msg=f"the process died (signal or status {s})", choices=None, events=[],
                                          faults={}, probes={}, sig="died", evhash="", nontrivial=True,
                                          sim_time=0, other=[])
                    bad.append(st[2])
                del procs[r]
        if bad and world.stop_early:
            for r, st in list(procs.items()):
                try:
                    os.kill(st[0], signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.waitpid(st[0], 0)
                os.close(r)
                del procs[r]
    return results, bad


def same(res, want):
    return res["status"] == "violation" and res["cls"] == want


def minimise(world, prop, choices, cls, tier, budget=60):
    """Shorten and lower the choices while the same class of violation persists."""
    t0 = time.time()
    best = list(choices)
    tries = 0

    def ok(c):
        nonlocal tries
        tries += 1
        return same(isolated(run_replay, world, prop, c, tier, wall=world.wall + 30), cls)

    def left():
        return time.time() - t0 < budget

    # drop the tail (missing choices are 0)
    lo, hi = 0, len(best)
    while lo < hi and left():
        mid = (lo + hi) // 2
        if ok(best[:mid]):
            best = best[:mid]
            hi = mid
        else:
            lo = mid + 1
    changed = True
    while changed and left():
        changed = False
        size = max(1, len(best) // 4)
        while size >= 1 and left():
            i = 0
            while i < len(best) and left():
                c = best[:i] + best[i + size:]
                if ok(c):
                    best, changed = c, True
                    continue
                if any(best[i:i + size]):
                    c = best[:i] + [0] * len(best[i:i + size]) + best[i + size:]
                    if ok(c):
                        best, changed = c, True
                i += size
            size //= 2
        i = 0
        while i < len(best) and left():
            for v in (best[i] // 2, best[i] - 1):
                if 0 <= v < best[i] and left():
                    c = best[:i] + [v] + best[i + 1:]
                    if ok(c):
                        best, changed = c, True
                        break
            i += 1
    while best and best[-1] == 0:
        best.pop()
    return best, tries


class World:
    name = "world"
    wall = 120             # seconds of wall time per run before it counts as a hang
    isolate = False        # one process per run
    per_property = False   # whether different properties draw different runs
    stop_early = True
    components = {}
    rule = ""
    runs = dict(quick=100, thorough=1000)
    env = {}

    def prepare(self, prop, tier):
        """import what is needed (once, before forking)"""

    def run(self, ctx):
        raise NotImplementedError

    def cleanup(self, ctx):
        if ctx.scratch:
            import shutil
            shutil.rmtree(ctx.scratch, ignore_errors=True)


_scratch_n = 0


def scratch(ctx):
    """a scratch directory for this run, removed afterwards (its name is not an input of the run)"""
    global _scratch_n
    if ctx.scratch is None:
        import tempfile
        ctx.scratch = tempfile.mkdtemp(prefix="fpsim_", dir=scratch_root())
    return ctx.scratch


_root = None


def scratch_root():
    global _root
    if _root is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
        import tempfile
        _root = tempfile.mkdtemp(prefix="fpsim_root_", dir=base)
        pid = os.getpid()
        import atexit
        import shutil
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_root, ignore_errors=True))
    return _root
