"""A simulated MPI.  Ranks are threads of which exactly one runs at a time; which one, when a
message arrives, and whether a send waits for its receiver are decisions of the simulation.

Semantics follow mpi4py/Open MPI: per-pair ordering, matching on (source, tag), pickled payloads,
requests that become null once completed, status arrays filled in order of completion.
"""
import pickle
import threading
import types

import numpy as np

from .core import HarnessGap, Injected


class Killed(BaseException):
    """the rank's process is gone"""


class Deadlock(Exception):
    pass


class StepLimit(Exception):
    pass


class MPIError(Injected):
    """mpi4py.MPI.Exception"""


class Strict:
    """attributes that are not modelled give no verdict instead of a false alarm"""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise HarnessGap(f"{type(self).__name__}.{name} is not modelled")


ANY_SOURCE = -1
ANY_TAG = -1
PROC_NULL = -2


class Status(Strict):
    def __init__(self, *a):
        self.source, self.tag, self.error, self.count = ANY_SOURCE, ANY_TAG, 0, 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def Get_error(self):
        return self.error

    def Get_count(self, *a):
        return self.count

    def Get_elements(self, *a):
        return self.count

    def Is_cancelled(self):
        return False

    is_cancelled = Is_cancelled
    cancelled = False

    def _set(self, req):
        self.source, self.tag, self.count = req.got_source, req.got_tag, req.got_size


class Message:
    def __init__(self, src, dst, tag, data, what):
        self.src, self.dst, self.tag, self.data, self.what = src, dst, tag, data, what
        self.matched = False
        self.size = len(data)


class RequestBase(Strict):
    def __init__(self, sim, rank, kind, source=None, tag=None, limit=None, msg=None):
        self.sim, self.rank, self.kind, self.source, self.tag, self.limit = sim, rank, kind, source, tag, limit
        self.msg = msg
        self.complete = False
        self.null = False
        self.data = None
        self.got_source, self.got_tag, self.got_size = ANY_SOURCE, ANY_TAG, 0

    def __bool__(self):
        return not self.null

    def _ready(self):
        if self.kind == "send":
            return self.msg.matched or self.msg.eager
        return self.complete

    def _finish(self, status=None):
        """consume a completed request"""
        self.null = True
        if status is not None:
            status._set(self)
        if self.kind == "send":
            return None
        if self.limit is not None and self.got_size > self.limit:
            raise MPIError("MPI_ERR_TRUNCATE: message truncated")
        self.sim.received(self.rank, self)
        return pickle.loads(self.data)

    # instance methods
    def test(self, status=None):
        self.sim.op("test")
        if self.null:
            return True, None
        if self._ready():
            return True, self._finish(status)
        return False, None

    def wait(self, status=None):
        self.sim.op("wait")
        if self.null:
            return None
        self.sim.block(self._ready, "wait")
        return self._finish(status)

    def Test(self, status=None):
        return self.test(status)[0]

    def Wait(self, status=None):
        self.wait(status)
        return True

    def Free(self):
        self.null = True

    def cancel(self):
        if self.kind == "recv" and not self.complete:
            self.sim.posted[self.rank].remove(self)
            self.null = True

    Cancel = cancel

    def get_status(self, status=None):
        return self.null or self._ready()

    # class methods
    @staticmethod
    def _active(reqs):
        return [i for i, r in enumerate(reqs) if r is not None and not r.null]

    @classmethod
    def waitsome(cls, requests, statuses=None):
        sim = cls._sim
        sim.op("waitsome")
        act = cls._active(requests)
        if not act:
            return None, None
        sim.block(lambda: any(requests[i]._ready() for i in act), "waitsome")
        return cls._some(requests, statuses)

    @classmethod
    def testsome(cls, requests, statuses=None):
        cls._sim.op("testsome")
        if not cls._active(requests):
            return None, None
        return cls._some(requests, statuses)

    @classmethod
    def _some(cls, requests, statuses):
        ready = [i for i in cls._active(requests) if requests[i]._ready()]
        # the order of the indices is up to the MPI implementation
        if len(ready) > 1 and cls._sim.ch.flip(0.4):
            ready = [ready.pop(cls._sim.ch.choose(len(ready))) for _ in range(len(ready))]
        objs = []
        for k, i in enumerate(ready):
            objs.append(requests[i]._finish(None if statuses is None else statuses[k]))
        return ready, objs

    @classmethod
    def waitall(cls, requests, statuses=None):
        sim = cls._sim
        sim.op("waitall")
        act = cls._active(requests)
        sim.block(lambda: all(requests[i]._ready() for i in act), "waitall")
        return [None if r is None or r.null else r._finish(None if statuses is None else statuses[i])
                for i, r in enumerate(requests)]

    @classmethod
    def testall(cls, requests, statuses=None):
        cls._sim.op("testall")
        act = cls._active(requests)
        if not all(requests[i]._ready() for i in act):
            return False, None
        return True, [None if r is None or r.null else r._finish(None if statuses is None else statuses[i])
                      for i, r in enumerate(requests)]

    @classmethod
    def waitany(cls, requests, status=None):
        sim = cls._sim
        sim.op("waitany")
        act = cls._active(requests)
        if not act:
            return -32766, None
        sim.block(lambda: any(requests[i]._ready() for i in act), "waitany")
        i = [i for i in act if requests[i]._ready()][0]
        return i, requests[i]._finish(status)

    @classmethod
    def testany(cls, requests, status=None):
        cls._sim.op("testany")
        act = cls._active(requests)
        if not act:
            return -32766, True, None
        for i in act:
            if requests[i]._ready():
                return i, True, requests[i]._finish(status)
        return -32766, False, None


class Comm(Strict):
    def __init__(self, sim, rank):
        self.sim, self._rank = sim, rank

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return self.sim.size

    @property
    def rank(self):
        return self._rank

    @property
    def size(self):
        return self.sim.size

    def _check(self, dest, tag):
        if not (isinstance(tag, (int, np.integer)) and tag >= 0):
            raise MPIError(f"MPI_ERR_TAG: invalid tag {tag}")
        if not 0 <= dest < self.sim.size:
            raise MPIError(f"MPI_ERR_RANK: invalid rank {dest}")

    def send(self, obj, dest, tag=0):
        self.sim.op("send", dest, tag)
        self._check(dest, tag)
        m = self.sim.post_send(self._rank, dest, int(tag), obj)
        if not m.eager:
            self.sim.block(lambda: m.matched, f"send to {dest}")

    def ssend(self, obj, dest, tag=0):
        self.sim.op("ssend", dest, tag)
        self._check(dest, tag)
        m = self.sim.post_send(self._rank, dest, int(tag), obj)
        self.sim.block(lambda: m.matched, f"ssend to {dest}")

    bsend = send
    rsend = send

    def isend(self, obj, dest, tag=0):
        self.sim.op("isend", dest, tag)
        self._check(dest, tag)
        m = self.sim.post_send(self._rank, dest, int(tag), obj)
        return self.sim.Request(self.sim, self._rank, "send", msg=m)

    issend = isend

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        self.sim.op("irecv", source, tag)
        limit = buf if isinstance(buf, int) else (len(buf) if buf is not None else 32768)
        return self.sim.post_recv(self._rank, source, tag, limit)

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self.sim.op("recv", source, tag)
        r = self.sim.post_recv(self._rank, source, tag, None)
        self.sim.block(r._ready, f"recv from {source}")
        return r._finish(status)

    def iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self.sim.op("iprobe", source, tag)
        m = self.sim.find(self._rank, source, tag)
        if m is not None and status is not None:
            status.source, status.tag, status.count = m.src, m.tag, m.size
        return m is not None

    Iprobe = iprobe

    def probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self.sim.op("probe", source, tag)
        self.sim.block(lambda: self.sim.find(self._rank, source, tag) is not None, "probe")
        m = self.sim.find(self._rank, source, tag)
        if status is not None:
            status.source, status.tag, status.count = m.src, m.tag, m.size
        return True

    Probe = probe

    def _barrier(self):
        s = self.sim
        s.op("barrier")
        gen = s.barrier_gen
        s.barrier_n += 1
        if s.barrier_n == s.size:
            s.barrier_n = 0
            s.barrier_gen += 1
        else:
            s.block(lambda: s.barrier_gen > gen, "barrier")

    def barrier(self):
        self._barrier()

    Barrier = barrier

    def Abort(self, code=0):
        raise Killed(f"MPI_Abort({code})")


class MPISim:
    """scheduler and network"""

    def __init__(self, ctx, size, max_steps=60000):
        self.ctx, self.ch, self.size = ctx, ctx.ch, size
        self.comms = [Comm(self, r) for r in range(size)]
        self.Request = type("Request", (RequestBase,), {"_sim": self})
        self.posted = [[] for _ in range(size)]       # receives waiting for a message
        self.unexpected = [[] for _ in range(size)]   # messages waiting for a receive
        self.channels = {}                            # (src, dst) -> messages in flight
        self.threads = []
        self.now = 0.0
        self.steps = 0
        self.max_steps = max_steps
        self.cur = None
        self.barrier_n = self.barrier_gen = 0
        self.main = threading.Semaphore(0)
        self.op_count = [0] * size
        self.fault_at = None       # (rank, operation number, exception)
        self.on_receive = None
        self.on_send = None
        self.switches = []
        # policy of this run
        ch = self.ch
        self.eager = ch.pick(["eager", "mixed", "rendezvous"])
        self.speed = [1 + ch.choose(8) for _ in range(size)]
        self.large = ch.pick([0, 0, 50_000, 8_000_000])
        self.netspeed = ch.pick([8, 2, 20, 1])
        self.stall = None
        if ch.flip(0.3):
            self.stall = (ch.choose(size), ch.choose(200), ch.pick([50, 300, 2000]))

    def module(self):
        m = types.ModuleType("mpi4py.MPI")
        m.Status = Status
        m.Request = self.Request
        m.ANY_TAG, m.ANY_SOURCE, m.PROC_NULL, m.UNDEFINED = ANY_TAG, ANY_SOURCE, PROC_NULL, -32766
        m.Exception = MPIError
        sim = self

        class World:
            def __getattr__(self, name):
                return getattr(sim.comms[sim.cur], name)
        m.COMM_WORLD = World()
        m.Comm = m.Intracomm = Comm
        m.REQUEST_NULL = None
        m.SUCCESS = 0
        m.Wtime = lambda: self.now

        def missing(name):
            if name.startswith("__"):
                raise AttributeError(name)
            raise HarnessGap(f"MPI.{name} is not modelled")
        m.__getattr__ = missing
        pkg = types.ModuleType("mpi4py")
        pkg.MPI = m
        pkg.__path__ = []
        return pkg, m

    # -- network --------------------------------------------------------------
    def post_send(self, src, dst, tag, obj):
        m = Message(src, dst, tag, pickle.dumps(obj), None)
        if src != 0 and self.large:
            m.size += self.large           # an answer with that much more in it
            self.ctx.fault("large answer")
        m.eager = {"eager": True, "rendezvous": False}.get(self.eager)
        if m.eager is None:
            m.eager = not self.ch.flip(0.5)
        if not m.eager:
            self.ctx.fault("send waits for its receiver")
        if self.on_send:
            self.on_send(src, dst, tag, obj)
        self.channels.setdefault((src, dst), []).append(m)
        return m

    @staticmethod
    def match(m, source, tag):
        return (source == ANY_SOURCE or source == m.src) and (tag == ANY_TAG or tag == m.tag)

    def find(self, rank, source, tag):
        for m in self.unexpected[rank]:
            if self.match(m, source, tag):
                return m
        return None

    def post_recv(self, rank, source, tag, limit):
        r = self.Request(self, rank, "recv", source, tag, limit)
        m = self.find(rank, source, tag)
        if m is not None:
            self.unexpected[rank].remove(m)
            self.complete(r, m)
        else:
            self.posted[rank].append(r)
        return r

    def complete(self, r, m):
        r.complete, r.data = True, m.data
        r.got_source, r.got_tag, r.got_size = m.src, m.tag, m.size
        m.matched = True

    def deliver(self, chan):
        m = self.channels[chan].pop(0)
        for r in self.posted[m.dst]:
            if self.match(m, r.source, r.tag):
                self.posted[m.dst].remove(r)
                self.complete(r, m)
                break
        else:
            self.unexpected[m.dst].append(m)
        self.ctx.log(f"  deliver {m.src}->{m.dst} tag {m.tag}")

    def received(self, rank, req):
        if self.on_receive:
            self.on_receive(rank, req)

    def leftover(self):
        n = sum(len(v) for v in self.channels.values()) + sum(len(u) for u in self.unexpected)
        return n

    # -- called by the ranks -----------------------------------------------------
    def op(self, name, *a):
        """a communication call: the scheduler may run others first, and the call may fail"""
        r = self.cur
        self.yield_()
        self.op_count[r] += 1
        if self.fault_at is not None and self.fault_at[0] == r and self.op_count[r] == self.fault_at[1]:
            exc = self.fault_at[2]
            self.fault_at = None
            self.fired = (r, name)
            self.ctx.fault(f"{type(exc).__name__} in parent during {name}" if r == 0 else f"{type(exc).__name__} in child during {name}")
            self.ctx.log(f"  rank {r}: {type(exc).__name__} raised by {name}")
            raise exc

    def yield_(self):
        self._switch(lambda: True, "ready")

    def block(self, cond, why):
        if not cond():
            self._switch(cond, why)

    def _switch(self, cond, why):
        t = self.threads[self.cur]
        t.cond, t.why = cond, why
        self.main.release()
        t.sem.acquire()
        if t.killed:
            raise Killed()

    def sleep(self, dt):
        wake = self.now + dt
        self.sleepers.append(wake)
        self.block(lambda: self.now >= wake, "sleep")

    # -- scheduler -------------------------------------------------------------------
    def run(self, targets):
        """targets: one callable per rank"""
        self.sleepers = []
        for r, fn in enumerate(targets):
            self.threads.append(RankThread(self, r, fn))
        for t in self.threads:
            t.start()
        try:
            while any(not t.done for t in self.threads):
                if self.threads[0].done and self.threads[0].exc is not None:
                    break                      # the parent process failed: the job is over
                if any(t.done and t.exc is not None for t in self.threads):
                    break
                self.steps += 1
                if self.steps > self.max_steps:
                    raise StepLimit(f"{self.max_steps} steps")
                opts = []
                for t in self.threads:
                    if t.done or not t.cond():
                        continue
                    w = self.speed[t.rank]
                    if self.stall and t.rank == self.stall[0] and self.stall[1] <= self.steps < self.stall[1] + self.stall[2]:
                        self.stalled = True
                        continue
                    opts.append((("run", t.rank), w))
                for chan, q in sorted(self.channels.items()):
                    if q:
                        opts.append((("deliver", chan), self.netspeed))
                if not opts:
                    later = [w for w in self.sleepers if w > self.now]
                    if later:
                        self.now = min(later)
                        continue
                    if self.stall and self.steps < self.stall[1] + self.stall[2]:
                        self.ctx.fault("stalled rank")
                        self.stall = None       # time passes until the stalled rank moves again
                        continue
                    raise Deadlock("; ".join(f"rank {t.rank} waits in {t.why}" for t in self.threads if not t.done))
                what, arg = self.ch.weighted(opts)
                self.now += 0.01
                if what == "deliver":
                    self.deliver(arg)
                else:
                    self.resume(arg)
        finally:
            self.kill()
        self.ctx.sim_time += self.now

    def resume(self, r):
        self.cur = r
        t = self.threads[r]
        np.random.set_state(t.rng)
        t.sem.release()
        self.main.acquire()
        t.rng = np.random.get_state()

    def kill(self):
        for t in self.threads:
            if not t.done:
                t.killed = True
                self.cur = t.rank
                t.sem.release()
                self.main.acquire()
        for t in self.threads:
            t.join()


class RankThread(threading.Thread):
    def __init__(self, sim, rank, fn):
        super().__init__(daemon=True)
        self.sim, self.rank, self.fn = sim, rank, fn
        self.sem = threading.Semaphore(0)
        self.cond, self.why = (lambda: True), "start"
        self.done = self.killed = False
        self.exc = None
        rng = np.random.RandomState(sim.ch.bits())
        self.rng = rng.get_state()

    def run(self):
        self.sem.acquire()
        try:
            if not self.killed:
                self.fn(self.sim.comms[self.rank])
        except Killed:
            pass
        except BaseException as e:
            self.exc = e
        self.done = True
        self.sim.main.release()
