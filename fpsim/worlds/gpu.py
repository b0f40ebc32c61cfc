"""GPU patches on a simulated CUDA driver (C15).

Real code: GPUPatchMixin, GPUProposer, posterior, patches, and the CPU build of the kernel run on the
device structures.  Simulated: pycuda (memory with ownership, every call may fail), interrupts.
Reference: the same task done by a CPU patch, which shares no device code with the GPU one.
"""
import gc
import os
import signal

import numpy as np

from ..core import HarnessGap, Violation
from .. import cuda, faults, field
from .worker import WorkerWorld, differ, freeze


class GPUWorld(WorkerWorld):
    name = "gpu"
    runs = dict(quick={"*": 500}, thorough={"*": 12000})
    rule = ("a run is one history of sends, evaluations, swaps, retrievals and releases by GPU patches on one device; non-trivial if a driver call failed, "
            "an object was reused or several shared the device; distinct by the sequence of steps, faults and outcomes")
    components = dict(real=["GPUPatchMixin, GPUProposer, FastPosterior, StorePatch", "kernel (CPU build, run on the device structures)"],
                      stub=["pycuda driver and compiler", "the device (host memory with ownership)"])
    assumptions = ["pycuda releases an allocation when its last reference goes, and refuses to free one twice",
                   "the CPU and CUDA builds of the kernel use the same structures"]

    def prepare(self, prop, tier):
        from .. import repo
        from ..core import scratch_root
        cuda.install()
        repo.install()
        kern = repo.use_kernel()
        cuda.D.kernel = kern.EvaluateProposal
        import forcepho.superscene as ss
        from forcepho.patches import CPUPatchMixin, JadesPatch as G, StorePatch
        from forcepho.region import CircularRegion
        from forcepho import fitting
        import forcepho.model as fmodel
        self.ss, self.CircularRegion, self.fitting, self.model = ss, CircularRegion, fitting, fmodel
        self.field = field.Field(os.path.join(scratch_root(), "field"))

        class C(StorePatch, CPUPatchMixin):
            pass
        f = self.field
        kw = dict(pixelstore=f.pixelstore, metastore=f.metastore, psfstore=f.psfstore, splinedata=f.splinedata)
        self.makers = dict(cpu=lambda: C(**kw), gpu=lambda: G(**kw))
        dt = G.patch_struct_dtype
        self.nptr = sum(1 for n in dt.names if dt[n] == G.ptr_dtype)
        self.kernel = None

    def run(self, ctx):
        signal.signal(signal.SIGINT, signal.default_int_handler)
        kernel = cuda.D.kernel
        cuda.D.reset()
        cuda.D.kernel = kernel
        if ctx.ch.flip(0.35):
            self.run_calls(ctx)
        else:
            self.run_C15(ctx)

    def expect(self, p):
        """what a launch for patch p must find on the device"""
        def check(addr):
            dt = p.patch_struct_dtype
            size, _ = cuda.D.owner(addr)
            if size < dt.itemsize:
                cuda.D.problem("struct", f"the patch structure has {size} bytes instead of {dt.itemsize}")
                return
            import ctypes
            s = np.frombuffer(ctypes.string_at(addr, dt.itemsize), dtype=dt)[0]
            for n in dt.names:
                host = getattr(p, n, None)
                if dt[n] != p.ptr_dtype:
                    if s[n] != host:
                        cuda.D.problem("struct", f"{n} on the device is {s[n]} instead of {host}")
                    continue
                if int(s[n]) == 0:
                    if n == "residual":
                        if p.return_residual:
                            cuda.D.problem("struct", "no residual buffer, but residuals are to be returned")
                        continue
                    cuda.D.problem("struct", f"{n} is not on the device")
                    continue
                try:
                    size, serial = cuda.D.owner(s[n])
                except cuda.LogicError:
                    cuda.D.problems[-1] = (cuda.D.problems[-1][0], f"{n}: " + cuda.D.problems[-1][1])
                    continue
                want = p.xpix.nbytes if n in ("residual", "data") else host.nbytes
                if size != want:
                    cuda.D.problem("size", f"the buffer of {n} has {size} bytes instead of {want}")
                    continue
                if n not in ("data", "residual") and ctypes.string_at(int(s[n]), size) != np.ascontiguousarray(host).tobytes():
                    cuda.D.problem("content", f"{n} on the device differs from what was packed")
            if int(s["data"]) == int(s["residual"]):
                cuda.D.problem("struct", "data and residual are the same buffer")
        return check

    def judge(self, ctx, where):
        if cuda.D.problems:
            cls, what = cuda.D.problems[0]
            raise Violation("C15", cls, f"{where}: {what}")

    def run_C15(self, ctx):
        ch = ctx.ch
        D = cuda.D
        n = 1 + (1 if ch.flip(0.3) else 0)
        ntasks = ch.between(2, 5)
        jobs = [(ch.choose(n), self.draw_task(ctx)) for _ in range(ntasks)]
        for _, t in jobs:
            t["bad"] = t["bad"]
        refs = [self.cpu_reference(t) for _, t in jobs]
        patches = [self.makers["gpu"]() for _ in range(n)]
        state = [dict(job=None, stage=None, model=None, used=False) for _ in range(n)]
        queues = [[i for i, (w, t) in enumerate(jobs) if w == k] for k in range(n)]
        ctx.log(f"{n} GPU patches, {ntasks} tasks")
        for _ in range(70):
            live = [k for k in range(n) if state[k]["job"] is not None or queues[k]]
            if not live:
                break
            k = live[ch.choose(len(live))]
            s, p = state[k], patches[k]
            D.expect = self.expect(p)
            if s["job"] is None or (s["stage"] == "op" and s["iop"] >= len(jobs[s["job"]][1]["ops"])):
                # between tasks: release, make a new object, or reuse
                if s["used"]:
                    how = ch.weighted([("reuse", 6), ("free", 2), ("free twice", 1), ("new object", 2)])
                    if how != "reuse":
                        stale = s["model"] if how != "new object" else None
                        p = act = m = None
                        self.release(ctx, k, how, patches, state)
                        p = patches[k]
                        if stale is not None and how != "new object" and ch.flip(0.4):
                            # a released patch may not reach the kernel
                            z = self.positions(jobs[s["last"]][1], stale, s["q"])[ch.choose(3)]
                            got, exc, _ = self.perform(ctx, lambda: stale.lnprob_and_grad(z), None)
                            self.judge(ctx, "evaluating after the release")
                            ctx.log(f"patch {k} evaluated after release: {'raised ' + type(exc).__name__ if exc is not None else 'cached'}")
                        stale = None
                        s["model"] = None
                if not queues[k]:
                    s["job"] = None
                    continue
                s.update(job=queues[k].pop(0), stage="build", iop=0, model=None, tainted=False)
            i = s["job"]
            t, ref = jobs[i][1], refs[i]
            stage = s["stage"]
            name = stage if stage != "op" else f"{t['ops'][s['iop']][0]} {t['ops'][s['iop']][1]}"
            fault = self.draw_cuda_fault(ctx, stage)

            def act():
                if stage == "build":
                    return self.build(p, t)
                if stage == "prepare":
                    model, q, out = self.ready(p, t)
                    s.update(model=model, q=q, last=i)
                    return out
                o, kk = t["ops"][s["iop"]]
                return self.op(p, t, s["model"], s["q"], o, kk)
            got, exc, fired = self.perform(ctx, act, fault)
            s["used"] = s["used"] or stage == "prepare"
            ctx.log(f"patch {k} task {i} {name}: {'raised ' + type(exc).__name__ if exc is not None else 'ok'}{' fault ' + fired if fired else ''}")
            self.judge(ctx, f"task {i} {name}")
            if fired:
                ctx.nontrivial = True
            self.count(ctx, n, f"after {name} of task {i}")
            if exc is not None:
                if not fired:
                    if s["tainted"]:
                        ctx.probe("faults that surface later")
                        s["job"] = None
                        continue
                    if ref[0] == "raised":
                        ctx.fault("task that cannot be done")
                        s["job"] = None
                        continue
                    raise Violation("C15", "raises", f"task {i} {name} raises {type(exc).__name__}: {exc}, on the CPU it does not")
                opts = ["again", "release", "next"]
                if fault[0] != "interrupt":
                    opts.append("go on")
                then = ch.pick(opts)
                ctx.log(f"  {then}")
                if then == "again":
                    s.update(stage="build", iop=0, tainted=False)
                elif then == "release":
                    p = act = m = None
                    self.release(ctx, k, ch.pick(["free", "free twice", "new object"]), patches, state)
                    s.update(stage="build", iop=0, tainted=False)
                elif then == "next":
                    s["job"] = None
                elif s["model"] is not None and stage != "build":
                    # the posterior at hand either answers correctly or raises, and touches no released memory
                    z = self.positions(t, s["model"], s["q"])[0]
                    m = s["model"]
                    if s["last"] == i and stage == "op":
                        got, exc, _ = self.perform(ctx, lambda: list(m.lnprob_and_grad(z)), None)
                        self.judge(ctx, f"evaluating after a failure in {name} of task {i}")
                        ctx.log(f"  evaluation: {'raised ' + type(exc).__name__ if exc is not None else 'ok'}")
                        if exc is None:
                            self.compare(ctx, i, "lnprob after a failure", got, ref[1]["and_grad"])
                    m = None
                    s.update(stage="build", iop=0, tainted=False)
                else:
                    s.update(stage="build", iop=0, tainted=False)
                continue
            s["tainted"] = s["tainted"] or bool(fired)
            if ref[0] == "raised":
                # building may succeed where preparing does not
                if stage == "build":
                    s["stage"] = "prepare"
                    continue
                if fired:
                    s["job"] = None
                    continue
                raise Violation("C15", "accepted", f"task {i} {name} works on the GPU but not on the CPU ({ref[1]})")
            if stage == "build":
                self.compare(ctx, i, name, got, ref[1]["build"])
                s["stage"] = "prepare"
            elif stage == "prepare":
                if not fired:
                    self.compare(ctx, i, name, got, ref[1]["prepare"])
                s.update(stage="op", iop=0)
            else:
                self.compare(ctx, i, name, freeze(got), ref[1]["ops"][s["iop"]])
                s["iop"] += 1
            if s["used"] or n > 1:
                ctx.nontrivial = True
        got = exc = act = ref = p = stale = m = None
        for k in range(n):
            self.release(ctx, k, ch.pick(["free", "free twice", "new object"]), patches, state)
        self.judge(ctx, "at the end")
        s = p = None
        gc.collect()
        if D.live:
            raise Violation("C15", "leak", f"{len(D.live)} device buffers remain allocated after every patch was released")
        for kind, c in D.counts.items():
            ctx.probe("driver calls: " + kind, c)

    # ------------------------------------------------------------------ single calls
    def run_calls(self, ctx):
        """the calls that tasks are made of, one by one and in any order, each mirrored by a CPU patch"""
        ch, D = ctx.ch, cuda.D
        n = 1 + (1 if ch.flip(0.3) else 0)
        patches = [self.makers["gpu"]() for _ in range(n)]
        mirror = [None] * n
        state = [dict(built=False, sent=False, model=None, used=False) for _ in range(n)]
        ctx.log(f"{n} GPU patches, single calls")

        def sources(k):
            cat = self.field.sources(ch, ch.between(1, 3), self.ss.sourcecat_dtype(bands=self.field.bands))
            for q in (patches[k], mirror[k]):
                q.pack_meta(q.set_scene(cat))

        for _ in range(ch.between(6, 24)):
            k = ch.choose(n)
            s, p = state[k], patches[k]
            ops = [("build", 2), ("free", 1), ("free twice", 1), ("new object", 1)]
            if s["built"] and not s["dirty"]:
                ops.append(("send", 5 if not s["sent"] else 2))
            if s["sent"]:
                ops += [("evaluate", 6), ("data", 1), ("pack, replace", 2), ("flag", 1)]
                if s["residual"] and s["evaluated"]:
                    ops += [("residual", 2), ("pack, swap", 3)]
                elif not s["residual"]:
                    ops += [("swap refused", 1)]
            op = ch.weighted(ops)
            D.expect = self.expect(p)
            if op in ("free", "free twice", "new object"):
                p = None
                self.release(ctx, k, op, patches, state)
                p = patches[k]
                s.update(sent=False)
                if op == "new object":
                    s.update(built=False)
                s["stale"] = op != "new object"
                if s["stale"] and s["built"] and ch.flip(0.3):
                    got, exc, _ = self.perform(ctx, lambda: self.call(p, "evaluate"), None)
                    self.judge(ctx, "evaluating after the release")
                    if exc is None:
                        raise Violation("C15", "use-after-free", "a released patch was evaluated")
                p = None
                continue
            if op == "build":
                mirror[k] = self.makers["cpu"]()
                reg = self.CircularRegion(field.RA0 + ch.uniform(-0.4, 0.4) / 3600, field.DEC0 + ch.uniform(-0.4, 0.4) / 3600, ch.pick([0.5, 0.3, 0.9]) / 3600)
                bands = ch.pick([self.field.bands, self.field.bands[:1], self.field.bands[1:], self.field.bands[::2]])
                flag = ch.flip(0.6)
                try:
                    mirror[k].build_patch(reg, None, allbands=bands)
                except ValueError:
                    continue
                p.build_patch(reg, None, allbands=bands)
                if p.npix == 0:
                    continue
                p.return_residual = mirror[k].return_residual = flag
                sources(k)
                # whatever was sent before is of another patch
                s.update(built=True, sent=False, dirty=False, evaluated=False)
                ctx.log(f"patch {k} build: {p.npix} pixels, residuals {flag}")
                ctx.nontrivial = ctx.nontrivial or s["used"]
                continue
            if op == "flag":
                # residuals can only be returned if there is a buffer for them
                if s["residual"]:
                    p.return_residual = mirror[k].return_residual = ch.flip(0.5)
                continue
            if op == "swap refused":
                got, exc, _ = self.perform(ctx, lambda: p.swap_on_device(), None)
                self.judge(ctx, "swapping without residuals")
                if exc is None:
                    raise Violation("C15", "accepted", "data and residuals are swapped although there is no buffer of residuals")
                ctx.log(f"patch {k} swap refused")
                continue
            if op.startswith("pack"):
                sources(k)
            fault = self.draw_cuda_fault(ctx, "op")
            if fault and fault[0] == "interrupt":
                fault = None
            got, exc, fired = self.perform(ctx, lambda: self.call(p, op), fault)
            ctx.log(f"patch {k} {op}: {'raised ' + type(exc).__name__ if exc is not None else 'ok'}{' fault ' + fired if fired else ''}")
            self.judge(ctx, op)
            self.count(ctx, n, f"after {op}")
            s["used"] = True
            if fired:
                ctx.nontrivial = True
            if exc is not None:
                if not fired:
                    raise Violation("C15", "raises", f"{op} raises {type(exc).__name__}: {exc}")
                exc = None
                if op in ("evaluate", "data", "residual"):
                    continue              # nothing changed, go on
                # an interrupted transfer: evaluating raises or is refused, and touches no released memory
                if ch.flip(0.5):
                    got, exc, _ = self.perform(ctx, lambda: self.call(p, "evaluate"), None)
                    self.judge(ctx, f"evaluating after a failed {op}")
                    if exc is None:
                        raise Violation("C15", "accepted", f"a patch is evaluated although the transfer before failed ({op})")
                    exc = None
                s.update(sent=False)
                if op == "pack, swap":
                    s["built"] = False
                continue
            want = self.call(mirror[k], op)
            if op == "send":
                s.update(sent=True, residual=bool(p.return_residual), evaluated=False)
            elif op == "evaluate":
                s["evaluated"] = True
            elif op == "pack, swap":
                s.update(dirty=True, evaluated=False)
            elif op == "pack, replace":
                s["evaluated"] = False
            if want is not None:
                self.compare(ctx, 0, op, freeze(got), freeze(want))
        got = want = exc = p = None
        for k in range(n):
            self.release(ctx, k, ch.pick(["free", "free twice", "new object"]), patches, state)
        self.judge(ctx, "at the end")
        s = None
        gc.collect()
        if D.live:
            raise Violation("C15", "leak", f"{len(D.live)} device buffers remain allocated after every patch was released")
        for kind, c in D.counts.items():
            ctx.probe("driver calls: " + kind, c)

    def call(self, p, op):
        if op == "send":
            p.send_to_device()
        elif op == "evaluate":
            return [np.asarray(a, dtype=np.float32) for a in p.get_proposer().evaluate_proposal(p.scene.get_proposal(), patch=p, unpack=False)]
        elif op in ("data", "residual"):
            return p.retrieve_array(op)
        elif op == "pack, swap":
            p.swap_on_device()
        elif op == "pack, replace":
            p.replace_device_meta_ptrs()
            p.send_patchstruct_to_device()

    def release(self, ctx, k, how, patches, state):
        s, p = state[k], patches[k]
        cuda.D.expect = None
        ctx.log(f"patch {k}: {how}")
        if how == "new object":
            s["model"] = p = patches[k] = None
            patches[k] = self.makers["gpu"]()
        else:
            p.free()
            if how == "free twice":
                p.free()
        s.update(used=False)
        self.judge(ctx, f"releasing patch {k}")
        p = None
        if len(patches) == 1:
            if cuda.D.live:
                s["model"] = None
                gc.collect()
            if cuda.D.live:
                raise Violation("C15", "leak", f"{len(cuda.D.live)} device buffers remain allocated after the patch was released ({how})")
        cuda.D.expect = self.expect(patches[k])

    def count(self, ctx, n, where):
        limit = n * (self.nptr + 1)
        if len(cuda.D.live) > limit:
            gc.collect()
            if len(cuda.D.live) > limit:
                raise Violation("C15", "leak", f"{len(cuda.D.live)} device buffers are allocated {where}, {n} patches need at most {limit}")

    def compare(self, ctx, i, name, got, want, exact=True):
        ctx.probe("answers compared")
        d = differ(got, want, exact=False)
        if d:
            raise Violation("C15", f"differs-{name.split()[0]}", f"task {i} {name} on the GPU differs from the CPU: {d}")

    def cpu_reference(self, t):
        out = {}
        try:
            p = self.makers["cpu"]()
            out["build"] = self.build(p, t)
            model, q, out["prepare"] = self.ready(p, t)
            out["and_grad"] = list(model.lnprob_and_grad(self.positions(t, model, q)[0]))
            out["ops"] = [freeze(self.op(p, t, model, q, o, k)) for o, k in t["ops"]]
            return ("value", out)
        except (Violation, HarnessGap):
            raise
        except Exception as e:
            if t["bad"] is None and not (isinstance(e, (ValueError, AssertionError)) and "prepare" not in out):
                raise Violation("C15", "fresh-raises", f"a task with nothing wrong about it raises {type(e).__name__}: {e} on the CPU")
            return ("raised", f"{type(e).__name__}: {e}")

    def draw_cuda_fault(self, ctx, stage):
        ch = ctx.ch
        if stage == "build" or not ch.flip(0.35):
            return None
        kind = ch.pick(["alloc", "copy to device", "copy from device", "launch", "interrupt"])
        if kind == "interrupt":
            return ("interrupt", ch.choose(ch.pick({"prepare": [100, 800, 4000], "op": [10, 60, 300]}[stage])))
        at = ch.choose({"alloc": 60, "copy to device": 60, "copy from device": 6, "launch": 4}[kind]) if ch.flip(0.5) else ch.choose(12 if kind in ("alloc", "copy to device") else 3)
        return ("cuda", kind, at, ch.flip(0.2))

    def perform(self, ctx, act, fault):
        if fault is None or fault[0] != "cuda":
            return super().perform(ctx, act, fault)
        D = cuda.D
        D.arm(fault[1], fault[2], fault[3])
        try:
            got, exc, _ = super().perform(ctx, act, None)
        finally:
            fired = f"{fault[1]} failed" if D.fired else None
            D.disarm()
            if fired:
                ctx.fault(fired)
            D.fired = 0
        return got, exc, fired
