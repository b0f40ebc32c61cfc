"""The CUDA kernel on a simulated device (C20).

Real code: compute_gaussians_kernel.cu of the working tree (compiled for the simulated device), GPUProposer,
GPUPatchMixin, patches, scenes.  Simulated: the device's threads, one coroutine each, under a seeded scheduler;
barriers, warp exchanges, atomics, shared memory; the pycuda driver.
Reference: the CPU kernel of the working tree on a CPU patch, with sums taken again in double precision.
"""
import ctypes
import os
import signal

import numpy as np

from ..core import Violation
from .. import cuda, cudevice, field
from .gpu import GPUWorld
from .worker import freeze


class KernelWorld(GPUWorld):
    name = "kernel"
    per_property = True
    runs = dict(quick={"*": 1000}, thorough={"*": 12000})
    rule = ("a run is one patch, one to four launches with drawn sources, block sizes and thread schedules; non-trivial if threads were preempted "
            "between memory accesses or ran out of order; distinct by the hash of the order in which threads ran")
    components = dict(real=["compute_gaussians_kernel.cu and its headers (compiled for the simulated device)", "GPUProposer, GPUPatchMixin, StorePatch, FITSPatch",
                            "CPU kernel (reference)"],
                      stub=["the device: threads, barriers, warp exchanges, atomics, shared memory", "pycuda"])
    assumptions = ["memory is sequentially consistent (no weak-memory effects)", "the number of threads in a block is a multiple of 32",
                   "the Gaussians of a band fit the shared memory asked for (as the header states)"]

    def prepare(self, prop, tier):
        super().prepare(prop, tier)
        from .. import core
        from forcepho.patches import CPUPatchMixin, FITSPatch, JadesPatch, SimplePatch, StorePatch
        from forcepho import proposal
        self.proposal = proposal
        root = core.scratch_root()
        self.fields = dict(store=self.field, small=field.Field(os.path.join(root, "small"), seed=11, nside=24, fits=True),
                           large=field.Field(os.path.join(root, "large"), seed=12, nside=40, fits=True))

        def calibrated(cls):
            """flux calibrations of the exposures that differ from one (no caller of the package passes tweakphot)"""
            class P(cls):
                gains = None

                def pack_meta(self, *args, **kwargs):
                    out = super().pack_meta(*args, **kwargs)
                    if self.gains is not None:
                        self.G[:] = self.gains[:len(self.G)]
                    return out
            return P
        self.kinds = {}
        for n, f in self.fields.items():
            kw = dict(psfstore=f.psfstore, splinedata=f.splinedata)
            if n == "store":
                kw.update(pixelstore=f.pixelstore, metastore=f.metastore)
                c, g = type("CPUStore", (StorePatch, CPUPatchMixin), {}), JadesPatch
            else:
                kw.update(fitsfiles=f.fitsfiles)
                c, g = type("CPUFits", (FITSPatch, CPUPatchMixin), {}), SimplePatch
            self.kinds[n] = (f, calibrated(c), calibrated(g), kw)
        self.modules = {}
        # compile before the runs are distributed
        cuda.D.device = None
        prop = proposal.GPUProposer()
        self.module(prop.evaluate_proposal_kernel.module)

    def module(self, m):
        key = (m.source, m.include_dirs)
        if key not in self.modules:
            self.modules[key] = cudevice.Module(m.source, m.include_dirs)
        return self.modules[key]

    def run(self, ctx):
        signal.signal(signal.SIGINT, signal.default_int_handler)
        D = cuda.D
        kernel = D.kernel
        D.reset()
        D.kernel = kernel
        D.device = lambda *a: self.device(ctx, *a)
        self.hashes = []
        try:
            self.run_C20(ctx)
        finally:
            D.device = None
        ctx.sig = self.hashes

    # -- one launch under a drawn schedule
    def device(self, ctx, module, name, args, grid, block, shared):
        ch = ctx.ch
        policy = ch.choose(len(cudevice.POLICIES))
        p = ch.pick([0.0, 0.0005, 0.01, 0.1])
        poison = ch.pick([0xFF, 0xA5, 0x00])
        seed = ch.bits()
        kernel = self.module(module)
        dt = self.struct_dtype
        s = np.frombuffer(ctypes.string_at(args[0], dt.itemsize), dtype=dt)[0]
        may = {args[2], args[3], int(s["residual"])}
        before = {a: ctypes.string_at(a, n) for a, (n, _) in cuda.D.live.items() if a not in may}
        nblocks = int(np.prod(grid))
        threads = int(np.prod(block))
        r = kernel.launch(name, args, nblocks, threads, shared, seed=seed, policy=policy, preempt=p, poison=poison)
        ctx.log(f"launch {nblocks} x {threads}: {cudevice.POLICIES[policy]}, preemption {p}, {r.switches} switches, order {r.hash:016x}")
        self.hashes.append(f"{r.hash:016x}")
        ctx.fault("schedule: " + cudevice.POLICIES[policy])
        if r.preemptions:
            ctx.fault("threads preempted between memory accesses", int(r.preemptions))
        ctx.fault("shared memory starts with garbage" if poison else "shared memory starts with zeros")
        ctx.probe("memory accesses", int(r.accesses))
        ctx.probe("thread switches", int(r.switches))
        ctx.sim_time += r.accesses * 1e-9
        if r.preemptions or policy not in (2,):
            ctx.nontrivial = True
        if r.msg:
            raise Violation("C20", r.cls.decode(), r.msg.decode())
        for a, b in before.items():
            if ctypes.string_at(a, len(b)) != b:
                raise Violation("C20", "writes-inputs", f"the kernel changed an input buffer of {len(b)} bytes")

    def draw(self, ctx, f):
        ch = ctx.ch
        t = dict(bands=ch.pick([f.bands, f.bands[:1], f.bands[1:], f.bands[::-1]]), radius=ch.pick([0.5, 0.25, 0.9]) if f.nside < 40 else 1.6, max_snr=None, tweak=False,
                 center=(field.RA0 + ch.uniform(-0.4, 0.4) / 3600, field.DEC0 + ch.uniform(-0.4, 0.4) / 3600))
        na, nf = ch.weighted([(ch.between(1, 3), 5), (ch.between(4, 9), 3), (20, 1)]), ch.pick([0, 0, 2])
        cat = f.sources(ch, na + nf, self.ss.sourcecat_dtype(bands=f.bands))
        t["active"], t["fixed"], t["big"] = cat[:na], (cat[na:] if nf else None), None
        t["maxactive"], t["bounded"] = 15, False
        return t

    def run_C20(self, ctx):
        ch = ctx.ch
        kind = ch.weighted([("store", 8), ("small", 4), ("large", 1)])
        f, ctype, gtype, kw = self.kinds[kind]
        t = self.draw(ctx, f)
        g, c = gtype(**kw), ctype(**kw)
        g.gains = c.gains = [ch.uniform(0.5, 2) for _ in f.exposures] if ch.flip(0.6) else None
        self.struct_dtype = g.patch_struct_dtype
        try:
            self.build(c, t)
        except Exception:
            ctx.probe("no pixels")
            return                              # nothing there, C14 and C15 look at this
        self.build(g, t)
        cm, q, _ = self.ready(c, t)
        gm, gq, _ = self.ready(g, t)
        ctx.log(f"{kind}: {c.n_sources} sources, {c.n_bands} bands, {c.npix} pixels")
        self.same(ctx, "data after the fixed sources were subtracted", g.retrieve_array("data"), c.retrieve_array("data"), 1e-5, 1e-4)
        cprop = self.proposal.CPUProposer()
        for k in range(ch.between(1, 4)):
            bs = ch.pick([1024, 64, 32, 96, 128, 256, 512])
            rng = np.random.default_rng(ch.bits())
            z = q * (1 + rng.normal(0, 0.02, len(q)) * (np.abs(q) > 1e-3))
            for m in (cm, gm):
                m.scene.set_all_source_params(z)
            flag = ch.flip(0.7)
            proposal = cm.scene.get_proposal()
            c.return_residual = True
            want = cprop.evaluate_proposal(proposal, patch=c, unpack=False)
            g.return_residual = flag
            got = self.proposal.GPUProposer(thread_block=bs).evaluate_proposal(proposal, patch=g, unpack=False)
            self.compare_launch(ctx, c, got, want, flag, bs, self.pixelwise(c, proposal))
        g.return_residual = True
        g.free()

    def pixelwise(self, c, proposal):
        """per band: chi2 and derivatives summed in double precision over single pixels, and the sums of their magnitudes"""
        dt = c.patch_struct_dtype
        s = np.frombuffer(ctypes.string_at(int(c.device_patch), dt.itemsize), dtype=dt).copy()
        start, n = np.array(c.exposure_start), np.array(c.exposure_N)
        es, en, bs, bn = start.copy(), np.ones_like(n), np.zeros_like(np.array(c.band_start)), np.ones_like(np.array(c.band_N))
        for name, a in (("exposure_start", es), ("exposure_N", en), ("band_start", bs), ("band_N", bn)):
            s[name] = a.__array_interface__["data"][0]
        s["residual"] = 0
        prop = proposal.copy()
        ps, pp = s.__array_interface__["data"][0], prop.__array_interface__["data"][0]
        chi, der, achi, ader = [], [], [], []
        ns, npar = c.n_sources, self.proposal.NPARAMS
        for b in range(c.n_bands):
            x, d = [], []
            for e in range(int(c.band_start[b]), int(c.band_start[b] + c.band_N[b])):
                bs[b] = e
                for pix in range(int(n[e])):
                    es[e] = start[e] + pix
                    r = cuda.D.kernel(b, ps, pp)
                    x.append(r.chi2)
                    d.append(r.dchi2_dp[:ns * npar])
                es[e] = start[e]
            x, d = np.array(x, dtype=float), np.array(d, dtype=float).reshape(len(d), ns, npar)
            chi.append(x.sum())
            achi.append(np.abs(x).sum())
            der.append(d.sum(axis=0))
            ader.append(np.abs(d).sum(axis=0))
        return chi, der, achi, ader

    def compare_launch(self, ctx, c, got, want, flag, bs, ref):
        ctx.probe("launches compared")
        chi, der, achi, ader = ref
        if flag:
            self.same(ctx, f"residuals (blocks of {bs})", got[2], want[2], 1e-5, 1e-4)
        for b in range(c.n_bands):
            err = np.abs(got[1][b] - der[b])
            if os.environ.get("FPSIM_TOL"):
                ctx.log("TOL", abs(got[0][b] - chi[b]) / achi[b], (err / (ader[b] + 1e-30)).max())
            if not abs(got[0][b] - chi[b]) <= 2e-5 * (achi[b] + 1e-6):
                raise Violation("C20", "chi2", f"chi2 of band {b} is {got[0][b]} instead of {chi[b]} (blocks of {bs})")
            if not np.all(err <= 1e-4 * ader[b] + 1e-12):
                s, j = np.unravel_index(np.argmax(np.where(np.isfinite(err), err / (ader[b] + 1e-12), np.inf)), err.shape)
                raise Violation("C20", "gradient", f"derivative {j} of source {s} in band {b} is {got[1][b][s, j]} instead of {der[b][s, j]} (blocks of {bs})")

    def same(self, ctx, what, a, b, rtol, atol):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or not np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True):
            k = np.nanargmax(np.abs(a - b)) if a.shape == b.shape and np.isfinite(a - b).any() else 0
            raise Violation("C20", "residual", f"{what}: {a.flat[k] if a.size else a} instead of {b.flat[k] if b.size else b} at {k}")

