"""Files: scene state (C10), samples and residuals (C11), metadata store (C12), pixel store (C13).

Real code: everything from the calls of forcepho down to libc (astropy, h5py/HDF5, json).  The disk below
the scratch directory is the simulator's: a preloaded shim numbers the file-system operations, makes chosen
ones fail, and records them, so that the contents after a crash or power loss at every point can be rebuilt.
"""
import copy
import errno
import json
import logging
import os
import signal
import sys
import types
from argparse import Namespace

import numpy as np

from ..core import HarnessGap, Violation, World, scratch
from .. import field, shim
from .scene import make_catalog


class Failed(Exception):
    """the call raised, in a process of its own"""


class Died(Exception):
    """the process of the call died"""


class DiskWorld(World):
    name = "disk"
    wall = 120
    isolate = True
    per_property = True
    runs = dict(quick={"*": 1200, "C11": 1000, "C13": 1500}, thorough={"*": 30000})
    rule = ("a run is one history of writes, re-reads and restarts on one directory with the faults injected into it; "
            "non-trivial if a crash state differing from both versions' byte contents, or an injected fault, was judged; "
            "distinct by the sequence of calls, faults and outcomes")
    components = dict(real=["forcepho writers and readers", "astropy.io.fits", "h5py and the HDF5 library", "json", "CPython io"],
                      stub=["the file system below one directory (recorded and faulted at libc level)", "pixel images (random)"])
    assumptions = ["directory operations reach the disk in order, data only when synced (a journalling file system)",
                   "a single process writes a given file"]

    def prepare(self, prop, tier):
        from .. import repo
        repo.install()
        logging.disable(logging.CRITICAL)
        shim.lib()
        import astropy.io.fits as fits
        import h5py
        import forcepho.superscene as ss
        from forcepho.fitting import Result
        from forcepho.patches.storage import MetaStore, PixelStore
        import forcepho.utils as utils
        self.fits, self.h5py, self.ss, self.Result, self.utils = fits, h5py, ss, Result, utils
        self.MetaStore, self.PixelStore = MetaStore, PixelStore
        if prop == "C12":
            import asdf                      # noqa: F401
            import astropy.wcs               # noqa: F401
        if prop == "C11":
            repo.use_kernel()
            from forcepho.patches import CPUPatchMixin, StorePatch
            from forcepho.region import CircularRegion
            from ..core import Choices, scratch_root
            import random
            self.field = field.Field(os.path.join(scratch_root(), "field"))
            f = self.field

            class P(StorePatch, CPUPatchMixin):
                pass
            self.patches = []
            for k, (n_act, n_fix, rad, bands) in enumerate([(2, 1, 0.5, f.bands), (1, 0, 0.25, f.bands[1:2]), (3, 2, 0.9, f.bands[::-1])]):
                ch = Choices(rng=random.Random(k))
                cat = f.sources(ch, n_act + n_fix, ss.sourcecat_dtype(bands=f.bands))
                bounds = ss.make_bounds(cat, f.bands)
                p = P(pixelstore=f.pixelstore, metastore=f.metastore, psfstore=f.psfstore, splinedata=f.splinedata)
                p.build_patch(CircularRegion(field.RA0, field.DEC0, rad / 3600), None, allbands=bands)
                model, q = p.prepare_model(active=cat[:n_act], fixed=cat[n_act:] if n_fix else None, bounds=bounds[:n_act])
                model.residuals(q)
                self.patches.append((p, model, q, cat[:n_act], cat[n_act:], bounds[:n_act]))
            # more pixels than the library buffers, names longer than one expects
            long = "visit/jw01180020001_02101_00001_nrca1_a_name_longer_than_any_sensible_buffer_{}"
            f = self.bigfield = field.Field(os.path.join(scratch_root(), "bigfield"), nside=256, bands=["F200W"], nexp=[1], expname=long)
            cat = f.sources(Choices(rng=random.Random(9)), 2, ss.sourcecat_dtype(bands=f.bands))
            bounds = ss.make_bounds(cat, f.bands)
            p = P(pixelstore=f.pixelstore, metastore=f.metastore, psfstore=f.psfstore, splinedata=f.splinedata)
            p.build_patch(CircularRegion(field.RA0, field.DEC0, 4.5 / 3600), None, allbands=f.bands)
            model, q = p.prepare_model(active=cat[:1], fixed=cat[1:], bounds=bounds[:1])
            model.residuals(q)
            self.bigpatch = (p, model, q, cat[:1], cat[1:], bounds[:1])

    # ------------------------------------------------------------------ a call on the simulated disk
    def run(self, ctx):
        signal.signal(signal.SIGINT, signal.default_int_handler)
        self.root = os.path.join(scratch(ctx), "disk")
        os.makedirs(self.root)
        os.chdir(self.root)
        getattr(self, "run_" + ctx.prop)(ctx)

    def plan(self, ctx, kinds, modes, p=0.6, counts=(4, 12, 40)):
        """a fault: (mode, errno, index among eligible operations, sticky, kinds)"""
        ch = ctx.ch
        if not ch.flip(p):
            return None
        mode = ch.pick(modes)
        if mode == shim.INT:
            return (mode, 0, ch.choose(ch.pick(counts)), False, kinds)
        if mode == shim.FULL:
            return (mode, errno.ENOSPC, ch.choose(ch.pick(counts)), True, [k for k in kinds if k in (shim.OPEN, shim.WRITE, shim.TRUNC, shim.MKDIR, shim.FSYNC)])
        if mode in (shim.SHORT, shim.TORN):
            return (mode, ch.pick([errno.ENOSPC, errno.EIO]), ch.choose(ch.pick(counts)), False, [shim.WRITE])
        kind = ch.pick(kinds)
        few = kind in (shim.RENAME, shim.FSYNC, shim.UNLINK, shim.MKDIR, shim.LOCK, shim.CLOSE, shim.OPEN, shim.TRUNC)
        return (mode, ch.pick(shim.errors_for(kind)), ch.choose(3 if few else ch.pick(counts)), ch.flip(0.3), [kind])

    def call(self, ctx, label, fn, fault, fork=False):
        """run fn on the simulated disk; returns (exception or None, recorder, model of the disk before)

        With fork, fn runs in a process of its own, and its death counts as a crash (the HDF5 library can
        die of errors it gets while closing a file)."""
        before = shim.Disk(self.root)
        rec = shim.Recorder(self.root, fault)
        exc = None
        with rec:
            try:
                if fork:
                    self.forked(fn)
                else:
                    fn()
                for _ in range(3):
                    pass            # a pending interrupt is delivered here
            except (Violation, HarnessGap):
                raise
            except BaseException as e:
                exc = e
            finally:
                rec.disarm()
        if fault and rec.fired:
            what = f"{shim.MODES[fault[0]]} in {shim.NAMES.get(rec.fired_kind, '?')}"
            ctx.fault(what)
            ctx.log(f"  fault: {what} errno={errno.errorcode.get(fault[1], 0)}{' (persistent)' if fault[3] else ''}")
            ctx.nontrivial = True
        ctx.log(f"  {label}: {len(rec.ops)} operations, {'raised ' + type(exc).__name__ if exc is not None else 'returned'}")
        if exc is not None and not (fault and rec.fired):
            if isinstance(exc, (Failed, Died)):
                ctx.fail(ctx.prop, "unexpected-failure", f"{label} failed although nothing was injected: {exc}")
            raise exc
        return exc, rec, before

    @staticmethod
    def forked(fn):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                try:
                    fn()
                    for _ in range(3):
                        pass
                    msg = b"ok"
                except BaseException as e:
                    msg = f"{type(e).__name__}: {e}".encode()
                os.write(w, msg[:4000])
            finally:
                os._exit(0)
        os.close(w)
        msg = b""
        while True:
            b = os.read(r, 4096)
            if not b:
                break
            msg += b
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if os.WIFSIGNALED(st):
            raise Died(f"signal {os.WTERMSIG(st)}")
        if msg != b"ok":
            raise Failed(msg.decode())

    def scan(self, ctx, prop, rec, before, exc, targets, bystanders, old):
        """Judge the targets after every prefix of the operations, torn writes, and power losses.

        targets: {path: judge}; judge(bytes) is None if it is a complete new version, else what is wrong.
        old: {path: bytes or None} before the call."""
        verdicts = {}

        def verdict(path, content, where):
            if content == old[path]:
                return "old"
            if content is None:
                ctx.fail(prop, "lost", f"{self.rel(path)} exists before the call and is missing {where}")
                return "bad"
            key = (path, content)
            if key not in verdicts:
                verdicts[key] = targets[path](content)
            if verdicts[key] is None:
                return "new"
            ctx.fail(prop, "partial", f"{self.rel(path)} is neither the previous nor the new version {where}: {verdicts[key]}")
            return "bad"

        def others(contents, where):
            for p, b in bystanders.items():
                if contents.get(p) != b:
                    ctx.fail(prop, "bystander", f"{self.rel(p)} was changed by a write of another file {where}")

        disk = before
        had = set(before.contents())
        n = 0
        ops = rec.ops
        for k, op in enumerate(ops):
            where = f"after operation {k} ({op.text(self.root)}) of {len(ops)}"
            if op.kind == shim.WRITE and len(op.data) > 1:
                cut = 1 + ctx.ch.choose(len(op.data) - 1)
                f = disk.inodes[op.ino]
                for p in targets:
                    if disk.files.get(p) is f:
                        keep, pend = bytearray(f.data), list(f.pending)
                        shim._write(f.data, op.off, op.data[:cut])
                        verdict(p, bytes(f.data), f"with operation {k} (write) torn at {cut}")
                        f.data, f.pending = keep, pend
                        n += 1
            disk.apply(op)
            if op.kind in (shim.OPEN, shim.WRITE, shim.TRUNC, shim.RENAME, shim.UNLINK, shim.LINK, shim.FSYNC):
                for p in targets:
                    f = disk.files.get(p)
                    verdict(p, None if f is None else bytes(f.data), where)
                    n += 1
                if any(f.pending for p, f in disk.files.items() if p in targets):
                    contents = disk.after_power_loss(ctx.ch)
                    for p in targets:
                        verdict(p, contents.get(p), "if power is lost " + where)
                    n += 1
                    ctx.probe("power-loss states")
        disk.verify()
        now = disk.contents()
        others(now, "at the end")
        ctx.probe("crash states judged", n)
        # (asdf leaves one when its own replacement of a file fails)
        if prop != "C12" and not isinstance(exc, Died) and not (rec.fired and (rec.fault[3] or rec.fault[0] == shim.INT or rec.fired_kind == shim.UNLINK)):
            for p in sorted(set(now) - had - set(targets)):
                ctx.fail(prop, "leftover", f"the call {'returned' if exc is None else 'raised'} and left {self.rel(p)} behind")
        final = {p: verdict(p, now.get(p), "at the end") for p in targets}
        if exc is None:
            for p, v in final.items():
                if v == "old" and (old[p] is None or targets[p](old[p]) is not None):
                    ctx.fail(prop, "silent", f"the call returned but {self.rel(p)} is {'missing' if old[p] is None else 'the previous version'}")
        return final

    def rel(self, p):
        return os.path.relpath(p, self.root)

    def read(self, path):
        try:
            with open(path, "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def crash(self, ctx, rec, before_root_disk):
        """restart from the state after a random prefix of the operations of the last call"""
        k = ctx.ch.choose(len(rec.ops) + 1)
        disk = before_root_disk
        for op in rec.ops[:k]:
            disk.apply(op)
        power = ctx.ch.flip(0.4)
        contents = disk.after_power_loss(ctx.ch) if power else disk.contents()
        shim.materialise(contents, disk.dirs, self.root)
        os.chdir(self.root)
        ctx.fault("power loss and restart" if power else "crash and restart")
        ctx.log(f"  crash after operation {k} of {len(rec.ops)}{' with power loss' if power else ''}; restart")

    WKINDS = [shim.WRITE, shim.OPEN, shim.RENAME, shim.FSYNC, shim.CLOSE, shim.UNLINK, shim.TRUNC]
    WMODES = [shim.ERR, shim.TORN, shim.FULL, shim.SHORT, shim.INT]

    def add_bystanders(self, ctx, names):
        out = {}
        for n in names:
            p = os.path.join(self.root, n)
            with open(p, "wb") as f:
                f.write(n.encode() * 50)
            out[p] = self.read(p)
        return out

    # ------------------------------------------------------------------ C10
    def run_C10(self, ctx):
        ch, ss = ctx.ch, self.ss
        np.random.seed(ch.bits())
        bands = [f"F{i}" for i in range(ch.between(1, 3))]
        n = ch.pick([3, 1, 8, 40])
        cat, _ = make_catalog(ch, ss, n, bands, 3.0, 0.05, 0.2)
        name = ch.pick(["scene.fits", "out/state.v1.fits", "scene"])
        path = os.path.join(self.root, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        bystanders = self.add_bystanders(ctx, ch.pick([[], ["other.fits"], ["other_log.json", "scene.fits.orig"]]))
        cls = ch.pick([ss.LinkedSuperScene, ss.SuperScene])
        ctx.log(f"{cls.__name__} {n} sources {name}")
        scene = self.new_scene(cls, cat, bands, path)
        out = []
        tid = [0]
        for step in range(ch.between(2, 6)):
            self.mutate(ctx, scene, out, tid)
            how = ch.pick(["writeout", "context", "named", "context-error", "flush"])
            if how == "flush" and not out:
                r = scene.checkout_region(seed_index=-1)
                if r[1] is None:
                    how = "writeout"
                else:
                    out.append(r)
            target = path if how != "named" else os.path.join(self.root, ch.pick(["copy.fits", "out2.fits", name]))
            log = os.path.splitext(target)[0] + "_log.json"
            if how == "flush":
                # checked in and written: what is to be on disk is the state after the check-in
                _, active, fixed = out.pop(ch.choose(len(out)))
                new = active.copy()
                for b in scene.bands:
                    new[b] += 2.0 + ch.choose(100) / 7
                tid[0] += 1
                back = (new, fixed, 7)
                after = copy.deepcopy(scene)
                after.checkin_region(*back, taskID=tid[0])
                want_cat, want_log = after.sourcecat.copy(), json.loads(json.dumps(dict(sourcelog=after.sourcelog, patchlog=after.patchlog)))
            else:
                want_cat, want_log = scene.sourcecat.copy(), json.loads(json.dumps(dict(sourcelog=scene.sourcelog, patchlog=scene.patchlog)))
            old = {p: self.read(p) for p in (target, log)}
            boom = RuntimeError("from the body of the with statement")

            def fn():
                if how == "writeout":
                    scene.writeout()
                elif how == "named":
                    scene.writeout(target)
                elif how == "flush":
                    scene.checkin_region(*back, taskID=tid[0], flush=True)
                elif how == "context":
                    with scene:
                        pass
                else:
                    try:
                        with scene:
                            raise boom
                    except RuntimeError as e:
                        if e is not boom:
                            raise
                        return
                    raise Violation("C10", "swallowed", "leaving the scene's context hides the error of its body")
            targets = {target: lambda b: self.judge_state(b, want_cat), log: lambda b: self.judge_log(b, want_log)}
            ctx.log(f"write {step} {how} {self.rel(target)}")
            exc, rec, before = self.call(ctx, "write", fn, self.plan(ctx, self.WKINDS, self.WMODES))
            final = self.scan(ctx, "C10", rec, shim_copy(before), exc, targets, bystanders, old)
            ctx.log("  on disk: " + ", ".join(f"{self.rel(p)} {v}" for p, v in final.items()))
            ctx.check((how == "flush" and exc is not None) or np.array_equal(self.plain(scene.sourcecat), self.plain(want_cat)), "C10", "mutated", "writing changed the catalog in memory")
            if ch.flip(0.35):
                self.crash(ctx, rec, before)
                out = []
                b = self.read(path)
                if b is not None:
                    cat2 = np.array(self.fits.getdata(path))
                    cat2 = cat2.astype(cat2.dtype.newbyteorder("="))
                    scene = self.new_scene(cls, cat2, bands, path)
                else:
                    scene = self.new_scene(cls, cat.copy(), bands, path)
        # without faults the last write succeeds, whatever was left behind
        want_cat, want_log = scene.sourcecat.copy(), json.loads(json.dumps(dict(sourcelog=scene.sourcelog, patchlog=scene.patchlog)))
        scene.writeout()
        log = os.path.splitext(path)[0] + "_log.json"
        bad = self.judge_state(self.read(path), want_cat) or self.judge_log(self.read(log), want_log)
        ctx.check(bad is None, "C10", "stuck", f"a later write without faults is not readable: {bad}")

    def new_scene(self, cls, cat, bands, path):
        if cls is self.ss.SuperScene and not hasattr(cls, "get_circular_scene"):
            pass
        return cls(sourcecat=cat.copy(), bands=list(bands), statefile=path, target_niter=50, maxactive_per_patch=3)

    def mutate(self, ctx, scene, out, tid):
        ch = ctx.ch
        for _ in range(ch.between(0, 3)):
            if out and ch.flip(0.6):
                region, active, fixed = out.pop(ch.choose(len(out)))
                new = active.copy()
                for b in scene.bands:
                    new[b] += 1.0 + ch.choose(100) / 7
                new["ra"] += 1e-6 * ch.choose(50)
                tid[0] += 1
                scene.checkin_region(new, fixed, ch.pick([10, 3]), taskID=tid[0])
            else:
                region, active, fixed = scene.checkout_region(seed_index=-1)
                if active is not None:
                    out.append((region, active, fixed))

    def plain(self, cat):
        return np.array(cat).view(np.ndarray)

    def judge_state(self, content, want):
        p = os.path.join(os.path.dirname(self.root), "judge.fits")
        with open(p, "wb") as f:
            f.write(content)
        try:
            with self.fits.open(p, memmap=False) as hdul:
                got = np.array(hdul[1].data)
        except Exception as e:
            return f"it cannot be read ({type(e).__name__}: {e}, {len(content)} bytes)"
        missing = set(want.dtype.names) - set(got.dtype.names)
        if missing or len(got) != len(want):
            return f"columns missing {sorted(missing)}, {len(got)} rows"
        for c in want.dtype.names:
            a, b = np.asarray(got[c]), np.asarray(want[c])
            if a.shape != b.shape or not np.array_equal(a.astype(b.dtype), b, equal_nan=b.dtype.kind == "f"):
                return f"column {c} differs"
        return None

    def judge_log(self, content, want):
        try:
            got = json.loads(content.decode())
        except Exception as e:
            return f"it cannot be read ({type(e).__name__}, {len(content)} bytes)"
        for k in want:
            if got.get(k) != want[k]:
                return f"{k} is {str(got.get(k))[:80]} instead of {str(want[k])[:80]}"
        return None

    # ------------------------------------------------------------------ C11
    def run_C11(self, ctx):
        ch = ctx.ch
        bystanders = self.add_bystanders(ctx, ch.pick([[], ["patch99_samples.h5"]]))
        sub = ch.pick(["", "patches/", "a/b/"])
        for step in range(ch.between(1, 4)):
            what = ch.pick(["samples", "residuals", "both"])
            big = ch.flip(0.12)
            patch, model, q, active, fixed, bounds = self.bigpatch if big else self.patches[ch.choose(len(self.patches))]
            if big:
                ctx.probe("patches of tens of thousands of pixels")
            k = ch.choose(2)
            base = os.path.join(self.root, f"{sub}patch{k}")
            if what == "residuals":
                os.makedirs(os.path.dirname(base), exist_ok=True)
            res = self.make_result(ctx, patch, model, q, active, fixed, bounds)
            sfile, rfile = base + "_samples.h5", base + "_residuals.h5"
            want = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in vars(res).items()}
            given = ch.flip(0.5)
            residual = None
            last = res.chain[-1, :]
            if given:
                residual = [np.full(int(m), 0.5 + j, dtype=np.float32) for j, m in enumerate(patch.exposure_N)]
                want_res = residual
            else:
                want_res = [np.array(r) for r in model.residuals(last.copy())]
                model.residuals(q * 0.9)         # the latest evaluation was elsewhere
            wantr = self.expected_residuals(patch, want_res if (what == "both" or given) else None)
            config = Namespace(write_residuals=what == "both", outbase="x", bands=list(patch.bandlist) * ch.pick([1, 1, 300]))
            if ch.flip(0.2):
                config.bad = object()          # cannot be serialised: the configuration is skipped
            elif what == "both":
                want["config"] = json.dumps(vars(config))
            targets, old = {}, {}
            if what in ("samples", "both"):
                targets[sfile] = lambda b: self.judge_samples(b, want)
            if what in ("residuals", "both"):
                targets[rfile] = lambda b: self.judge_residuals(b, wantr)
            old = {p: self.read(p) for p in targets}

            def fn():
                if what == "samples":
                    res.dump_to_h5(sfile)
                elif what == "residuals":
                    self.utils.write_residuals(patch, rfile, residuals=residual)
                else:
                    self.utils.write_to_disk(res, base, model, config, residual=residual)
            ctx.log(f"write {step} {what} {self.rel(base)} given={given}")
            fault = self.plan(ctx, self.WKINDS + [shim.MKDIR, shim.LOCK], self.WMODES)
            fork = bool(fault) and fault[0] != shim.INT and bool({shim.WRITE, shim.TRUNC, shim.CLOSE} & set(fault[4]))
            exc, rec, before = self.call(ctx, "write", fn, fault, fork)
            if isinstance(exc, Died):
                ctx.probe("HDF5 died of an injected error")
            final = self.scan(ctx, "C11", rec, shim_copy(before), exc, targets, bystanders, old)
            ctx.log("  on disk: " + ", ".join(f"{self.rel(p)} {v}" for p, v in final.items()))
            if ch.flip(0.35):
                self.crash(ctx, rec, before)
            if exc is not None or ch.flip(0.2):
                # the same call succeeds once the disk is well again
                fn()
                for p, judge in targets.items():
                    b = self.read(p)
                    bad = "it is missing" if b is None else judge(b)
                    ctx.check(bad is None, "C11", "stuck", f"{self.rel(p)} after a retry without faults: {bad}")

    def make_result(self, ctx, patch, model, q, active, fixed, bounds):
        ch = ctx.ch
        rng = np.random.default_rng(ch.bits())
        n = ch.pick([5, 1, 60, 700])
        res = self.Result()
        res.ndim = len(q)
        res.starting_position = q.copy()
        res.chain = q[None, :] + 1e-3 * np.abs(q[None, :]) * rng.uniform(-1, 1, (n, len(q)))
        res.n_call = int(ch.choose(1000))
        res.message = ch.pick(["Optimization terminated successfully.", "", "a long message " * 200])
        res.wall_time = ch.uniform(0, 100)
        res.patchID = ch.choose(1000)
        res.reference_coordinates = np.array(patch.patch_reference_coordinates)
        res.bandlist = np.array(patch.bandlist, dtype="S")
        res.shapenames = np.array(["ra", "dec", "q", "pa", "sersic", "rhalf"], dtype="S")
        res.npix, res.nexp = patch.npix, len(patch.epaths)
        res.exposures = np.array(patch.epaths, dtype="S")
        res.ra, res.dec, res.radius = field.RA0, field.DEC0, 0.5 / 3600
        res.active = np.array(active)
        some = ch.pick(["as it is", "none", "empty", "as it is"])
        res.fixed = None if some == "none" else np.array(fixed)[: 0 if some == "empty" else None]
        res.big = ch.pick([None, None, np.array(active)[:1], np.array(active)[:0]])
        res.bounds = np.array(bounds)
        if ch.flip(0.7):
            res.cov = np.eye(len(q)) * rng.uniform(0.1, 2)
            st = np.zeros(n, dtype=[("tune", bool), ("model_logp", "f8"), ("depth", "i4")])
            st["tune"][: n // 3] = True
            st["model_logp"] = rng.normal(size=n)
            res.stats = st
            res.n_tune, res.n_sample = np.sum(st["tune"]), n - np.sum(st["tune"])
        elif ch.flip(0.5):
            res.precisions = rng.normal(size=(len(patch.bandlist), len(active), len(active)))
            res.flux_opt = bool(ch.choose(2))
        res.chaincat = rng.normal(size=(len(active), n))
        res.final = np.array(active)
        return res

    def judge_samples(self, content, want):
        p = os.path.join(os.path.dirname(self.root), "judge.h5")
        with open(p, "wb") as f:
            f.write(content)
        try:
            got = self.Result()
            got.read_from_h5(p)
        except Exception as e:
            return f"it cannot be read ({type(e).__name__}: {e}, {len(content)} bytes)"
        for k, v in want.items():
            if v is None:
                continue
            if not hasattr(got, k):
                return f"{k} is missing"
            if not same_value(getattr(got, k), v):
                return f"{k} differs"
        return None

    def expected_residuals(self, patch, residual):
        out = {}
        n = np.cumsum(patch.exposure_N[:-1])
        for a in ("data", "xpix", "ypix", "ierr"):
            for e, arr in zip(patch.epaths, np.split(getattr(patch, a), n)):
                out[f"{e}/{a}"] = np.array(arr)
        for a in ("D", "CW", "crpix", "crval"):
            for e, arr in zip(patch.epaths, getattr(patch, a)):
                out[f"{e}/{a}"] = np.array(arr)
        if residual is not None:
            for e, arr in zip(patch.epaths, residual):
                out[f"{e}/residual"] = np.array(arr)
        out["epaths"] = np.array(patch.epaths, dtype="S")
        out["ebands"] = np.array(patch.bands, dtype="S")
        out["reference_coordinates"] = np.array(patch.patch_reference_coordinates)
        return out

    def judge_residuals(self, content, want):
        p = os.path.join(os.path.dirname(self.root), "judge.h5")
        with open(p, "wb") as f:
            f.write(content)
        try:
            with self.h5py.File(p, "r") as h:
                for k, v in want.items():
                    if k not in h:
                        return f"{k} is missing"
                    if not same_value(h[k][()], v):
                        return f"{k} differs"
        except Exception as e:
            return f"it cannot be read ({type(e).__name__}: {e}, {len(content)} bytes)"
        return None

    # ------------------------------------------------------------------ C12
    def run_C12(self, ctx):
        ch = ctx.ch
        name = ch.pick(["meta.json", "sub/meta.json"])
        path = os.path.join(self.root, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        gw = path.replace(".json", ".asdf")
        bystanders = self.add_bystanders(ctx, ch.pick([[], ["other.json"]]))
        use_gwcs = ch.flip(0.3)
        mixed = ch.flip(0.3)         # not every exposure comes with a gwcs
        store = self.MetaStore()
        content, tree = {}, {}
        saved = None                 # what the file on disk must hold
        for step in range(ch.between(2, 8)):
            act = ch.pick(["add", "write", "reopen", "add"])
            if act == "add":
                many = ch.flip(0.05)
                for k in range(40 if many else ch.between(1, 3)):
                    band, exp = ch.pick(["F090W", "F200W", "f444w"]), ch.pick(["e0", "e1", "visit/e2", "exp.1"])
                    if many:
                        band, exp = "F090W", f"e{40 - k}"
                    hdr = self.make_header(ch)
                    im = types.SimpleNamespace(hdr=hdr, band=band, expID=exp)
                    if use_gwcs and not (mixed and ch.flip(0.4)):
                        im.gwcs = dict(tag=ch.choose(1000), m=[float(ch.choose(9)), 2.5])
                        tree.setdefault(band, {})[exp] = im.gwcs
                    store.add_exposure(im)
                    content.setdefault(band, {})[exp] = hdr.copy()
                    ctx.log(f"add {band}/{exp}")
            elif act == "write":
                want = {b: dict(e) for b, e in content.items()}
                wtree = {b: {k: dict(v) for k, v in e.items()} for b, e in tree.items()}
                targets = {path: lambda b: self.judge_meta(b, want)}
                if use_gwcs and wtree:
                    targets[gw] = lambda b: self.judge_asdf(b, wtree)
                old = {p: self.read(p) for p in targets}
                ctx.log(f"write {name}")
                exc, rec, before = self.call(ctx, "write", lambda: store.write_to_file(path), self.plan(ctx, self.WKINDS, self.WMODES))
                final = self.scan(ctx, "C12", rec, shim_copy(before), exc, targets, bystanders, old)
                ctx.log("  on disk: " + ", ".join(f"{self.rel(p)} {v}" for p, v in final.items()))
                if ch.flip(0.3):
                    self.crash(ctx, rec, before)
                b = self.read(path)
                if b is not None and targets[path](b) is None:
                    saved = (want, wtree)
            elif act == "reopen" and self.read(path) is not None and saved is not None:
                have_tree = use_gwcs and self.read(gw) is not None
                load = ch.flip(0.7)
                fault = None
                if ch.flip(0.25):
                    fault = (shim.ERR, ch.pick([errno.EIO, errno.EACCES]), 0, False, [ch.pick([shim.OPEN, shim.READ])])
                box = []
                exc, rec, _ = self.call(ctx, "reopen", lambda: box.append(self.MetaStore(path, load_all=load)), fault)
                if exc is not None:
                    ctx.check(self.read(path) is not None, "C12", "lost", "a failed read removed the store")
                    continue
                ctx.check(not rec.fired or rec.fired_kind in (shim.OPEN, shim.READ) and box, "C12", "silent", "a failed read was not reported")
                store = box[0]
                ctx.check(not [o for o in rec.ops if o.kind not in (shim.OPEN,) or o.off], "C12", "written", "opening the store modified the disk")
                self.compare_store(ctx, store, saved[0], load)
                content = {b: dict(e) for b, e in saved[0].items()}
                # the store reads the gwcs tree only on request: additions after reopening start a new one
                tree = {}
                if use_gwcs:
                    use_gwcs = False
                    ctx.probe("reopened without gwcs")
        want = {b: dict(e) for b, e in content.items()}
        store.write_to_file(path)
        again = self.MetaStore(path, load_all=True)
        self.compare_store(ctx, again, want, True)
        if use_gwcs and tree and {(b, e) for b in tree for e in tree[b]} == {(b, e) for b in want for e in want[b]}:
            got = self.MetaStore(path, use_gwcs=True, load_all=True).wcs
            ok = all(dict(got[b][e]) == t for b, ex in tree.items() for e, t in ex.items())
            ctx.check(ok, "C12", "gwcs", "the gwcs read back differs")
        ctx.nontrivial = True

    def make_header(self, ch):
        n3 = ch.flip(0.15)
        extra = [("FILTER", ch.pick(["F090W", "clear"])), ("ABMAG", 28.0 + ch.uniform(0, 1)), ("NICE", ch.flip(0.5)),
                 ("COUNTS", ch.choose(10**6)), ("OBJECT", ch.pick(["m31", "it's 'quoted'", "", "x" * 60, "long " * 30]))]
        h = field.header(53.0 + ch.uniform(-1, 1), -27.0 + ch.uniform(-1, 1), ch.pick([64, 128]), 0.03 + ch.uniform(0, 0.03),
                         ch.uniform(0, 6.28), (32 + ch.uniform(-5, 5), 32.25), extra)
        if n3:
            h["NAXIS"] = 3
            h.insert("NAXIS2", ("NAXIS3", 4), after=True)
            h["CTYPE3"], h["CRVAL3"], h["CRPIX3"], h["CD3_3"] = "WAVE", 1e-6, 1.0, 1e-8
        if ch.flip(0.3):
            h.add_comment("a comment")
            h.add_history("and history")
        return self.fits.Header.fromstring(h.tostring())      # to the precision of FITS cards

    def judge_meta(self, content, want):
        p = os.path.join(os.path.dirname(self.root), "judge.json")
        with open(p, "wb") as f:
            f.write(content)
        try:
            st = self.MetaStore(p, load_all=False)
        except Exception as e:
            return f"it cannot be read ({type(e).__name__}: {e}, {len(content)} bytes)"
        return self.diff_headers(st.headers, want)

    @staticmethod
    def diff_headers(got, want):
        g = {(b, e) for b in got for e in got[b]}
        w = {(b, e) for b in want for e in want[b]}
        if g != w:
            return f"exposures {sorted(g)} instead of {sorted(w)}"
        for b, e in sorted(w):
            a, c = got[b][e], want[b][e]
            ka, kc = [k for k in a], [k for k in c]
            if [k for k in ka if k] != [k for k in kc if k]:
                return f"keywords of {b}/{e} differ"
            for k in dict.fromkeys(kc):
                if str(a[k]) != str(c[k]) or type(a[k]) is not type(c[k]):
                    return f"{k} of {b}/{e} is {a[k]!r} instead of {c[k]!r}"
        return None

    def judge_asdf(self, content, want):
        p = os.path.join(os.path.dirname(self.root), "judge.asdf")
        with open(p, "wb") as f:
            f.write(content)
        import asdf
        try:
            with asdf.open(p) as af:
                got = {b: {e: dict(tag=t["tag"], m=list(t["m"])) for e, t in af.tree[b].items()} for b in want}
        except Exception as e:
            return f"it cannot be read ({type(e).__name__}: {e}, {len(content)} bytes)"
        return None if got == want else "the tree differs"

    def compare_store(self, ctx, store, want, load):
        from astropy.wcs import WCS
        bad = self.diff_headers(store.headers, want)
        ctx.check(bad is None, "C12", "headers", lambda: f"the reopened store differs: {bad}")
        n = sum(len(e) for e in want.values())
        ctx.check(store.nexp == n, "C12", "nexp", lambda: f"nexp is {store.nexp} instead of {n}")
        if not load:
            return
        for b, e in [(b, e) for b in want for e in want[b]]:
            w = store.wcs[b][e]
            ref = WCS(want[b][e])
            if ref.naxis == 3:
                ref = ref.celestial
            x, y = np.array([1.5, 20, 60.]), np.array([3., 40, 11])
            ctx.check(np.array_equal(np.array(w.pixel_to_world_values(x, y)), np.array(ref.pixel_to_world_values(x, y))),
                      "C12", "wcs", lambda: f"the WCS of {b}/{e} differs")

    # ------------------------------------------------------------------ C13
    def run_C13(self, ctx):
        ch = ctx.ch
        path = os.path.join(self.root, "pix.h5")
        sps = ch.pick([4, 8, 2])
        nside = ch.pick([16, 24, np.array([16, 24]), 8])
        shape = tuple(int(x) for x in (np.zeros(2, dtype=int) + nside))
        if any(s % sps for s in shape):
            shape = (16, 16)
            nside = 16
        ctx.log(f"pixel store {shape} superpixels {sps}")
        stored = {}                  # epath -> expected superpixels, attributes
        store = None
        reader = None

        def openstore(n, s):
            return self.PixelStore(path, nside_full=n, super_pixel_size=s)

        for step in range(ch.between(2, 9)):
            if store is None:
                # reopening with other geometry must not change that of the store
                other = os.path.exists(path) and ch.flip(0.5)
                n_, s_ = (64, 16) if other else (nside, sps)
                fault = None
                if ch.flip(0.3):
                    fault = (shim.ERR, ch.pick([errno.EACCES, errno.EMFILE, errno.EIO]), ch.choose(2), ch.flip(0.5),
                             # HDF5 leaves an empty file if it cannot lock one it just created
                             [ch.pick([shim.OPEN, shim.LOCK]) if os.path.exists(path) else shim.OPEN])
                box = []
                # a store that was never completely created may only be created now
                ctx.log(f"open{' with other geometry' if other else ''}")
                if not os.path.exists(path) and fault is None and ch.flip(0.5):
                    # another process creates the store, and adds to it, between our looking for it and creating it
                    first = self.make_exposure(ch, shape, sps, "F200W", "first")
                    File = self.h5py.File

                    def other_process():
                        st = openstore(nside, sps)
                        st.add_exposure(first[0], **first[1])
                        st.close()

                    def racing(name, *a, **k):
                        try:
                            return File(name, *a, **k)
                        except FileNotFoundError:
                            self.h5py.File = File
                            self.forked(other_process)
                            ctx.fault("another process creates the store meanwhile")
                            ctx.log("  another process creates the store and adds F200W/first")
                            stored["F200W/first"] = first[2]
                            raise
                    self.h5py.File = racing
                    try:
                        exc, rec, before = self.call(ctx, "open", lambda: box.append(openstore(n_, s_)), None)
                    finally:
                        self.h5py.File = File
                else:
                    exc, rec, before = self.call(ctx, "open", lambda: box.append(openstore(n_, s_)), fault)
                if exc is not None:
                    self.check_all(ctx, path, stored, "after a failed open")
                    continue
                store = box[0]
                if other and os.path.getsize(path) and not self.has_attrs:
                    nside, sps, shape = n_, s_, (n_, n_)
                ctx.check(np.array_equal(np.zeros(2) + store.nside_full, np.array(shape)) and int(store.super_pixel_size) == sps,
                          "C13", "geometry", lambda: f"geometry is {store.nside_full}/{store.super_pixel_size} instead of {shape}/{sps}")
                self.check_coordinates(ctx, store, shape, sps)
                self.check_all(ctx, path, stored, "after opening")
                continue
            act = ch.pick(["add", "add", "add", "bad", "reader", "close", "again", "reopen", "gone"])
            if act == "reopen":
                store.close()
                store = None
                continue
            if act == "gone":
                # the disk of the store is not mounted for a while
                store.close()
                reader = None
                os.rename(path, path + ".away")
                imset, kw, want = self.make_exposure(ch, shape, sps, "F090W", "e0")
                ctx.log("add while the file is away")
                ctx.fault("the store is not there")
                try:
                    store.add_exposure(imset, **kw)
                    gone = None
                except Exception as e:
                    gone = e
                ctx.check(gone is not None, "C13", "silent", "an addition was reported as a success although the store was not there")
                if os.path.exists(path):
                    os.remove(path)
                os.rename(path + ".away", path)
                self.check_all(ctx, path, stored, "after it was back")
                continue
            if act == "reader":
                if stored:
                    ep = sorted(stored)[ch.choose(len(stored))]
                    got = store.data[ep + "/data"][()]
                    ctx.check(self.same_pixels(got, *stored[ep]), "C13", "read", f"{ep} read through the store differs")
                    reader = True
                    ctx.log(f"read {ep} and keep the file open")
                continue
            if act == "close":
                store.close()
                reader = None
                ctx.log("close")
                continue
            band, exp = ch.pick(["F090W", "F200W"]), ch.pick(["e0", "e1", "visit/e2", "e0b"])
            if act == "bad" and stored and ch.flip(0.6):
                band, exp = sorted(stored)[ch.choose(len(stored))].split("/", 1)
            epath = f"{band}/{exp}"
            if epath in ("F090W/visit", "F200W/visit"):
                continue
            imset, kw, want = self.make_exposure(ch, shape, sps, band, exp)
            fault, fork = None, False
            if act == "bad":
                imset, kw, why = self.spoil(ch, imset, kw, shape)
                ctx.fault("bad argument: " + why)
                ctx.log(f"add {epath} with {why}")
            else:
                if ch.flip(0.35):
                    fault = (shim.ERR, ch.pick([errno.EACCES, errno.EMFILE, errno.EIO, errno.EROFS]), 0, ch.flip(0.3), [ch.pick([shim.OPEN, shim.LOCK])])
                elif not reader and ch.flip(0.2):
                    fault = self.plan(ctx, [shim.WRITE, shim.TRUNC, shim.CLOSE, shim.READ], [shim.ERR, shim.TORN, shim.FULL, shim.SHORT], p=1.0, counts=(4, 10))
                    fork = True
                ctx.log(f"add {epath}{' again' if epath in stored else ''} {want[2]}")
            copies = [None if a is None else a.copy() for a in (imset.im, imset.ierr, imset.mask, imset.bkg)]
            hcopy = imset.hdr.copy() if imset.hdr is not None else None

            def fn():
                store.add_exposure(imset, **kw)
            failed = None
            if act == "bad" or reader:
                try:
                    exc, rec, before = self.call(ctx, "add", fn, fault)
                    failed = exc
                except Exception as e:
                    if isinstance(e, (Violation,)):
                        raise
                    failed = e
            elif fork:
                # the file is updated in place, so an error in the middle may leave it unusable, but not silently
                exc, rec, before = self.call(ctx, "add", fn, fault, fork=True)
                if exc is not None:
                    ctx.probe("additions failing in the middle")
                    ctx.nontrivial = True
                    return
            else:
                exc, rec, before = self.call(ctx, "add", fn, fault)
                failed = exc
            for a, c, nm in zip((imset.im, imset.ierr, imset.mask, imset.bkg), copies, ("image", "inverse uncertainty", "mask", "background")):
                if a is not None:
                    ctx.check(a.shape == c.shape and np.array_equal(a, c, equal_nan=a.dtype.kind == "f"), "C13", "modified", f"the {nm} passed in was modified")
            if failed is None and act == "bad":
                ctx.check(False, "C13", "accepted", f"an exposure with {why} was accepted")
            if failed is None:
                stored[epath] = want
                ctx.nontrivial = True
            else:
                ctx.log(f"  refused: {type(failed).__name__}")
                ctx.probe("refused additions")
            if reader:
                store.close()
                reader = None
            self.check_all(ctx, path, stored, f"after adding {epath}", skip=())
            if failed is not None:
                imset, kw, want = self.make_exposure(ch, shape, sps, band, exp)
                store.add_exposure(imset, **kw)
                stored[epath] = want
                self.check_all(ctx, path, stored, f"after adding {epath} again")
        if store is not None:
            store.close()
        self.check_all(ctx, path, stored, "at the end")

    has_attrs = True

    def check_coordinates(self, ctx, store, shape, sps):
        yy, xx = np.meshgrid(np.arange(shape[1]), np.arange(shape[0]))
        both = field.superpixels(xx, yy, sps)
        ok = np.array_equal(store.xpix, both[..., :sps**2].astype(int)) and np.array_equal(store.ypix, both[..., sps**2:].astype(int))
        ctx.check(ok, "C13", "coordinates", "the pixel coordinates of the store do not match its pixels")

    def check_all(self, ctx, path, stored, where, skip=()):
        if not os.path.exists(path):
            ctx.check(not stored, "C13", "lost", f"the store is missing {where}")
            return
        try:
            with self.h5py.File(path, "r") as h:
                found = []
                h.visititems(lambda n, o: found.append(n) if isinstance(o, self.h5py.Dataset) else None)
                got = {n[:-5]: (h[n][()], dict(h[n].attrs)) for n in found}
        except OSError as e:
            raise Violation("C13", "unreadable", f"the store cannot be read {where}: {e}")
        if set(got) != set(stored):
            ctx.fail("C13", "exposures", f"the store holds {sorted(got)} instead of {sorted(stored)} {where}")
        for ep, (pix, attrs, what) in stored.items():
            g, a = got[ep]
            if not self.same_pixels(g, pix, attrs, what):
                k = np.argwhere(g != pix)[:1] if g.shape == pix.shape else "shape"
                ctx.fail("C13", "pixels", f"the pixels of {ep} ({what}) differ from what was added {where}, first at {k}")
            for k, v in attrs.items():
                ctx.check(k in a and same_value(a[k], v), "C13", "attributes", lambda: f"attribute {k} of {ep} is {a.get(k)!r} instead of {v!r}")
            stale = sorted(k for k in ("bitmask_applied", "image_name", "im", "err", "bkg", "mask") if k in a and k not in attrs)
            ctx.check(not stale, "C13", "attributes", lambda: f"{ep} has the attributes {stale}, which do not describe the exposure added last")

    @staticmethod
    def same_pixels(g, pix, attrs, what):
        return g.shape == pix.shape and g.dtype == pix.dtype and (
            np.array_equal(g, pix) or ("fluxcal" in what and np.allclose(g, pix, rtol=3e-6, atol=0)))

    def make_exposure(self, ch, shape, sps, band, exp):
        from forcepho.patches.storage import ImageSet, ImageNameSet
        rng = np.random.default_rng(ch.bits())
        dt = ch.pick([np.float32, np.float64])
        im = rng.normal(0, 10, shape).astype(dt)
        ierr = rng.uniform(0.1, 3, shape).astype(dt)
        what = [np.dtype(dt).name]
        if ch.flip(0.5):
            for a, vals in ((im, [np.nan, np.inf, -np.inf]), (ierr, [np.nan, np.inf, -1.0, 0.0])):
                for v in vals:
                    a[rng.uniform(size=shape) < 0.04] = v
            what.append("bad pixels")
        bkg = mask = None
        if ch.flip(0.4):
            bkg = rng.normal(1, 0.1, shape).astype(dt)
            what.append("background")
            if ch.flip(0.3):
                bkg[rng.uniform(size=shape) < 0.03] = np.nan
                bkg[rng.uniform(size=shape) < 0.02] = ch.pick([np.inf, -np.inf, np.nan])
        kw = {}
        pm = None
        kind = ch.pick(["none", "bool", "bits", "int"])
        if kind == "bool":
            mask = rng.uniform(size=shape) < 0.1
            pm = mask
        elif kind == "bits":
            mask = rng.integers(0, 8, shape) | (rng.integers(0, 2, shape) << ch.pick([8, 20, 30]))
            kw["bitmask"] = ch.pick([4, 1, 5, 1 << 20, (1 << 30) | 1, 1 << 8])
            pm = (mask & kw["bitmask"]) != 0
        elif kind == "int":
            mask = (rng.uniform(size=shape) < 0.1).astype(ch.pick([np.int64, np.int32])) * ch.pick([1, 4, -2**31, -1])
            pm = mask != 0
        what.append("mask " + kind)
        attrs = {}
        hdr = field.header(53, -27, shape[0], 0.06, 0.1, (8, 8))
        conv = 1.0
        attrs["counts_to_flux"], attrs["flux_units"] = 1.0, "image"
        if ch.flip(0.3):
            kw["do_fluxcal"] = True
            if ch.flip(0.7):
                hdr["ABMAG"] = 28.0 + ch.choose(5) / 4
                conv = 1e9 * 10**(0.4 * (8.9 - hdr["ABMAG"]))
                attrs["flux_units"] = "nJy"
            else:
                attrs["flux_units"] = "counts"
            attrs["counts_to_flux"] = conv
            what.append("fluxcal")
        if kw.get("bitmask"):
            attrs["bitmask_applied"] = kw["bitmask"]
        names = ch.pick([None, "image.fits", "set"])
        if names == "set":
            names = ImageNameSet("im.fits", "err.fits", None, "bkg.fits")
            attrs.update(im="im.fits", err="err.fits", bkg="bkg.fits")
        elif names:
            attrs["image_name"] = names
        # what the documentation says is stored
        b = np.zeros(shape, dtype=dt) if bkg is None else bkg
        v = im - b if bkg is not None else im.copy()
        bad = ~(np.isfinite(ierr) & np.isfinite(v) & (ierr >= 0))
        if pm is not None:
            bad = bad | pm
        e = np.where(bad, 0, ierr)
        v = np.where(bad, np.where(np.isfinite(b), b, 0), v)
        if kw.get("do_fluxcal"):
            v = v * conv
            e = e / conv
        pix = field.superpixels(v, e, sps)
        return ImageSet(im, ierr, mask, bkg, hdr, band, exp, names), kw, (pix, attrs, ",".join(what))

    def spoil(self, ch, imset, kw, shape):
        kind = ch.pick(["a wrong shape", "a size that is no multiple of the superpixels", "mismatched uncertainties", "mismatched background", "no image",
                        "a calibration that is not a number", "a calibration that overflows"])
        if kind == "a wrong shape":
            s = (shape[0] * 2, shape[1])
            if shape[0] != shape[1] and ch.flip(0.5):
                s = (shape[1], shape[0])
            imset = imset._replace(im=np.ones(s, np.float32), ierr=np.ones(s, np.float32), mask=None, bkg=None)
        elif kind == "a size that is no multiple of the superpixels":
            s = (shape[0] + 1, shape[1] + 1)
            imset = imset._replace(im=np.ones(s, np.float32), ierr=np.ones(s, np.float32), mask=None, bkg=None)
        elif kind == "mismatched uncertainties":
            imset = imset._replace(ierr=np.ones((shape[0] + 3, shape[1] + 3), np.float32), mask=None)
        elif kind == "mismatched background":
            imset = imset._replace(bkg=np.ones((shape[0] + 3, shape[1] + 3), imset.im.dtype))
        elif kind.startswith("a calibration"):
            hdr = imset.hdr.copy() if "number" not in kind else dict(imset.hdr)
            hdr["ABMAG"] = -90.0 if "number" not in kind else float("nan")
            imset, kw = imset._replace(hdr=hdr), dict(kw, do_fluxcal=True)
        else:
            imset = imset._replace(im=None)
        return imset, kw, kind


def shim_copy(disk):
    """an independent copy of a disk model"""
    d = shim.Disk.__new__(shim.Disk)
    d.root, d.dirs = disk.root, set(disk.dirs)
    memo = {}

    def cp(f):
        if id(f) not in memo:
            memo[id(f)] = f.copy()
        return memo[id(f)]
    d.files = {p: cp(f) for p, f in disk.files.items()}
    d.inodes = {i: cp(f) for i, f in disk.inodes.items()}
    return d


def same_value(a, b):
    if isinstance(b, np.ndarray) or isinstance(a, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if b.dtype.names:
            return a.dtype.names == b.dtype.names and all(same_value(np.asarray(a[n]), np.asarray(b[n])) for n in b.dtype.names)
        if b.dtype.kind == "f":
            return np.array_equal(a, b, equal_nan=True)
        return bool(np.all(a == b))
    if isinstance(b, float) and isinstance(a, (float, np.floating)):
        return a == b or (a != a and b != b)
    return bool(a == b)
