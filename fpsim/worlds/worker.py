"""Reused workers (C14) and the memo of the posterior (C16).

Real code: patches (pixel and FITS stores), scenes, proposer, posterior, the compiled CPU kernel of the
working tree.  Simulated: the order of tasks and steps on one or two patch objects living in one process,
read errors (at libc level), kernel errors, interrupts at any line, tasks that cannot be done.
Reference: the same task, done by a new patch object in a pristine copy of the process.
"""
import errno
import os
import pickle
import signal

import numpy as np

from ..core import HarnessGap, Violation, World, exc_chain
from .. import faults, field, shim

ARRAYS = ["data", "ierr", "xpix", "ypix", "exposure_start", "exposure_N", "band_start", "band_N", "band_N_pix"]
LISTS = ["epaths", "bands", "bandlist", "n_bands", "n_exp"]


def freeze(x):
    """a picklable copy"""
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return [freeze(v) for v in x]
    if isinstance(x, BaseException):
        return f"{type(x).__name__}: {x}"
    if isinstance(x, dict):
        return {k: freeze(v) for k, v in x.items()}
    return x


def differ(a, b, exact=True, where=""):
    """None, or where and how two answers differ"""
    if isinstance(a, dict):
        if set(a) != set(b):
            return f"{where}: {sorted(a)} instead of {sorted(b)}"
        for k in a:
            d = differ(a[k], b[k], exact, f"{where}{k} ")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{where}: {len(a)} items instead of {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, exact, f"{where}[{i}] ")
            if d:
                return d
        return None
    if isinstance(a, (np.ndarray, np.generic, float)) and not isinstance(a, (str, bytes)):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return f"{where}: shape {a.shape} instead of {b.shape}"
        if a.dtype.names:
            for n in a.dtype.names:
                d = differ(a[n], b[n], exact, f"{where}{n} ")
                if d:
                    return d
            return None
        if a.dtype.kind in "fc":
            ok = np.array_equal(a, b, equal_nan=True) or (not exact and np.allclose(a, b, rtol=1e-6, atol=1e-9 * (1 + np.nanmax(np.abs(b), initial=0)), equal_nan=True))
            if not ok:
                with np.errstate(invalid="ignore"):
                    k = np.unravel_index(np.nanargmax(np.abs(a - b)), a.shape) if a.size and np.isfinite(a - b).any() else "?"
                return f"{where}: {a[k] if k != '?' else a} instead of {b[k] if k != '?' else b} at {k}"
            return None
        return None if np.array_equal(a, b) else f"{where}: {a} instead of {b}"
    return None if a == b else f"{where}: {a!r} instead of {b!r}"


class WorkerWorld(World):
    name = "worker"
    wall = 120
    isolate = True
    per_property = True
    runs = dict(quick={"*": 800, "C16": 2500}, thorough={"*": 20000})
    rule = ("a run is one history of tasks and evaluations on reused objects; non-trivial if a result was compared after an earlier task, "
            "evaluation or fault on the same object; distinct by the sequence of steps, faults and outcomes")
    components = dict(real=["forcepho patches, scene, proposer, posterior", "CPU kernel (compiled from the working tree)", "h5py/HDF5 and astropy reading"],
                      stub=["read errors (libc level)", "kernel failures", "interrupts (counted lines)"])
    assumptions = ["a task starts with build_patch", "evaluation is a deterministic function on one machine"]

    def prepare(self, prop, tier):
        from .. import repo
        from ..core import scratch_root
        repo.install()
        self.kernel = faults.Kernel(repo.use_kernel())
        shim.lib()
        import forcepho.superscene as ss
        from forcepho.patches import CPUPatchMixin, StorePatch, FITSPatch
        from forcepho.region import CircularRegion
        from forcepho import fitting
        import forcepho.model as fmodel
        from forcepho.priors import ExpBeta
        self.ss, self.CircularRegion, self.fitting, self.model, self.ExpBeta = ss, CircularRegion, fitting, fmodel, ExpBeta
        self.field = field.Field(os.path.join(scratch_root(), "field"), fits=True)

        from astropy.wcs import WCS
        y, x = np.meshgrid(np.arange(self.field.nside), np.arange(self.field.nside))
        self.wcses = {k: WCS(v[2]) for k, v in self.field.images.items()}
        self.skies = {k: w.all_pix2world(x, y, 0) for k, w in self.wcses.items()}

        class Store(StorePatch, CPUPatchMixin):
            pass

        class Fits(FITSPatch, CPUPatchMixin):
            pass
        f = self.field
        self.makers = dict(
            store=lambda: Store(pixelstore=f.pixelstore, metastore=f.metastore, psfstore=f.psfstore, splinedata=f.splinedata),
            fits=lambda: Fits(fitsfiles=f.fitsfiles, psfstore=f.psfstore, splinedata=f.splinedata))

        if prop == "C16":
            self.prepare_models()

    def run(self, ctx):
        signal.signal(signal.SIGINT, signal.default_int_handler)
        getattr(self, "run_" + ctx.prop)(ctx)

    # ------------------------------------------------------------------ tasks
    def draw_task(self, ctx, kind=None):
        ch, f = ctx.ch, self.field
        t = dict()
        t["bands"] = ch.pick([f.bands, f.bands[:1], f.bands[1:], f.bands[::2], f.bands[::-1], ["F999X"] + f.bands])
        t["radius"] = ch.pick([0.5, 0.25, 0.9])
        t["center"] = (field.RA0 + ch.uniform(-0.4, 0.4) / 3600, field.DEC0 + ch.uniform(-0.4, 0.4) / 3600)
        na, nf, nb = ch.between(1, 3), ch.pick([0, 1, 3]), ch.pick([0, 0, 2])
        cat = f.sources(ch, na + nf + nb, self.ss.sourcecat_dtype(bands=f.bands))
        t["active"], t["fixed"], t["big"] = cat[:na], (cat[na:na + nf] if nf else None), (cat[na + nf:] if nb else None)
        t["maxactive"] = ch.pick([15, 2, 1])
        t["bounded"] = not ch.flip(0.25)
        t["tweak"] = "BKG" if ch.flip(0.3) else False
        t["max_snr"] = ch.pick([None, None, 5.0])
        ops = []
        for _ in range(ch.between(1, 4)):
            op = ch.pick(["lnprob", "residuals", "design", "grad", "nll", "flat", "fluxes", "patchscene"])
            ops.append((op, ch.between(0, 2)))
        t["ops"] = ops
        t["seed"] = ch.bits()
        bad = ch.weighted([(None, 8), ("region", 1), ("band", 1), ("column", 1)])
        t["bad"] = bad
        if bad == "region":
            t["center"] = (field.RA0 + 1.0, field.DEC0)
        elif bad == "band":
            t["bands"] = ["F115W"]
        elif bad == "column":
            import numpy.lib.recfunctions as rfn
            t["active"] = rfn.drop_fields(t["active"], ch.pick(["rhalf", f.bands[0]]), usemask=False)
        return t

    def positions(self, t, model, q):
        rng = np.random.default_rng(t["seed"])
        if t["bounded"]:
            return [rng.normal(0, 0.8, len(q)) for _ in range(3)]
        return [q * (1 + rng.normal(0, 0.01, len(q))) for _ in range(3)]

    def build(self, p, t):
        p.max_snr = t["max_snr"]
        reg = self.CircularRegion(t["center"][0], t["center"][1], t["radius"] / 3600)
        p.build_patch(reg, None, allbands=t["bands"], tweak_background=t["tweak"])
        out = {n: freeze(getattr(p, n)) for n in ARRAYS + LISTS}
        out["split"] = freeze(p.split_pix("data")) + freeze(p.split_band("ierr"))
        out["npix"] = p.npix
        return out

    def ready(self, p, t):
        kw = {}
        if t["bounded"]:
            kw["bounds"] = self.ss.make_bounds(t["active"], self.field.bands)
        model, q = p.prepare_model(active=t["active"].copy(), fixed=None if t["fixed"] is None else t["fixed"].copy(),
                                   big=None if t["big"] is None else t["big"].copy(), maxactive=t["maxactive"], **kw)
        out = {n: freeze(getattr(p, n)) for n in p.meta_names}
        out.update(q=q.copy(), ref=freeze(p.patch_reference_coordinates), device_data=freeze(p.retrieve_array("data")),
                   params=freeze(model.scene.get_all_source_params()), ncall=model.ncall)
        if t["bounded"]:
            out.update(lower=freeze(model.transform.lower), upper=freeze(model.transform.upper))
        return model, q, out

    def op(self, p, t, model, q, op, k):
        z = self.positions(t, model, q)[k]
        if op == "lnprob":
            return float(model.lnprob(z))
        if op == "grad":
            return model.lnprob_grad(z)
        if op == "nll":
            return list(model.nll(z))
        if op == "residuals":
            return model.residuals(model.transform.transform(z))
        if op == "flat":
            return model.residuals(model.transform.transform(z), unpack=False)
        if op == "patchscene":
            # another posterior, of the patch as it was prepared
            other = self.model.FastPosterior(p.get_proposer(), p, transform=self.model.Transform(len(q)))
            return list(other.lnprob_and_grad(model.transform.transform(z)))
        if op == "design":
            X, y = p.design_matrix(active=t["active"])
            return [X, y]
        if op == "fluxes":
            fl, prec = self.fitting.optimize_fluxes(p, t["active"], return_all=True)[:2]
            return [fl, prec]

    def reference(self, kind, t):
        """what a new patch object makes of the task, each evaluation on its own"""
        p = self.makers[kind]()
        out = dict(build=self.build(p, t))
        try:
            model, q, out["prepare"] = self.ready(p, t)
        except Exception as e:
            out["error"] = f"{type(e).__name__}"
            return out
        out["ops"] = [faults.pristine(lambda o=o, k=k: freeze(self.op(p, t, model, q, o, k))) for o, k in t["ops"]]
        return out

    def doable(self, prop, i, t, ref):
        """a task with nothing wrong about it can be done by a new worker (there may be no pixels, though)"""
        if t["bad"] is not None:
            return
        what = None
        if ref[0] == "raised":
            if ref[1] not in ("ValueError", "AssertionError"):
                what = f"building raises {ref[1]}: {ref[2]}"
        elif "error" in ref[1]:
            what = f"preparing raises {ref[1]['error']}"
        else:
            for (o, k), r in zip(t["ops"], ref[1]["ops"]):
                if r[0] == "raised":
                    what = f"{o} {k} raises {r[1]}: {r[2]}"
        if what:
            raise Violation(prop, "fresh-raises", f"task {i} cannot be done by a new worker: {what}")

    def check_pixels(self, i, kind, t, b):
        """the pixels of a patch are those stored, of the exposures it names, in the region"""
        f = self.field

        def bad(what):
            raise Violation("C14", "other-pixels", f"task {i} ({kind}): {what}")
        bands = [str(x) for x in b["bands"]]
        if [x for x in t["bands"] if x in bands] != [str(x) for x in b["bandlist"]]:
            bad(f"bands {b['bandlist']} for a task in {t['bands']}")
        if list(dict.fromkeys(bands)) != [str(x) for x in b["bandlist"]] or sorted(bands, key=t["bands"].index) != bands:
            bad(f"exposures of {bands}, bands {b['bandlist']}")
        if len(b["epaths"]) != len(set(b["epaths"])):
            bad(f"an exposure appears twice in {b['epaths']}")
        at = 0
        for e, path in enumerate(b["epaths"]):
            name = os.path.basename(str(path))[:-5] if kind == "fits" else str(path)
            band, exp = name.split("_" if kind == "fits" else "/")
            if band != bands[e]:
                bad(f"{path} is listed as an exposure of {bands[e]}")
            im, ierr, hdr = (f.fitsimages if kind == "fits" else f.images)[band, exp]
            lo, n = int(b["exposure_start"][e]), int(b["exposure_N"][e])
            if lo != at:
                bad(f"exposure {e} starts at pixel {lo}, those before it end at {at}")
            at += n
            x, y, d, w = (np.asarray(b[a])[lo:lo + n] for a in ("xpix", "ypix", "data", "ierr"))
            real = (x >= 0) & (y >= 0)
            if np.any(x >= im.shape[0]) or np.any(y >= im.shape[1]):
                bad(f"pixels beyond the edge of {path}")
            if np.any(w[~real] != 0):
                bad(f"padding of {path} has weight")
            x, y, d, w = x[real].astype(int), y[real].astype(int), d[real].astype(float), w[real].astype(float)
            if len(set(zip(x.tolist(), y.tolist()))) != len(x):
                bad(f"a pixel of {path} appears twice")
            want = im[x, y].astype(float) - (hdr["BKG"] if t["tweak"] else 0.0)
            if np.any(np.abs(d - want) > 1e-5 * (1 + np.abs(want))):
                bad(f"pixel data of {path} are not those stored (less the background: {bool(t['tweak'])})")
            full = ierr[x, y].astype(float)
            if t["max_snr"]:
                cap = (full > 0) & (want * full > t["max_snr"])
                full = np.where(cap, t["max_snr"] / np.where(cap, want, 1.0), full)
            if np.any(np.abs(w - full) > 1e-4 * np.abs(full)):
                bad(f"inverse errors of {path} are not those stored (largest S/N: {t['max_snr']})")
            # which pixels: all that are well inside, none of those far outside
            ra, dec = (a[:im.shape[0], :im.shape[1]] for a in self.skies[band, exp])
            sep = np.hypot((ra - t["center"][0]) * np.cos(np.deg2rad(dec)), dec - t["center"][1]) * 3600
            inside, here, s = sep < t["radius"] - f.scale, np.zeros(sep.shape, bool), f.sps if kind == "store" else 1
            here[x, y] = True
            far = sep > t["radius"] + 2 * f.scale
            if s > 1:
                block = lambda a: a.reshape(a.shape[0] // s, s, a.shape[1] // s, s).transpose(0, 2, 1, 3).reshape(-1, s * s)
                corners = [0, s - 1, s * s - s, s * s - 1]
                inside, far, here = block(inside)[:, corners].any(axis=1), block(far).all(axis=1), block(here).all(axis=1)
            if np.any(inside & ~here) or np.any(far & here):
                bad(f"{np.sum(inside & ~here)} pixels of {path} in the region are missing, {np.sum(far & here)} far outside of it are there")
        named = {os.path.basename(str(x))[:-5].replace("_", "/") if kind == "fits" else str(x) for x in b["epaths"]}
        for (band, exp), (im, ierr, hdr) in sorted((f.fitsimages if kind == "fits" else f.images).items(), key=lambda k: k[0]):
            if band not in t["bands"] or f"{band}/{exp}" in named:
                continue
            r = t["radius"] / 3600
            bx, by = self.wcses[band, exp].all_world2pix(t["center"][0] + np.array([-1, 1, -1, 1]) * r / np.cos(np.deg2rad(field.DEC0)),
                                                         t["center"][1] + np.array([-1, -1, 1, 1]) * r, 0)
            ra, dec = (a[:im.shape[0], :im.shape[1]] for a in self.skies[band, exp])
            sep = np.hypot((ra - t["center"][0]) * np.cos(np.deg2rad(dec)), dec - t["center"][1]) * 3600
            seen = sep[::f.sps, ::f.sps] if kind == "store" else sep
            if bx.min() > 1 and by.min() > 1 and bx.max() < im.shape[0] - 2 and by.max() < im.shape[1] - 2 and np.any(seen < t["radius"] - f.scale):
                bad(f"{band}/{exp} covers the region but is not part of it: {b['epaths']}")
        if at != len(b["data"]):
            bad(f"{len(b['data'])} pixels, of which exposures claim {at}")

    # ------------------------------------------------------------------ C14
    def run_C14(self, ctx):
        ch = ctx.ch
        nworkers = 1 + (1 if ch.flip(0.3) else 0)
        kinds = [ch.pick(["store", "store", "store", "fits"]) for _ in range(nworkers)]
        ntasks = ch.between(2, 5)
        jobs = []
        for i in range(ntasks):
            w = ch.choose(nworkers)
            t = self.draw_task(ctx)
            jobs.append((w, t, faults.pristine(self.reference, kinds[w], t)))
            self.doable("C14", i, t, jobs[-1][2])
            if jobs[-1][2][0] == "value":
                self.check_pixels(i, kinds[w], t, jobs[-1][2][1]["build"])
                ctx.probe("patches compared with the stored pixels")
        queues = [[(i, t, r) for i, (w, t, r) in enumerate(jobs) if w == k] for k in range(nworkers)]
        patches = [self.makers[k]() for k in kinds]
        state = [dict(job=None, stage=None, model=None, q=None, done=0) for _ in range(nworkers)]
        handed = []                  # (what, object, frozen copy)
        ctx.log(f"{nworkers} patch objects {kinds}, {ntasks} tasks")
        compared = 0
        budget = 60
        while budget and any(queues) or any(s["job"] for s in state):
            budget -= 1
            if budget <= 0:
                break
            live = [k for k in range(nworkers) if state[k]["job"] or queues[k]]
            k = live[ch.choose(len(live))]
            s, p = state[k], patches[k]
            if s["job"] is None:
                s.update(job=queues[k].pop(0), stage="build", model=None, iop=0, tainted=False)
            i, t, ref = s["job"]
            stage = s["stage"]
            if stage == "op" and s["iop"] >= len(t["ops"]):
                s["job"] = None
                s["done"] += 1
                continue
            name = stage if stage != "op" else f"{t['ops'][s['iop']][0]} {t['ops'][s['iop']][1]}"
            fault = self.draw_fault(ctx, stage)

            def act():
                if stage == "build":
                    return self.build(p, t)
                if stage == "prepare":
                    model, q, out = self.ready(p, t)
                    s.update(model=model, q=q)
                    return out
                o, kk = t["ops"][s["iop"]]
                return self.op(p, t, s["model"], s["q"], o, kk)
            got, exc, fired = self.perform(ctx, act, fault)
            ctx.log(f"worker {k} task {i} {name}: {'raised ' + type(exc).__name__ if exc is not None else 'ok'}{' fault ' + fired if fired else ''}")
            if fired:
                ctx.nontrivial = True
            if exc is not None:
                expected = (ref[0] == "raised" and stage == "build") or (ref[0] == "value" and "error" in ref[1] and stage == "prepare") or \
                    (stage == "op" and ref[0] == "value" and "ops" in ref[1] and ref[1]["ops"][s["iop"]][0] == "raised")
                if not fired and not expected and s["tainted"]:
                    # the fault of an earlier step was reported as a warning only (missing spline data)
                    ctx.probe("faults that surface later")
                    s["job"] = None
                    continue
                if not fired and not expected:
                    raise Violation("C14", "raises", f"task {i} {name} raises {type(exc).__name__}: {exc} on a reused patch, not on a new one")
                if expected and not fired:
                    ctx.fault("task that cannot be done")
                    if stage == "op":
                        s["iop"] += 1
                    else:
                        s["job"] = None
                    continue
                # after an injected fault: give up, start the task again, or go on as far as that makes sense
                choices = ["again", "give up"]
                if fault[0] in ("kernel", "read"):
                    choices.append("go on" if stage == "op" else "same step")
                then = ch.pick(choices)
                ctx.log(f"  {then}")
                if then == "give up":
                    s["job"] = None
                elif then == "again":
                    s.update(stage="build", iop=0, tainted=False)
                elif then == "same step" and stage == "prepare":
                    got, exc, _ = self.perform(ctx, act, None)
                    if exc is not None:
                        ctx.log("  refused")
                        ctx.probe("preparing again refused")
                        s.update(stage="build", iop=0, tainted=False)
                    else:
                        self.compare(ctx, i, name, got, ref[1]["prepare"])
                        s.update(stage="op", iop=0)
                continue
            # the step returned
            s["tainted"] = s["tainted"] or bool(fired)
            if stage == "build":
                if ref[0] == "raised":
                    raise Violation("C14", "accepted", f"task {i} can be built on a reused patch but not on a new one ({ref[1]})")
                self.compare(ctx, i, name, got, ref[1]["build"])
                s["stage"] = "prepare"
            elif stage == "prepare":
                if "error" in ref[1]:
                    raise Violation("C14", "accepted", f"task {i} can be prepared on a reused patch but not on a new one ({ref[1]['error']})")
                if not fired:
                    self.compare(ctx, i, name, got, ref[1]["prepare"])
                    px = {a: getattr(p, a) for a in ("data", "ierr", "xpix", "ypix") if isinstance(getattr(p, a, None), np.ndarray)}
                    handed.append((f"the pixel data of task {i}", px, {a: v.copy() for a, v in px.items()}))
                s.update(stage="op", iop=0)
            else:
                r = ref[1]["ops"][s["iop"]]
                if r[0] == "raised":
                    raise Violation("C14", "accepted", f"task {i} {name} works on a reused patch but not on a new one ({r[1]}: {r[2]})")
                self.compare(ctx, i, name, freeze(got), r[1], exact=False)
                if t["ops"][s["iop"]][0] != "fluxes":
                    handed.append((f"{name} of task {i}", got, freeze(got)))
                s["iop"] += 1
            compared += 1
            if s["done"] or compared > 3:
                ctx.nontrivial = True
            for what, obj, copy in handed:
                d = differ(obj, copy)
                if d:
                    raise Violation("C14", "changed", f"the result of {what} changed later: {d}")

    def compare(self, ctx, i, name, got, want, exact=True):
        ctx.probe("answers compared")
        d = differ(got, want, exact)
        if d:
            raise Violation("C14", f"differs-{name.split()[0]}", f"task {i} {name} on a reused patch differs from a new one: {d}")

    def draw_fault(self, ctx, stage):
        ch = ctx.ch
        if not ch.flip(0.25):
            return None
        opts = ["interrupt"]
        if stage in ("build", "prepare"):
            opts.append("read")
        if stage in ("prepare", "op"):
            opts.append("kernel")
        kind = ch.pick(opts)
        if kind == "interrupt":
            n = ch.pick({"build": [30, 200, 1000], "prepare": [100, 800, 4000], "op": [10, 60, 300]}[stage])
            return ("interrupt", ch.choose(n))
        if kind == "read":
            return ("read", ch.pick([shim.READ, shim.READ, shim.OPEN]), ch.choose(ch.pick([3, 10, 40])), ch.flip(0.3))
        return ("kernel", ch.choose(4), ch.pick(["before", "after"]), ch.pick([MemoryError, RuntimeError, KeyboardInterrupt]))

    def perform(self, ctx, act, fault):
        """(result, exception or None, fault that fired or None)"""
        fired = None
        try:
            if fault is None:
                return act(), None, None
            if fault[0] == "interrupt":
                tr = faults.LineInterrupt(fault[1], module=fault[2] if len(fault) > 2 else "")
                try:
                    with tr:
                        got = act()
                finally:
                    if tr.fired:
                        fired = "interrupt in " + tr.fired
                        ctx.fault("interrupt")
            elif fault[0] == "read":
                rec = shim.Recorder(self.field.root, (shim.ERR, errno.EIO if fault[1] == shim.READ else errno.EMFILE, fault[2], fault[3], [fault[1]]))
                try:
                    with rec:
                        got = act()
                finally:
                    if rec.fired:
                        fired = f"{shim.NAMES[fault[1]]} error"
                        ctx.fault(fired)
            else:
                self.kernel.arm(fault[1], fault[2], fault[3]())
                try:
                    got = act()
                finally:
                    if self.kernel.fired:
                        fired = f"kernel {fault[3].__name__} {fault[2]}"
                        ctx.fault("kernel failure")
                    self.kernel.disarm()
                    self.kernel.fired = False
            return got, None, fired
        except (Violation, HarnessGap):
            raise
        except BaseException as e:
            if type(e).__name__ == "Hang":
                raise
            # drop the frames: they keep the HDF5 dataset of a failed read open, whose buffer HDF5 then trusts
            for x in exc_chain(e):
                x.__traceback__ = None
            return None, e, fired

    # ------------------------------------------------------------------ C16
    def prepare_models(self):
        """prepared patches whose posterior was never evaluated"""
        import random
        from ..core import Choices
        f = self.field
        self.models = []
        for k, (na, nf, rad, bands, bounded) in enumerate([(2, 1, 0.5, f.bands, True), (1, 0, 0.25, f.bands[1:2], True), (3, 2, 0.9, f.bands[::2], False)]):
            ch = Choices(rng=random.Random(100 + k))
            cat = f.sources(ch, na + nf, self.ss.sourcecat_dtype(bands=f.bands))
            p = self.makers["store"]()
            p.build_patch(self.CircularRegion(field.RA0, field.DEC0, rad / 3600), None, allbands=bands)
            kw = dict(bounds=self.ss.make_bounds(cat[:na], f.bands)) if bounded else {}
            model, q = p.prepare_model(active=cat[:na], fixed=cat[na:] if nf else None, **kw)
            lo, hi = (model.transform.lower, model.transform.upper) if bounded else (q - 50, q + 50)
            self.models.append((p, model, q, bounded, np.asarray(lo, dtype=float), np.asarray(hi, dtype=float)))

    def slow_model(self, ctx, n):
        """the reference posterior class around a likelihood of ours"""
        fm = self.model
        rng = np.random.default_rng(5 + n)
        a, s = rng.normal(0, 1, n), rng.uniform(0.5, 2, n)
        world = self
        box = dict(plan=None, calls=0)

        def lnlike(q, scene=None, plans=None, **kw):
            box["calls"] += 1
            if box["plan"] is not None and box["calls"] == box["plan"][0] + 1:
                world.kernel.fired = True
                raise box["plan"][1]
            d = (q - a) * s
            return -0.5 * float(np.sum(d**2)), -d * s

        def lnprior(q):
            return -float(np.sum(np.abs(q))) * 0.1, -0.1 * np.sign(q)
        lo, hi = np.full(n, -3.0), np.full(n, 4.0)
        m = fm.SlowPosterior(scene=None, plans=[None], lnlike=lnlike, lnprior=lnprior, transform=fm.BoundedTransform(lo, hi))
        return m, box

    def ask(self, m, op, z, q):
        if op == "lnprob":
            return float(m.lnprob(z))
        if op == "grad":
            return m.lnprob_grad(z)
        if op == "both":
            return list(m.lnprob_and_grad(z))
        if op == "nll":
            return list(m.nll(z))
        if op == "nll_nograd":
            return float(m.nll_nograd(z))
        if op == "residuals":
            return m.residuals(q)
        if op == "flat":
            return m.residuals(q, unpack=False)
        if op == "op":
            out = [[None]]
            self.model.LogLikeWithGrad(m).perform(None, [z], out)
            return float(out[0][0])
        if op == "opgrad":
            out = [[None]]
            self.model.LogLikeWithGrad(m).GradObj.perform(None, [z], out)
            return out[0][0]
        if op == "check_grad":
            return list(m.check_grad(z, delta=1e-3))
        raise HarnessGap(op)

    FAST = ["lnprob", "grad", "both", "nll", "nll_nograd", "residuals", "flat", "op", "opgrad", "check_grad"]
    SLOW = ["lnprob", "grad", "both", "op", "opgrad"]

    def run_C16(self, ctx):
        ch = ctx.ch
        slow = ch.flip(0.2)
        if slow:
            n = ch.pick([3, 1, 8])
            m, box = self.slow_model(ctx, n)
            models, bounded, q = [m], True, np.zeros(n)
            lo, hi = np.full(n, -3.0), np.full(n, 4.0)
            priors = [None]
            ctx.log(f"SlowPosterior of {n} parameters")
        else:
            p, model, q, bounded, lo, hi = self.models[ch.choose(len(self.models))]
            models = [model]
            n = len(q)
            if ch.flip(0.25):
                # a second posterior on the same patch
                kw = dict(lower=lo - 0.01 * (hi - lo), upper=hi + 0.01 * (hi - lo)) if bounded else dict(transform=self.model.Transform(n))
                models.append(self.model.FastPosterior(model.proposer, patch=p, scene=model.scene, **kw))
            priors = [None, self.ExpBeta(lo - 1e-3, hi + 1e-3)] if bounded else [None]

            def flat(qq):
                return -0.5 * float(np.sum(qq**2)) * 1e-4, -qq * 1e-4
            priors.append(flat)
            if not hasattr(model, "_lnpriorfn"):     # the prior cannot be changed afterwards
                priors = [None]
            ctx.log(f"{len(models)} FastPosterior of {n} parameters, {'bounded' if bounded else 'unbounded'}")
        logged = set(range(len(models))) if not slow and ch.flip(0.4) else set()
        if not slow:
            for m in models:
                m.logging = bool(logged)
                m.pos_history, m.lnp_history, m.grad_history = [], [], []
        rng = np.random.default_rng(ch.bits())
        zs = [rng.normal(0, 0.7, n) if bounded else q * (1 + rng.normal(0, 0.01, n)) for _ in range(3)]
        near = zs[0].copy()
        step = ch.pick([1e-6, 0.1, 1e-9, "all"])
        if step == "all":
            near *= 1 + ch.pick([3e-6, 1e-10, -1e-13])
        else:
            near[ch.choose(n)] += step
        zs.append(near)
        if n > 1:
            # other than the first only in how it is distributed
            moved = zs[0].copy()
            i, d = ch.choose(n - 1), 2.0**-3 if bounded else 2.0**-20
            moved[i] += d
            moved[i + 1] -= d
            zs.append(moved)
        zs.append(zs[0] if bounded else q.copy())
        # the plan: everything is drawn before anything is evaluated
        steps = []
        setting = {j: [True, 0] for j in range(len(models))}
        for _ in range(ch.between(3, 16)):
            j = ch.choose(len(models))
            what = ch.weighted([("ask", 8), ("sampling", 1), ("prior", 1)])
            if what == "sampling" and not slow:
                setting[j][0] = not setting[j][0]
                steps.append(("sampling", j, setting[j][0]))
            elif what == "prior" and len(priors) > 1:
                setting[j][1] = ch.choose(len(priors))
                steps.append(("prior", j, setting[j][1]))
            else:
                op = ch.pick(self.SLOW if slow else self.FAST)
                if op == "check_grad" and not ch.flip(0.3):
                    op = "lnprob"
                k = ch.choose(len(zs)) if ch.flip(0.5) else ch.pick([0] + list(range(3, len(zs) - 1)))
                how = ch.pick(["copy", "shared", "same"])
                fault = self.draw_eval_fault(ch) if ch.flip(0.25) else None
                steps.append(("ask", j, op, k, how, fault, tuple(setting[j])))
        wanted = {(s[1], s[2], s[3], s[6]) for s in steps if s[0] == "ask"}

        def fresh(j, op, k, st):
            m = models[j]
            if not slow:
                m.sampling = st[0]
                if len(priors) > 1:
                    m._lnpriorfn = priors[st[1]]
            return freeze(self.ask(m, op, zs[k].copy(), m.transform.transform(zs[k])))
        ref = {w: faults.pristine(fresh, *w) for w in sorted(wanted, key=str)}
        exact = {}

        def direct(j, k, st):
            """posterior and gradient from the kernel (or the slow likelihood), the prior and the sigmoid themselves"""
            m, z = models[j], zs[k]
            qq, jac, ldj, ldg = z, 1.0, 0.0, 0.0
            if bounded:
                l, u = np.asarray(m.transform.lower, dtype=float), np.asarray(m.transform.upper, dtype=float)
                y = 1 / (1 + np.exp(-z))
                qq, jac = l + (u - l) * y, (u - l) * y * (1 - y)
                ldj, ldg = float(np.sum(np.log(np.abs(jac)))), 1 - 2 * y
            if slow:
                ll, g = m.lnlike(qq)
                lp, lg = m.lnprior(qq)
            else:
                m.scene.set_all_source_params(qq)
                chi2, d = m.proposer.evaluate_proposal(m.scene.get_proposal(), patch=m.patch)[:2]
                d = np.asarray(d, dtype=float)
                ll = -0.5 * float(np.sum(np.asarray(chi2, dtype=float)))
                g = -0.5 * np.concatenate([d[:, :, 0].T, d[:, :, 1:].sum(axis=0)], axis=1).reshape(-1)
                lp, lg = priors[st[1]](qq) if priors[st[1]] is not None else (0.0, 0.0)
            on = slow or st[0]
            return float(ll + lp + (ldj if on else 0.0)), (g + lg) * jac + (ldg if on else 0.0)

        def likelihood(j, z):
            """of the kernel alone"""
            m = models[j]
            m.scene.set_all_source_params(m.transform.transform(z))
            chi2, d = m.proposer.evaluate_proposal(m.scene.get_proposal(), patch=m.patch)[:2]
            d = np.asarray(d, dtype=float)
            return (-0.5 * float(np.sum(np.asarray(chi2, dtype=float))),
                    -0.5 * np.concatenate([d[:, :, 0].T, d[:, :, 1:].sum(axis=0)], axis=1).reshape(-1))
        for w, r in ref.items():
            if w[1] in ("residuals", "flat", "check_grad") or r[0] == "raised":
                continue
            e = (w[0], w[2], w[3])
            if e not in exact:
                v = faults.pristine(direct, *e)
                exact[e] = v[1] if v[0] == "value" else None
            if exact[e] is None:
                continue
            lnp, grad = exact[e]
            sign = -1 if w[1].startswith("nll") else 1
            got = r[1] if isinstance(r[1], (list, tuple)) else [r[1]]
            want = dict(grad=[grad], opgrad=[grad], both=[lnp, grad], nll=[-lnp, -grad]).get(w[1], [sign * lnp])
            for a, b in zip(got, want):
                a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
                if a.shape != b.shape or not np.all(np.abs(a - b) <= 1e-6 * np.max(np.abs(b)) + 1e-9):
                    raise Violation("C16", "fresh-wrong", f"{w[1]} at position {w[2]} (sampling {w[3][0]}, prior {w[3][1]}) of a fresh posterior is not "
                                    f"what kernel, prior and volume term give: {differ(a, b) or a}")
        for w, r in ref.items():
            if r[0] == "raised":
                raise Violation("C16", "fresh-raises", f"{w[1]} at position {w[2]} raises {r[1]} on a fresh posterior: {r[2]}")
        shared = [np.zeros(n) for _ in models]
        asked = 0
        given = []                   # (what, object, frozen copy)
        for s in steps:
            if s[0] == "sampling":
                models[s[1]].sampling = s[2]
                ctx.log(f"sampling of {s[1]} = {s[2]}")
                continue
            if s[0] == "prior":
                models[s[1]]._lnpriorfn = priors[s[2]]
                ctx.log(f"prior of {s[1]} = {s[2]}")
                continue
            _, j, op, k, how, fault, st = s
            m = models[j]
            if how == "shared":
                shared[j][:] = zs[k]
                z = shared[j]
            else:
                z = zs[k].copy() if how == "copy" else zs[k]
            qq = m.transform.transform(zs[k])
            before = z.copy()
            if slow and fault and fault[0] == "kernel":
                box["plan"] = (box["calls"], fault[3]())
                got, exc, fired = self.perform(ctx, lambda: self.ask(m, op, z, qq), None)
                fired = "likelihood error" if self.kernel.fired else None
                box["plan"], self.kernel.fired = None, False
            else:
                got, exc, fired = self.perform(ctx, lambda: self.ask(m, op, z, qq), fault)
            if fired or exc is not None:
                logged.discard(j)        # (an interrupt can fall between the entries)
            want = ref[(j, op, k, st)]
            ctx.log(f"{op} of {j} at {k} ({how}): {'raised ' + type(exc).__name__ if exc is not None else 'ok'}{' fault ' + fired if fired else ''}")
            if exc is not None:
                if not fired and want[0] != "raised":
                    raise Violation("C16", "raises", f"{op} at position {k} raises {type(exc).__name__}: {exc}, on a fresh posterior it does not")
                ctx.nontrivial = True
                continue
            if want[0] == "raised":
                raise Violation("C16", "accepted", f"{op} at position {k} works, on a fresh posterior it raises {want[1]}: {want[2]}")
            d = differ(got, want[1])
            if d:
                raise Violation("C16", f"differs-{op}", f"{op} at position {k} (sampling {st[0]}, prior {st[1]}) differs from a fresh posterior: {d}")
            if not np.array_equal(z, before):
                raise Violation("C16", "modified", f"{op} modified the position passed in")
            given.append((f"{op} at position {k}", got, freeze(got)))
            for what, obj, copy in given:
                d = differ(obj, copy)
                if d:
                    raise Violation("C16", "changed", f"the answer to {what} changed later: {d}")
            ctx.probe("answers compared")
            asked += 1
        for j in sorted(logged):
            m = models[j]
            rows = list(zip(m.pos_history, m.lnp_history, m.grad_history))
            if not len(rows) == len(m.pos_history) == len(m.lnp_history) == len(m.grad_history):
                raise Violation("C16", "history", "the histories of positions, likelihoods and gradients differ in length")
            for z, ll, g in rows[:3] + rows[3:][-2:]:
                v = faults.pristine(likelihood, j, np.array(z))
                if v[0] != "value":
                    continue
                d = np.max(np.abs(np.asarray(g) - v[1][1])) > 1e-6 * np.max(np.abs(v[1][1])) + 1e-9
                if d or abs(float(ll) - v[1][0]) > 1e-6 * abs(v[1][0]) + 1e-9:
                    raise Violation("C16", "history", f"a recorded likelihood or gradient ({ll}) is not that of the position it is recorded with ({v[1][0]})")
                ctx.probe("recorded likelihoods compared")
        if asked > 1:
            ctx.nontrivial = True

    def draw_eval_fault(self, ch):
        if ch.flip(0.5):
            return ("kernel", ch.choose(3), ch.pick(["before", "after"]), ch.pick([MemoryError, RuntimeError, KeyboardInterrupt]))
        if ch.flip(0.4):
            return ("interrupt", ch.choose(ch.pick([12, 30, 60])), "model.py")
        return ("interrupt", ch.choose(ch.pick([20, 80, 300])))
