"""Reading under faults (C22).

Real code: everything that reads what forcepho needs or wrote: patches and their stores (pixels, metadata, PSFs,
splines, FITS images), samples and residuals files, scene state and logs, the combined catalogs and images,
configuration; down to libc through h5py/HDF5, astropy, asdf, json, yaml.  Simulated: opens and reads that fail, are cut
short or interrupted, at any point, once or from then on; files that end too early.
Reference: the same reading without a fault, in a pristine copy of the process.
"""
import errno
import hashlib
import json
import logging
import os
import random
import shutil
import sys
import types
from argparse import Namespace

import numpy as np

from ..core import Choices, HarnessGap, Violation, exc_chain, scratch
from .. import faults, field, shim
from .worker import WorkerWorld, differ, freeze

OUT = "images-out"         # what may be written below what is only read
MUTATE = (shim.WRITE, shim.TRUNC, shim.RENAME, shim.UNLINK, shim.LINK, shim.MKDIR, shim.RMDIR)


def plain(x):
    """what was read, as plain data"""
    if isinstance(x, np.ndarray):
        if x.dtype.kind == "O":
            return [plain(v) for v in x.tolist()]
        return np.array(x)
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (bytes, str, int, float, bool, type(None), np.generic)):
        return x
    if hasattr(x, "tostring") and hasattr(x, "cards"):
        return x.tostring()
    if hasattr(x, "wcs") and hasattr(x, "to_header_string"):
        return x.to_header_string()
    if hasattr(x, "__dict__"):
        return {k: plain(v) for k, v in vars(x).items()}
    return repr(x)


class ReadsWorld(WorkerWorld):
    name = "reads"
    wall = 120
    runs = dict(quick={"*": 2600}, thorough={"*": 40000})
    rule = ("a run is one reading (a task, a store, results, state, combined products) with one fault and its repetition; non-trivial if the fault "
            "hit; distinct by what was read, the fault, where it hit and the outcome")
    components = dict(real=["forcepho patches, stores, Result, postprocess, superscene, config", "CPU kernel (compiled from the working tree)",
                            "h5py/HDF5, astropy, asdf, json, yaml, CPython io"],
                      stub=["opens and reads below one directory (libc level)", "files that end too early"])
    assumptions = ["reads through mmap do not fail", "a reading is repeated after what the failed one left was collected"]

    def prepare(self, prop, tier):
        super().prepare(prop, tier)
        from ..core import scratch_root
        import asdf                      # noqa: F401
        import astropy.io.fits as fits
        import h5py
        import yaml                      # noqa: F401
        import forcepho.config as config
        import forcepho.postprocess as post
        import forcepho.utils as utils
        from forcepho.fitting import Result
        from forcepho.patches.storage import MetaStore, PixelStore, PSFStore
        from .post import PostWorld
        self.fits, self.h5py, self.config, self.post, self.utils, self.Result = fits, h5py, config, post, utils, Result
        self.MetaStore, self.PixelStore, self.PSFStore = MetaStore, PixelStore, PSFStore
        logging.disable(logging.CRITICAL)
        root = self.root = self.field.root
        # PSFs that depend on the place
        self.psfs = os.path.join(root, "psfs.h5")
        with h5py.File(self.field.psfstore, "r") as f, h5py.File(self.psfs, "w") as o:
            for b in f:
                p = np.repeat(f[b]["parameters"][:], 5, axis=0)
                p["amp"] *= (1 + 0.1 * np.arange(5))[:, None]
                g = o.create_group(b)
                g.create_dataset("parameters", data=p)
                g.create_dataset("detector_locations", data=np.array([[0, 30, 0, 30, 15], [0, 0, 30, 30, 15.0]]))
                g.attrs["n_psf_per_source"] = f[b].attrs["n_psf_per_source"]
        # a metadata store with gWCSes
        ms = MetaStore(self.field.metastore)
        for b in list(ms.headers):
            for e, h in list(ms.headers[b].items()):
                ms.add_exposure(Namespace(hdr=h, band=b, expID=e, gwcs=dict(tag=len(b + e), m=np.arange(2000.0) + len(e))))
        self.metag = os.path.join(root, "metag.json")
        ms.write_to_file(self.metag)
        # two runs, one of each kind, with their results
        self.dirs = {}
        for mode in ("sampling", "optimization"):
            pw = PostWorld()
            pw.prepare("C18", tier)
            d = self.dirs[mode] = os.path.join(root, mode)
            os.makedirs(os.path.join(d, "patches"))
            self.history(pw, d, mode)
        with open(os.path.join(root, "config.yml"), "w") as f:
            f.write("bandlist: [F090W, F200W]\nsampling_draws: 64\nwarmup: [10, 20]\nraw_catalog: a/b.fits\nadd_barriers: 0\n" + "# " + "x" * 9000 + "\nmax_treedepth: 9\n")

    def history(self, pw, d, mode):
        """a short run: three patches, with samples and residuals, checked in"""
        ch = Choices(rng=random.Random(5))
        bands = self.field.bands
        cat = self.field.sources(ch, 5, self.ss.sourcecat_dtype(bands=bands))
        db = self.ss.SuperScene(sourcecat=cat, bands=bands, statefile=os.path.join(d, "superscene.fits"), target_niter=100, maxactive_fraction=1.0,
                                maxactive_per_patch=3, boundary_radius=3.0, maxradius=2.0, minradius=0.1)
        prim = self.fits.PrimaryHDU()
        prim.header["FILTERS"] = ",".join(bands)
        self.fits.HDUList([prim, self.fits.BinTableHDU(db.sourcecat)]).writeto(os.path.join(d, "raw.fits"))
        np.random.seed(3)
        for pid in (3, 1, 2):
            region, active, fixed = db.checkout_region(seed_index=pid)
            bounds, _ = db.bounds_and_covs(active["source_index"])
            nd, nt = (6, 3) if mode == "sampling" else (1, 0)
            out, final, covs, _ = pw.result(ch, region, active, fixed, bounds, bands, pid, nd, nt, mode, pid)
            out.dump_to_h5(os.path.join(d, "patches", f"patch{pid}_samples.h5"))
            p = self.makers["store"]()
            p.return_residual = True
            p.build_patch(self.CircularRegion(field.RA0, field.DEC0, (0.3 + 0.1 * pid) / 3600), None, allbands=bands)
            model, q = p.prepare_model(active=active, fixed=fixed)
            self.utils.write_residuals(p, os.path.join(d, "patches", f"patch{pid}_residuals.h5"), residuals=model.residuals(q))
            db.checkin_region(final, fixed, nd, block_covs=covs, taskID=pid)
        db.writeout()
        with open(os.path.join(d, "config.json"), "w") as f:
            json.dump(dict(bandlist=bands, raw_catalog=os.path.join(d, "raw.fits"), scene_catalog="superscene.fits"), f)

    # ------------------------------------------------------------------ what is read
    def read_task(self, ctx):
        ch = ctx.ch
        while True:
            t = self.draw_task(ctx)
            if t["bad"] is None:
                break
            ctx.log("another task")
        kind = ch.pick(["store", "store", "fits"])
        same = self.kept(ctx)

        def act():
            p = same(self.makers[kind])
            out = [self.build(p, t)]
            model, q, o = self.ready(p, t)
            out.append(o)
            out += [self.op(p, t, model, q, o, k) for o, k in t["ops"]]
            p.free()
            return plain(out)
        return f"{kind} task, {[o for o, _ in t['ops']]}", act

    def kept(self, ctx):
        """the same object again in the repetition, or a new one"""
        keep, have = ctx.ch.flip(0.5), []

        def same(make):
            if not have or not keep:
                have[:] = [make()]
            return have[0]
        return same

    def read_pixels(self, ctx):
        b, e = ctx.ch.pick(self.field.exposures)
        same = self.kept(ctx)

        def act():
            s = same(lambda: self.PixelStore(self.field.pixelstore))
            out = [int(np.max(s.nside_full)), int(s.super_pixel_size), s.data[f"{b}/{e}/data"][:]]
            s.close()
            return plain(out)
        return f"pixels of {b}/{e}", act

    def read_meta(self, ctx):
        path, kw = ctx.ch.pick([(self.field.metastore, {}), (self.field.metastore, dict(load_all=True)), (self.metag, dict(use_gwcs=True, load_all=True))])

        def act():
            m = self.MetaStore(path, **kw)
            sky = np.array([field.RA0, field.DEC0])
            w = {b: {e: ({k: np.array(v[k]) for k in ("tag", "m")} if not hasattr(v, "wcs") else v.to_header_string()) for e, v in x.items()}
                 for b, x in getattr(m, "wcs", {}).items()}
            return plain([{b: {e: h.tostring() for e, h in x.items()} for b, x in m.headers.items()}, w,
                          None if kw.get("use_gwcs") else m.find_exposures(sky, self.field.bands)])
        return f"metadata {kw}", act

    def read_psf(self, ctx):
        ch = ctx.ch
        path = ch.pick([self.psfs, self.psfs, self.field.psfstore])
        band, xy = ch.pick(self.field.bands), ch.pick([(29.0, 29.0), (14.0, 16.0), (1.0, 28.0), (0.0, 0.0), None])
        wcs = None
        src = None
        same = self.kept(ctx)
        if ch.flip(0.3) and xy is not None:
            x, y = xy
            wcs, src = Namespace(world_to_pixel_values=lambda a, b: (a, b)), Namespace(ra=x, dec=y)

        def act():
            s = same(lambda: self.PSFStore(path))
            return plain(s.get_local_psf(band=band, source=src, wcs=wcs) if src is not None else s.lookup(band, xy=xy))
        return f"PSF of {band} at {xy} in {os.path.basename(path)}", act

    def read_samples(self, ctx):
        ch = ctx.ch
        fn = os.path.join(self.dirs[ch.pick(["sampling", "optimization"])], "patches", f"patch{ch.pick([1, 2, 3])}_samples.h5")
        cls = ch.pick([self.post.Samples, self.Result])

        def act():
            return plain({k: v for k, v in vars(cls(fn)).items()})
        return f"{cls.__name__} {os.path.relpath(fn, self.root)}", act

    def read_residuals(self, ctx):
        ch = ctx.ch
        fn = os.path.join(self.dirs["sampling"], "patches", f"patch{ch.pick([1, 2, 3])}_residuals.h5")
        kind = ch.pick(["residual", "data", "ierr"])

        def act():
            r = self.post.Residuals(fn)
            ims, _ = r.fill_images(fill_type=kind, imshape=(self.field.nside, self.field.nside))
            out = [r.exposures, r.ebands, r.reference_coordinates, ims, [list(r.make_exp(e=i, value=kind)) for i in range(len(r.exposures))]]
            r.handle.close()
            return plain(out)
        return f"residuals {kind} of {os.path.basename(fn)}", act

    def read_scene(self, ctx):
        ch = ctx.ch
        d = self.dirs[ch.pick(["sampling", "optimization"])]
        if ch.flip(0.5):
            def act():
                cat, bands, hdr = self.ss.rectify_catalog(os.path.join(d, "raw.fits"))
                return plain([np.array(cat), list(bands)])
            return "raw catalog", act

        def act():
            config, plog, slog, final = self.post.run_metadata(d)
            return plain([config, plog, slog, np.array(final)])
        return "metadata of a run", act

    def read_post(self, ctx):
        ch = ctx.ch
        what = ch.pick(["postsample", "unc", "postop", "images", "multi"])
        d = self.dirs["optimization" if what in ("unc", "postop") else "sampling"]
        self.out = os.path.join(os.path.dirname(self.root), "out")

        def act():
            shutil.rmtree(self.out, ignore_errors=True)
            os.makedirs(self.out)
            if what == "postsample":
                return plain(np.array(self.post.postsample_catalog(d)))
            if what == "multi":
                return plain(list(self.post.find_multipatch(d)))
            if what == "unc":
                return plain(np.array(self.post.flux_unc_linear(d)))
            if what == "postop":
                fn = os.path.join(self.out, "postop.fits")
                self.post.postop_catalog(d, catname=fn)
                with self.fits.open(fn) as h:
                    return plain([np.array(x.data) for x in h[1:]])
            # images go below the run
            im = os.path.join(d, OUT)
            shutil.rmtree(im, ignore_errors=True)
            self.post.write_images(d, metafile=self.field.metastore, subdir=OUT)
            out = {}
            for n in sorted(os.listdir(im)):
                with self.fits.open(os.path.join(im, n)) as h:
                    out[n] = np.array(h[0].data)
            return plain(out)
        return f"combined: {what}", act

    def read_config(self, ctx):
        def act():
            return plain(vars(self.config.yaml_to_namespace(os.path.join(self.root, "config.yml"))))
        return "configuration", act

    READS = [("task", 6), ("pixels", 1), ("meta", 3), ("psf", 2), ("samples", 2), ("residuals", 2), ("scene", 3), ("post", 5), ("config", 1)]

    # ------------------------------------------------------------------ C22
    def hashes(self):
        out = {}
        for d, _, names in os.walk(self.root):
            for n in names:
                if OUT in d:
                    continue
                with open(os.path.join(d, n), "rb") as f:
                    out[os.path.relpath(os.path.join(d, n), self.root)] = hashlib.sha256(f.read()).hexdigest()
        return out

    def untouched(self, what, rec, before):
        inos = {op.ino for op in rec.ops if op.path and OUT in op.path}
        for op in rec.ops:
            if op.ino in inos or (op.path and OUT in op.path):
                continue
            if op.kind in MUTATE or (op.kind == shim.OPEN and op.off & 4):
                raise Violation("C22", "written", f"{what} {'opens for writing' if op.kind == shim.OPEN else 'does'} {op.text(self.root)}")
        after = self.hashes()
        if after != before:
            bad = sorted(n for n in set(before) | set(after) if before.get(n) != after.get(n))
            raise Violation("C22", "modified", f"{what} changed {bad}")

    def private(self, ctx):
        """this run's own copy of everything"""
        old, new = self.root, os.path.join(scratch(ctx), "field")
        shutil.copytree(old, new)
        move = lambda p: p.replace(old, new)
        f = self.field
        for a in ("root", "pixelstore", "metastore", "psfstore", "splinedata"):
            setattr(f, a, move(getattr(f, a)))
        f.fitsfiles = [move(p) for p in f.fitsfiles]
        self.psfs, self.metag, self.root = move(self.psfs), move(self.metag), new
        self.dirs = {k: move(d) for k, d in self.dirs.items()}

    def run_C22(self, ctx):
        ch = ctx.ch
        self.private(ctx)
        what, act = getattr(self, "read_" + ch.weighted(self.READS))(ctx)
        kinds = ch.pick([[shim.READ], [shim.OPEN]])

        def dry():
            with shim.Recorder(self.root, reads=True) as rec:
                v = act()
            # the operations that can fail, by file
            name, byfile, k, opened = {}, {}, {shim.READ: 0, shim.OPEN: 0}, set()
            for op in rec.ops:
                if op.kind == shim.OPEN and op.off & 8:
                    k[op.kind] += 1
                    continue
                if op.kind == shim.OPEN:
                    name[op.ino] = os.path.relpath(op.path, self.root)
                    opened.add(name[op.ino])
                if op.kind in k:
                    byfile.setdefault(name[op.ino], []).append((op.kind, k[op.kind]))
                    k[op.kind] += 1
            return v, {n: v for n, v in byfile.items() if OUT not in n}, sorted(n for n in opened if OUT not in n)
        ref = faults.pristine(dry)
        if ref[0] == "raised":
            if what.endswith("task") or " task" in what:
                ctx.log(f"{what} cannot be done: {ref[1]}")       # (no pixels there)
                return
            raise Violation("C22", "fresh-raises", f"{what} cannot be read without any fault: {ref[1]}: {ref[2]}")
        want, byfile, used = ref[1]
        before = self.hashes()
        how = ch.weighted([("error", 6), ("short", 1), ("EINTR", 1), ("cut", 2)])
        fault, cut = None, None
        if how == "cut" and (what == "configuration" or not used):
            how = "error"
        if how == "cut":
            cut = self.cut(ctx, used)
        else:
            wanted = [shim.READ] if how != "error" else kinds
            spots = [[(k, i) for k, i in v if k in wanted] for _, v in sorted(byfile.items())]
            spots = [v for v in spots if v]
            if spots:
                # a file, then one of the operations on it
                k, at = ch.pick(ch.pick(spots))
                sticky = ch.flip(0.3) and how != "EINTR"
                if how == "short":
                    fault = (shim.SHORT, 0, at, sticky, [k])
                elif how == "EINTR":
                    fault = (shim.ERR, errno.EINTR, at, False, [k])
                else:
                    fault = (shim.ERR, ch.pick([errno.EIO, errno.EIO, errno.EMFILE, errno.EACCES, errno.ESTALE]), at, sticky, [k])
        exc = got = None
        rec = shim.Recorder(self.root, fault)
        try:
            with rec:
                got = act()
        except (Violation, HarnessGap):
            raise
        except BaseException as e:
            if type(e).__name__ == "Hang":
                raise
            exc = e
        if cut:
            name, size = cut
            self.mend(cut)
            ctx.fault("file cut short")
            fired = f"{name} cut to {size} bytes"
        else:
            fired = rec.fired and f"{how} in {shim.NAMES[rec.fired_kind]}{' (from then on)' if fault[3] else ''}"
            if fired:
                ctx.fault(f"{how} on {shim.NAMES[rec.fired_kind]}")
        ctx.log(f"{what}: {'raised ' + type(exc).__name__ if exc is not None else 'ok'}{', ' + fired if fired else ''}")
        ctx.nontrivial = bool(fired)
        if exc is None:
            d = differ(got, want)
            if d:
                raise Violation("C22", "silent", f"{what}: {fired or 'no fault'}, and the answer is another one: {d[:300]}")
        elif not fired:
            raise Violation("C22", "raises", f"{what} raises {type(exc).__name__}: {exc} without a fault")
        else:
            for x in exc_chain(exc):
                x.__traceback__ = None
        self.untouched(what, rec, before)
        # once it can be read again, it is
        del exc
        rec = shim.Recorder(self.root)
        try:
            with rec:
                got = act()
        except (Violation, HarnessGap):
            raise
        except BaseException as e:
            if type(e).__name__ == "Hang":
                raise
            raise Violation("C22", "afterwards", f"{what} raises {type(e).__name__}: {e} although the fault is gone ({fired or 'no fault'})")
        d = differ(got, want)
        if d:
            raise Violation("C22", "afterwards", f"{what}: the fault is gone ({fired or 'no fault'}), but the answer is another one: {d[:300]}")
        self.untouched(what, rec, before)
        ctx.probe("readings compared")

    def cut(self, ctx, names):
        """a file that ends too early (kept aside)"""
        ch = ctx.ch
        name = ch.pick(names)
        p = os.path.join(self.root, name)
        size = os.path.getsize(p)
        keep = ch.pick([size // 2, size - 1, size - 2880, 0, ch.choose(size)])
        keep = max(0, keep)
        os.rename(p, p + ".whole")
        with open(p + ".whole", "rb") as f, open(p, "wb") as o:
            o.write(f.read()[:keep])
        return name, keep

    def mend(self, cut):
        p = os.path.join(self.root, cut[0])
        os.replace(p + ".whole", p)
