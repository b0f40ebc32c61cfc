"""Images assembled from the residual files of a run (C21).

Real code: write_residuals, Residuals (make_exp, fill_images), write_images, run_metadata, MetaStore.
Simulated: which patches complete when, how they are numbered and what pixels they cover; residual files that
were never checked in, never written, or are damaged; the file system below the run's directory.
Reference: per exposure an image painted in the order of the check-ins.
"""
import json
import os
from argparse import Namespace

import numpy as np

from ..core import Violation
from .. import field, shim
from .disk import Died, DiskWorld

NUMBERS = {"from 1": lambda k: k + 1, "from 0": lambda k: k, "sparse": lambda k: (k * 37 + 11) % 101, "down": lambda k: 100 - k, "late": lambda k: 8 + k}
TYPES = ["data", "delta", "model", "chi"]


class ImagesWorld(DiskWorld):
    name = "images"
    runs = dict(quick=700, thorough=20000)
    rule = ("a run is one history of completing patches of one set of exposures with images assembled in between; non-trivial if some pixel was covered by two patches "
            "that did not complete in the order of their numbers, or a fault was injected; distinct by the sequence of completions, assemblies and faults")
    components = dict(real=["write_residuals", "Residuals, write_images, run_metadata", "MetaStore", "h5py and the HDF5 library", "astropy FITS"],
                      stub=["workers (pixels and residuals of a patch)", "completion order and numbering of patches", "run log (written as SuperScene does)",
                            "the file system below one directory (recorded and faulted at libc level)"])
    assumptions = ["the names of exposures differ (bands do not share them), as the names of the images demand"]

    def prepare(self, prop, tier):
        super().prepare(prop, tier)
        import forcepho.postprocess as post
        from forcepho.utils import write_residuals
        self.post, self.write_residuals = post, write_residuals

    # ------------------------------------------------------------------ inputs
    def exposures(self, ctx):
        ch = ctx.ch
        out, headers = [], {}
        how = self.how
        for b in range(ch.between(1, 3)):
            band = ["F444W", "F090W", "F200W"][b]
            for e in range(ch.between(1, 2)):
                name = ch.pick(["{}_e{}", "e{1}_{0}", "v1.2_{}_{}_bkgsub"]).format(band.lower(), e)
                shape = (ch.pick([16, 8, 24, 300]), ch.pick([12, 16, 8, 300]))
                hdr = field.header(field.RA0 + 0.01 * b, field.DEC0, shape[0], 0.06, 0.3 * (b + e), (shape[0] / 2, 3.5 + e), [("FILTER", band), ("EXPOSURE", e)])
                hdr["NAXIS2"] = shape[1]
                path = f"{band}/{name}"
                if how == "fits":
                    path = os.path.join(self.root, "images_in", name + ".fits")
                    os.makedirs(os.path.dirname(path), exist_ok=True)
                    self.fits.PrimaryHDU(np.zeros(shape[::-1], dtype=np.float32), header=hdr).writeto(path)
                if all(x["name"] != name for x in out):
                    out.append(dict(path=path, name=name, band=band, shape=shape, hdr=hdr))
                    headers.setdefault(band, {})[name] = hdr.tostring()
        self.metafile = None
        if how == "meta":
            self.metafile = os.path.join(self.root, "meta.json")
            with open(self.metafile, "w") as f:
                json.dump(headers, f)
        return out

    def patch(self, ctx, exps):
        """pixels of a new patch: {path: dict of arrays}, padded as patches are"""
        ch = ctx.ch
        mine = [x for x in exps if ch.flip(0.7)] or [ch.pick(exps)]
        rng = np.random.default_rng(ch.bits())
        pix = {}
        for x in mine:
            nx, ny = x["shape"]
            w, h = ch.pick([4, 8, 3, 1, nx]), ch.pick([4, 8, 2, ny])
            w, h = min(w, nx), min(h, ny)
            x0, y0 = ch.choose(nx - w + 1), ch.choose(ny - h + 1)
            yy, xx = np.meshgrid(np.arange(y0, y0 + h), np.arange(x0, x0 + w))
            xx, yy = xx.ravel(), yy.ravel()
            keep = rng.uniform(size=xx.size) < ch.pick([1.0, 0.8])
            if not keep.any():
                keep[0] = True
            order = rng.permutation(int(keep.sum())) if ch.flip(0.3) else np.arange(int(keep.sum()))
            xx, yy = xx[keep][order], yy[keep][order]
            pad = ch.pick([0, 3, 5])
            n = xx.size + pad
            d = dict(xpix=np.append(xx, np.full(pad, -1)), ypix=np.append(yy, np.full(pad, -1)),
                     data=rng.normal(5, 3, n), ierr=rng.uniform(0.2, 3, n) * (rng.uniform(size=n) > 0.1), residual=rng.normal(0, 1, n))
            pix[x["path"]] = {k: v.astype(np.float32) for k, v in d.items()}
        return mine, pix

    def store(self, fn, mine, pix):
        """as a worker does at the end of a task"""
        paths = [x["path"] for x in mine]
        bands = [x["band"] for x in mine]
        p = Namespace(epaths=paths, bands=bands, bandlist=list(dict.fromkeys(bands)), patch_reference_coordinates=np.array([field.RA0, field.DEC0]),
                      D=np.zeros((len(mine), 1, 2, 2)), CW=np.zeros((len(mine), 1, 2, 2)), crpix=np.zeros((len(mine), 2)), crval=np.zeros((len(mine), 2)))
        p.split_pix = lambda a: [pix[q][a] for q in paths]
        self.write_residuals(p, fn, residuals=[pix[q]["residual"] for q in paths])

    def log(self):
        with open(os.path.join(self.run_dir, self.scene.replace(".fits", "_log.json")), "w") as f:
            slog = {}
            for p in self.plog:
                slog.setdefault(str(p % 4), []).append(p)
            json.dump(dict(sourcelog=slog, patchlog=self.plog), f)

    # ------------------------------------------------------------------ the run
    def run_C21(self, ctx):
        ch = ctx.ch
        self.run_dir = os.path.join(self.root, "run")
        os.makedirs(os.path.join(self.run_dir, "patches"))
        self.how = ch.pick(["meta", "fits"])
        exps = self.exposures(ctx)
        self.scene = ch.pick(["superscene.fits", "outscene.fits"])
        self.fits.BinTableHDU(np.zeros(4, dtype=[("id", int), ("source_index", int)])).writeto(os.path.join(self.run_dir, self.scene))
        with open(os.path.join(self.run_dir, "config.json"), "w") as f:
            json.dump(dict(bandlist=[], **({} if self.scene == "superscene.fits" else dict(scene_catalog=self.scene))), f)
        numbering = ch.pick(list(NUMBERS))
        ctx.log(f"{len(exps)} exposures ({self.how}) of {[x['shape'] for x in exps]}, numbers {numbering}")
        self.plog, self.patches, self.stray = [], {}, []
        n, held = 0, []
        self.log()
        for phase in range(ch.between(1, 3)):
            for _ in range(ch.pick([3, 1, 6, 14])):
                held.append(NUMBERS[numbering](n))
                n += 1
                if len(held) >= ch.pick([1, 2, 4]):
                    self.complete(ctx, held, exps)
            while held and ch.flip(0.8):
                self.complete(ctx, held, exps)
            self.log()
            if not self.patches and not self.stray:
                continue
            for _ in range(ch.between(1, 3)):
                op = ch.pick(["write", "write", "fill", "single", "separate", "damaged"])
                getattr(self, "op_" + op)(ctx, exps)

    def complete(self, ctx, held, exps):
        ch = ctx.ch
        pid = held.pop(ch.choose(len(held)))
        mine, pix = self.patch(ctx, exps)
        fn = self.file(pid)
        if ch.flip(0.1):
            ctx.fault("no residuals saved")
            self.plog.append(pid)
            ctx.log(f"patch {pid} completes without residuals")
            return
        self.store(fn, mine, pix)
        if ch.flip(0.1):
            ctx.fault("written but not checked in")
            self.stray.append(pix)
            ctx.log(f"patch {pid} writes {len(mine)} exposures, is not checked in")
            return
        self.plog.append(pid)
        self.patches[pid] = pix
        ctx.log(f"patch {pid} completes, {sum(len(p['xpix']) for p in pix.values())} pixels of {len(mine)} exposures")

    def names(self, paths):
        return sorted(os.path.basename(p) for p in paths)

    def file(self, pid):
        return os.path.join(self.run_dir, "patches", f"patch{pid}_residuals.h5")

    # ------------------------------------------------------------------ reference
    def reference(self, ctx, x):
        """(images by kind, which pixels only uncounted patches cover)"""
        im = {k: np.full(x["shape"], np.nan) for k in ("data", "residual", "ierr")}
        who = np.full(x["shape"], -1)
        for k, pid in enumerate(self.plog):
            d = self.patches.get(pid, {}).get(x["path"])
            if d is None:
                continue
            xx, yy = d["xpix"].astype(int), d["ypix"].astype(int)
            for i in np.flatnonzero(xx >= 0):
                w = who[xx[i], yy[i]]
                if w >= 0 and w > pid:
                    ctx.nontrivial = True
                who[xx[i], yy[i]] = pid
                for c in im:
                    im[c][xx[i], yy[i]] = d[c][i]
        free = np.zeros(x["shape"], dtype=bool)
        for pix in self.stray:
            d = pix.get(x["path"])
            if d is not None:
                g = d["xpix"] >= 0
                free[d["xpix"][g].astype(int), d["ypix"][g].astype(int)] = True
        return im, free & (who < 0)

    def compare(self, what, got, want, free):
        got = np.asarray(got, dtype=float)
        if got.shape != want.shape:
            raise Violation("C21", "shape", f"{what} has shape {got.shape} instead of {want.shape}")
        bad = ~(np.isclose(got, want, rtol=1e-5, atol=1e-6) | (np.isnan(got) & np.isnan(want))) & ~free
        if bad.any():
            i, j = np.argwhere(bad)[0]
            raise Violation("C21", "pixel", f"{what}: {int(bad.sum())} wrong pixels, first at ({i}, {j}): {got[i, j]} instead of {want[i, j]}")

    # ------------------------------------------------------------------ operations
    def op_write(self, ctx, exps):
        ch = ctx.ch
        kw = dict(show_model=ch.flip(0.6), show_chi=ch.flip(0.4), subdir=ch.pick(["image", "out/im"]))
        fault = self.plan(ctx, [shim.WRITE, shim.OPEN, shim.CLOSE, shim.UNLINK, shim.MKDIR, shim.READ], [shim.ERR, shim.TORN, shim.FULL, shim.SHORT, shim.INT], p=0.35)
        fork = bool(fault)          # (an interrupted call may keep files open)
        exc, rec, before = self.call(ctx, f"write_images {kw}", lambda: self.post.write_images(self.run_dir, metafile=self.metafile, **kw), fault, fork)
        if exc is not None:
            ctx.log(f"  {type(exc).__name__}")
            if ch.flip(0.5):
                return
            self.post.write_images(self.run_dir, metafile=self.metafile, **kw)
        out = os.path.join(self.run_dir, kw["subdir"])
        shown = TYPES[:2] + ["model"] * kw["show_model"] + ["chi"] * kw["show_chi"]
        covered = {q for p in list(self.patches.values()) for q in p}
        for x in exps:
            if x["path"] not in covered:
                continue
            im, free = self.reference(ctx, x)
            want = dict(data=im["data"], delta=im["residual"], model=im["data"] - im["residual"], chi=im["residual"] * im["ierr"])
            for t in shown:
                fn = os.path.join(out, f"{x['name']}_{t}.fits")
                if not os.path.exists(fn):
                    raise Violation("C21", "missing", f"write_images returned but {self.rel(fn)} is missing")
                try:
                    with self.fits.open(fn) as h:
                        got, hdr = np.array(h[0].data), h[0].header
                except Exception as e:
                    raise Violation("C21", "unreadable", f"write_images returned but {self.rel(fn)} cannot be read: {type(e).__name__} {e}")
                self.compare(self.rel(fn), got.T, want[t], free)
                for c in ("CRVAL1", "CRPIX1", "CRPIX2", "FILTER", "EXPOSURE"):
                    if hdr.get(c) != x["hdr"][c]:
                        raise Violation("C21", "header", f"{c} of {self.rel(fn)} is {hdr.get(c)} instead of {x['hdr'][c]}")
        ctx.probe("image sets compared")

    def op_fill(self, ctx, exps):
        """by hand, as documented"""
        ch = ctx.ch
        if not self.patches:
            return
        kind = ch.pick(["residual", "data", "ierr"])
        store = self.post.MetaStore(self.metafile) if self.metafile and ch.flip(0.7) else None
        images, headers = {}, {}
        for pid in self.plog:
            if pid in self.patches:
                kw = {}
                if self.metafile and store is None:
                    kw["imshape"] = (300, 300)          # at least as large as any
                self.post.Residuals(self.file(pid)).fill_images(images, headers, fill_type=kind, metastore=store, **kw)
        for x in exps:
            im, free = self.reference(ctx, x)
            seen = any(x["path"] in p for p in self.patches.values())
            if (x["path"] in images) != seen:
                raise Violation("C21", "fill-exposures", f"exposure {x['name']} is {'in' if seen else 'not in'} a patch, fill_images says otherwise")
            if seen:
                want = im[kind]
                if self.metafile and store is None:
                    big = np.full((300, 300), np.nan)
                    big[:want.shape[0], :want.shape[1]] = want
                    want = big
                self.compare(f"fill_images({kind}) of {x['name']}", images[x["path"]], want, False)
        ctx.probe("filled images compared")
        ctx.log(f"fill_images {kind} ok")

    def op_single(self, ctx, exps):
        """one patch by itself"""
        ch = ctx.ch
        if not self.patches:
            return
        pid = ch.pick(list(self.patches))
        r = self.post.Residuals(self.file(pid))
        pix = self.patches[pid]
        if sorted(r.exposures) != sorted(pix):
            raise Violation("C21", "exposures", f"patch {pid} has exposures {self.names(pix)}, Residuals says {self.names(r.exposures)}")
        for _ in range(2):
            e = ch.choose(len(r.exposures))
            kind = ch.pick(["residual", "data", "ierr"])
            im, lo, hi = r.make_exp(e, value=kind) if ch.flip(0.5) else r.make_exp(exp=r.exposures[e], value=kind)
            d = pix[r.exposures[e]]
            g = d["xpix"] >= 0
            xx, yy = d["xpix"][g].astype(int), d["ypix"][g].astype(int)
            want = np.full((xx.max() - xx.min() + 1, yy.max() - yy.min() + 1), np.nan)
            want[xx - xx.min(), yy - yy.min()] = d[kind][g]
            self.compare(f"make_exp({kind}) of patch {pid}", im, want, False)
            if not (np.allclose(lo, [xx.min() - 0.5, yy.min() - 0.5]) and np.allclose(hi, [xx.max() + 0.5, yy.max() + 0.5])):
                raise Violation("C21", "extent", f"make_exp of patch {pid} says it extends from {lo} to {hi}")
        ctx.log(f"patch {pid} by itself ok")

    def op_separate(self, ctx, exps):
        """patches one after the other, each by itself"""
        ch = ctx.ch
        for _ in range(2):
            if not self.patches:
                return
            pid = ch.pick(list(self.patches))
            kind = ch.pick(["residual", "data", "ierr"])
            images, _ = self.post.Residuals(self.file(pid)).fill_images(fill_type=kind, imshape=(300, 300))
            pix = self.patches[pid]
            if sorted(images) != sorted(pix):
                raise Violation("C21", "separate", f"patch {pid} has exposures {self.names(pix)}, its images are {self.names(images)}")
            for x in exps:
                d = pix.get(x["path"])
                if d is None:
                    continue
                g = d["xpix"] >= 0
                want = np.full(images[x["path"]].shape, np.nan)
                want[d["xpix"][g].astype(int), d["ypix"][g].astype(int)] = d[kind][g]
                self.compare(f"{kind} image of patch {pid} alone", images[x["path"]], want, False)
        ctx.log("separate images ok")

    def op_damaged(self, ctx, exps):
        """a residual file of the run cannot be read: an error, not images without it"""
        ch = ctx.ch
        if not self.patches:
            return
        pid = ch.pick(list(self.patches))
        fn = self.file(pid)
        data = self.read(fn)
        kind = ch.pick(["short", "empty"])
        with open(fn, "wb") as f:
            f.write(data[:len(data) // 2] if kind == "short" else b"")
        ctx.fault(f"residual file {kind}")
        try:
            self.post.write_images(self.run_dir, metafile=self.metafile)
        except Exception as e:
            ctx.log(f"residuals of patch {pid} {kind}: {type(e).__name__}")
        else:
            raise Violation("C21", "damaged", f"write_images returned although the residual file of patch {pid} is {kind}")
        with open(fn, "wb") as f:
            f.write(data)
