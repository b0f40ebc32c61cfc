"""Combining the patches of a run (C18).

Real code: SuperScene (check-outs, check-ins, logs, the state on disk), Result.fill and dump_to_h5,
run_metadata, postsample_catalog, flux_unc_linear, find_multipatch, postop_catalog, Samples.
Simulated: the workers (which regions run at the same time, the order in which they complete, how the patches
are numbered, results that were written but never checked in, files that are missing or cut short) and
what the sampler drew.  Reference: the history of check-ins.
"""
import json
import os
from argparse import Namespace

import numpy as np

from ..core import Violation, World, scratch
from .scene import make_catalog
from .worker import differ

SHAPES = ["ra", "dec", "q", "pa", "sersic", "rhalf"]


class PostWorld(World):
    name = "post"
    wall = 100
    runs = dict(quick=600, thorough=20000)
    rule = ("a run is one history of concurrent patches of one scene, combined at the end; non-trivial if some source was varied by two patches "
            "and patches did not complete in the order of their numbers; distinct by the sequence of check-outs and check-ins and the sources in them")
    components = dict(real=["SuperScene", "Result", "postprocess", "h5py, astropy FITS"],
                      stub=["workers, the sampler's draws", "completion order and numbering of patches", "missing or cut-short files"])
    assumptions = ["the patches of a sampling run have the same bands and number of draws (a catalog row has a fixed shape)"]

    def prepare(self, prop, tier):
        from .. import repo
        repo.install()
        import forcepho.superscene as ss
        import forcepho.postprocess as post
        from forcepho.fitting import Result
        from forcepho.region import CircularRegion
        self.ss, self.post, self.Result, self.CircularRegion = ss, post, Result, CircularRegion
        ss.SkyCoord(1, 1, unit="deg").transform_to(ss.SkyCoord(1, 1, unit="deg").skyoffset_frame())

    # ------------------------------------------------------------------ one patch
    def result(self, ch, region, active, fixed, bounds, bands, pid, ndraw, ntune, mode, seed, prec_too=True):
        """what a worker makes of a task: real Result, drawn samples"""
        rng = np.random.default_rng(seed)
        ref = np.array([active["ra"].mean(), active["dec"].mean()])
        na, npar = len(active), len(bands) + 6
        n = ndraw + ntune
        chain = np.zeros((n, na * npar))
        for s in range(na):
            for j, col in enumerate(list(bands) + SHAPES):
                v = active[col][s] - (ref[0] if col == "ra" else ref[1] if col == "dec" else 0)
                scale = 1e-5 if col in ("ra", "dec") else 0.02
                chain[:, s * npar + j] = v + scale * rng.normal(size=n)
        out = self.Result()
        out.chain, out.ndim, out.wall_time = chain, na * npar, float(np.float32(rng.uniform(1, 100)))
        out.starting_position = chain[0].copy()
        patch = Namespace(bandlist=list(bands), patch_reference_coordinates=ref, npix=10, epaths=["b/e0"])
        scene = Namespace(sources=[Namespace(SHAPE_COLS=SHAPES)])
        model = Namespace(patch=patch, scene=scene, ncall=n)
        step = stats = None
        if mode == "sampling":
            names = [dict(model_logp=np.float64, tune=bool, step_size=np.float64)]
            step = Namespace(potential=Namespace(_cov=np.eye(na * npar) * rng.uniform(0.5, 2)), stats_dtypes=names)
            stats = [dict(model_logp=rng.normal(), tune=i < ntune, step_size=0.1) for i in range(n)]
        final, covs = out.fill(region, active, fixed, model, bounds=bounds, patchID=pid, step=step, stats=stats)
        prec = []
        for b in bands:
            a = rng.normal(0, 1, (na, na))
            prec.append(np.eye(na) * rng.uniform(0.5, 3) + a @ a.T)
        if mode == "optimization":
            if prec_too:
                out.precisions = np.array(prec)
            out.config = json.dumps(dict(raw_catalog="x.fits"))
        mine = dict(chain=chain, bands=list(bands), ref=ref, logp=None if stats is None else np.array([s["model_logp"] for s in stats]), wall=out.wall_time,
                    index=active["source_index"].copy(), id=active["id"].copy(), prec=np.array(prec) if prec_too else None, final=chain[-1].copy(), n=n)
        return out, final, covs, mine

    def subset(self, ch, bands):
        keep = [b for b in bands if ch.flip(0.6)]
        return keep or [ch.pick(bands)]

    def column(self, mine, s, col):
        j = (mine["bands"] + SHAPES).index(col)
        v = mine["chain"][:, s * (len(mine["bands"]) + 6) + j]
        return v + (mine["ref"][0] if col == "ra" else mine["ref"][1] if col == "dec" else 0)

    # ------------------------------------------------------------------ the run
    def run(self, ctx):
        ch = ctx.ch
        root = os.path.join(scratch(ctx), "run")
        os.makedirs(os.path.join(root, "patches"))
        mode = ch.pick(["sampling", "sampling", "optimization"])
        bands = ["F090W", "F200W", "F444W"][:ch.between(1, 3)]
        n = ch.between(2, 14)
        ndraw, ntune = ch.pick([4, 1, 7]), ch.pick([2, 0, 5])
        if mode == "optimization":
            ndraw, ntune = 1, 0
        np.random.seed(ch.bits() % 2**32)
        cat, layout = make_catalog(ch, self.ss, n, bands, ch.pick([1.5, 3.0, 0.8]), 0.1, 0.3, distinct=True)
        name = ch.pick(["superscene.fits", "scene_v2.fits", "outscene.fits"])
        linked = ch.flip(0.3)
        cls = self.ss.LinkedSuperScene if linked else self.ss.SuperScene
        kw = dict(sourcecat=cat.copy(), bands=bands, statefile=os.path.join(root, name), target_niter=10**6, maxactive_fraction=1.0,
                  maxactive_per_patch=ch.pick([3, 2, 1, 6]), boundary_radius=ch.pick([3.0, 6.0]), maxradius=ch.pick([2.0, 5.0]), minradius=0.5)
        if linked:
            kw.update(roi=np.full(n, 0.5))
        db = cls(**kw)
        numbering = ch.pick(["from 1", "from 0", "sparse", "down"])
        workers = ch.between(1, 4)
        npatch = ch.between(1, 9)
        ctx.log(f"{mode}, {n} sources ({layout}), {len(bands)} bands, {workers} workers, numbers {numbering}, {cls.__name__}, {ntune}+{ndraw}, {name}")
        held, history, taken, orphans = [], [], 0, 0
        numbers = {"from 1": lambda k: k + 1, "from 0": lambda k: k, "sparse": lambda k: (k * 37 + 11) % 101, "down": lambda k: 100 - k}[numbering]
        guard = 0
        lacking = ch.flip(0.25)
        # bands without data in a region are not in its patch
        gaps = len(bands) > 1 and ch.flip(0.3)
        some = self.subset(ch, bands) if gaps else bands
        while (taken < npatch or held) and guard < 60:
            guard += 1
            if taken < npatch and len(held) < workers and (not held or ch.flip(0.6)):
                region, active, fixed = db.checkout_region()
                if active is None:
                    ctx.log("refused")
                    taken += not held
                    continue
                pid = numbers(taken)
                taken += 1
                bounds, _ = db.bounds_and_covs(active["source_index"])
                held.append((pid, region, active, fixed, bounds, ch.bits()))
                ctx.log(f"patch {pid} out: {active['source_index'].tolist()}")
            else:
                pid, region, active, fixed, bounds, seed = held.pop(ch.choose(len(held)))
                prec_too = not (mode == "optimization" and lacking and ch.flip(0.3))
                if not prec_too:
                    ctx.fault("result without precisions")
                pbands = self.subset(ch, bands) if gaps and mode == "optimization" else some
                out, final, covs, mine = self.result(ch, region, active, fixed, bounds, pbands, pid, ndraw, ntune, mode, seed, prec_too)
                out.dump_to_h5(os.path.join(root, "patches", f"patch{pid}_samples.h5"))
                if ch.flip(0.12):
                    # written, but the parent never heard of it
                    self.forget(db, active, fixed)
                    orphans += 1
                    ctx.fault("result written but not checked in")
                    ctx.log(f"patch {pid} written, not checked in")
                    continue
                db.checkin_region(final, fixed, ndraw, block_covs=covs, taskID=pid)
                history.append((pid, mine, final.copy()))
                ctx.log(f"patch {pid} in")
        # one last patch of another run, or what a crash left
        if ch.flip(0.3):
            with open(os.path.join(root, "patches", ch.pick(["patch1_samples.h5.tmp", ".patch3_samples.h5.12", "patch7_residuals.h5"])), "wb") as f:
                f.write(b"\\0" * 100)
            ctx.fault("leftover file")
        if ch.flip(0.3):
            db2 = cls(**dict(kw, sourcecat=cat.copy(), statefile=os.path.join(root, ch.pick(["a_initial.fits", "z_other.fits"]))))
            db2.writeout()
            ctx.fault("another catalog in the same place")
        db.writeout()
        with open(os.path.join(root, "config.json"), "w") as f:
            json.dump(dict(bandlist=bands, raw_catalog=os.path.join(root, "raw.fits"), **({} if name == "superscene.fits" and ch.flip(0.5) else dict(scene_catalog=name))), f)
        if not history:
            return
        order = [h[0] for h in history]
        last, seen = {}, {}
        for k, (pid, mine, _) in enumerate(history):
            for s, i in enumerate(mine["index"]):
                last[int(i)] = (pid, mine, s)
                seen.setdefault(int(i), []).append(pid)
        if any(len(v) > 1 for v in seen.values()) and order != sorted(order):
            ctx.nontrivial = True
        final = db.sourcecat.copy()
        self.metadata(ctx, root, order, seen, final, bands, mode)
        same = len({tuple(m["bands"]) for _, m, _ in history}) == 1
        if not same:
            ctx.fault("band without data in some patches")
        steps = (["multi"] if same else []) + (["samples"] if mode == "sampling" else ["unc", "postop"])
        for _ in range(ch.between(1, 4)):
            if ch.flip(0.2):
                self.damaged(ctx, root, order, mode, bands)
            s = ch.pick(steps)
            if s == "multi":
                self.multipatch(ctx, root, seen, history, some)
            elif s == "samples":
                chosen = None
                if ch.flip(0.3):
                    # only these, in this order
                    chosen = [h for h in history if ch.flip(0.6)] or history[:1]
                    if ch.flip(0.3):
                        chosen = chosen[::-1]
                self.postsample(ctx, root, last, n, ndraw, some, chosen)
            elif s in ("unc", "postop"):
                partial = any(m["prec"] is None for _, m, _ in history)
                try:
                    if s == "postop":
                        self.postop(ctx, root, last, final, bands, history, partial, same)
                    else:
                        snr = ch.pick([1000, 5, 30])
                        unc = self.post.flux_unc_linear(root) if snr == 1000 else self.post.flux_unc_linear(root, snr_max=snr)
                        self.uncertainty(ctx, root, last, final, bands, unc, f"flux_unc_linear (S/N below {snr})", history, snr)
                except Violation:
                    raise
                except Exception as e:
                    if not partial:
                        raise
                    ctx.log(f"{s} raises {type(e).__name__}, a result has no precisions")
        self.readback(ctx, root, history, mode, ntune, ndraw)

    def forget(self, db, active, fixed):
        """the check-out is undone without a trace, as after a restart"""
        idx = active["source_index"]
        before = {c: db.sourcecat[c][idx].copy() for c in db.sourcecat.dtype.names}
        logs = {k: list(v) for k, v in db.sourcelog.items()}
        plog = list(db.patchlog)
        db.checkin_region(active, fixed, 0, taskID=None)
        for c in before:
            if c not in ("is_active", "is_valid"):
                db.sourcecat[c][idx] = before[c]
        for k in list(db.sourcelog):
            if k in logs:
                db.sourcelog[k][:] = logs[k]
            else:
                del db.sourcelog[k]
        db.patchlog[:] = plog

    # ------------------------------------------------------------------ checks
    def bad(self, cls, msg):
        raise Violation("C18", cls, msg)

    def metadata(self, ctx, root, order, seen, final, bands, mode):
        config, plog, slog, fin = self.post.run_metadata(root)
        if [int(p) for p in plog] != order:
            self.bad("patchlog", f"patches completed in the order {order}, run_metadata says {plog}")
        got = {int(k): [int(p) for p in v] for k, v in slog.items() if len(v)}
        if got != seen:
            k = next(k for k in set(got) | set(seen) if got.get(k) != seen.get(k))
            self.bad("sourcelog", f"source {k} was varied by patches {seen.get(k)}, run_metadata says {got.get(k)}")
        for c in list(bands) + SHAPES + ["id", "source_index", "n_iter", "n_patch"]:
            d = differ(np.asarray(fin[c], dtype=final[c].dtype), final[c])
            if d:
                self.bad("final", f"{c} of the final catalog: {d}")
        if config["bandlist"] != bands:
            self.bad("config", f"{config['bandlist']} instead of {bands}")

    def postsample(self, ctx, root, last, n, ndraw, bands, chosen=None):
        catname = os.path.join(root, "samples_cat.out") if ctx.ch.flip(0.4) else None
        if chosen is None:
            cat = self.post.postsample_catalog(root, catname=catname)
        else:
            cat = self.post.postsample_catalog(root, catname=catname, patches=[h[0] for h in chosen])
            last = {int(i): (pid, mine, s) for pid, mine, _ in chosen for s, i in enumerate(mine["index"])}
        tables = [("catalog", cat)]
        if catname:
            from astropy.io import fits
            tables.append(("written catalog", fits.getdata(catname)))
        for what, c in tables:
            if len(c) != n:
                self.bad("rows", f"{len(c)} rows in the {what} for {n} sources")
            for i in range(n):
                if i not in last:
                    if c["id"][i] != -1:
                        self.bad("unvaried", f"source {i} is in none of the patches but has id {c['id'][i]} in the {what}")
                    continue
                pid, mine, s = last[i]
                if c["patch_id"][i] != pid:
                    self.bad("patch", f"source {i} was last varied by patch {pid}, the {what} says {c['patch_id'][i]}")
                if c["id"][i] != mine["id"][s] or c["source_index"][i] != i:
                    self.bad("id", f"source {i} (id {mine['id'][s]}) is listed as {c['source_index'][i]} (id {c['id'][i]}) in the {what}")
                if abs(c["wall"][i] - mine["wall"]) > 1e-3:
                    self.bad("wall", f"wall time {c['wall'][i]} of source {i} instead of {mine['wall']}")
                if not np.allclose(np.ravel(c["lnp"][i]), mine["logp"][-ndraw:], rtol=1e-12):
                    self.bad("lnp", f"ln-probabilities of source {i} are not those of patch {pid} in the {what}")
                for col in list(bands) + SHAPES:
                    want = self.column(mine, s, col)[-ndraw:]
                    if not np.allclose(np.ravel(c[col][i]), want, rtol=1e-12, atol=0):
                        self.bad("samples", f"{col} of source {i} in the {what} is not that of patch {pid}: {np.ravel(c[col][i])} instead of {want}")
        ctx.probe("sample catalogs compared")
        ctx.log("postsample_catalog ok" + (f" for patches {[h[0] for h in chosen]}" if chosen else ""))

    def uncertainty(self, ctx, root, last, final, bands, unc, what, history=(), snr=1000):
        if len(unc) != len(final):
            self.bad("unc-rows", f"{len(unc)} rows from {what} for {len(final)} sources")
        for i in range(len(final)):
            if unc["id"][i] != final["id"][i] or unc["source_index"][i] != i:
                self.bad("unc-id", f"row {i} of {what} is source {unc['source_index'][i]} (id {unc['id'][i]})")
            for band in bands:
                those = [(pid, m, m["index"].tolist().index(i)) for pid, m, _ in history if i in m["index"] and band in m["bands"]]
                if those:
                    pid, mine, s = those[-1]
                    if mine["prec"] is None:
                        for p2, m2, _ in history:
                            if m2["prec"] is not None and i in m2["index"] and band in m2["bands"]:
                                j = m2["index"].tolist().index(i)
                                old = max(np.sqrt(np.linalg.inv(m2["prec"][m2["bands"].index(band)])[j, j]), self.column(m2, j, band)[-1] / snr)
                                if np.isclose(unc[band][i], old, rtol=1e-6):
                                    self.bad("unc", f"{band} uncertainty of source {i} in {what} is that of patch {p2}, not of its last patch {pid} (which has none)")
                        continue
                    want = max(np.sqrt(np.linalg.inv(mine["prec"][mine["bands"].index(band)])[s, s]), self.column(mine, s, band)[-1] / snr)
                    if not np.isclose(unc[band][i], want, rtol=1e-6):
                        self.bad("unc", f"{band} uncertainty of source {i} is {unc[band][i]} in {what}, its last patch {pid} gives {want}")
                elif not (np.isfinite(unc[band][i]) and unc[band][i] > 0):
                    self.bad("unc-default", f"{band} uncertainty of source {i} (never fit) is {unc[band][i]}")
        ctx.probe("uncertainty catalogs compared")
        ctx.log(f"{what} ok")

    def postop(self, ctx, root, last, final, bands, history, partial, same):
        from astropy.io import fits
        out = os.path.join(root, "postop.cat")
        self.post.postop_catalog(root, catname=out)
        with fits.open(out) as h:
            cat = np.array(h[1].data)
            for c in list(bands) + SHAPES + ["id", "source_index"]:
                d = differ(np.asarray(cat[c], dtype=final[c].dtype), final[c])
                if d:
                    self.bad("postop", f"{c} of the post-optimisation catalog: {d}")
            if np.any(cat["n_iter"]) or np.any(cat["n_patch"]):
                self.bad("postop", "the post-optimisation catalog does not start from zero iterations")
            if same and h[0].header["FILTERS"].split(",") != history[0][1]["bands"]:
                self.bad("postop", f"FILTERS {h[0].header['FILTERS']} instead of {history[0][1]['bands']}")
            if len(h) < 3:
                if partial:
                    return
                self.bad("postop", "the post-optimisation catalog lacks the uncertainties")
            self.uncertainty(ctx, root, last, final, bands, np.array(h[2].data), "postop_catalog", history)

    def multipatch(self, ctx, root, seen, history, bands):
        sources, patches, chains = self.post.find_multipatch(root)
        want = {k: v for k, v in seen.items() if len(v) > 1}
        if sorted(int(s) for s in sources) != sorted(want):
            self.bad("multi-sources", f"sources {sorted(want)} were varied by several patches, find_multipatch says {sorted(int(s) for s in sources)}")
        by = {pid: mine for pid, mine, _ in history}
        for sid, pids, c in zip(sources, patches, chains):
            sid, pids = int(sid), [int(p) for p in pids]
            if list(pids) != want[sid]:
                self.bad("multi-patches", f"source {sid} was varied by patches {want[sid]}, find_multipatch says {pids}")
            if len(c) != len(pids):
                self.bad("multi-chains", f"{len(c)} chains of source {sid} for {len(pids)} patches")
            for k, pid in enumerate(pids):
                mine = by[pid]
                s = mine["index"].tolist().index(sid)
                if c["source_index"][k] != sid:
                    self.bad("multi-chains", f"chain {k} of source {sid} is of source {c['source_index'][k]}")
                for col in list(bands) + SHAPES:
                    if not np.allclose(np.ravel(c[col][k]), self.column(mine, s, col), rtol=1e-12, atol=0):
                        self.bad("multi-chains", f"chain {k} of source {sid} is not that of patch {pid} ({col})")
        ctx.probe("multi-patch listings compared")
        ctx.log("find_multipatch ok")

    def damaged(self, ctx, root, order, mode, bands):
        """a file of the run cannot be read: an error, not a catalog without it"""
        ch = ctx.ch
        pid = ch.pick(order)
        fn = os.path.join(root, "patches", f"patch{pid}_samples.h5")
        kind = ch.pick(["missing", "short", "empty"])
        with open(fn, "rb") as f:
            data = f.read()
        if kind == "missing":
            os.unlink(fn)
        else:
            with open(fn, "wb") as f:
                f.write(data[:len(data) // 2] if kind == "short" else b"")
        ctx.fault(f"patch file {kind}")
        ops = [("find_multipatch", lambda: self.post.find_multipatch(root))]
        if mode == "sampling":
            ops.append(("postsample_catalog", lambda: self.post.postsample_catalog(root)))
        else:
            ops.append(("flux_unc_linear", lambda: self.post.flux_unc_linear(root)))
        name, op = ch.pick(ops[::-1])
        try:
            op()
        except Exception as e:
            ctx.log(f"patch {pid} {kind}: {name} raises {type(e).__name__}")
        else:
            if name != "find_multipatch":
                self.bad("damaged", f"{name} returns a catalog although the samples of patch {pid} are {kind}")
            ctx.log(f"patch {pid} {kind}: {name} returns")
        with open(fn, "wb") as f:
            f.write(data)

    def readback(self, ctx, root, history, mode, ntune, ndraw):
        pid, mine, final = history[ctx.ch.choose(len(history))]
        s = self.post.Samples(os.path.join(root, "patches", f"patch{pid}_samples.h5"))
        d = differ(np.asarray(s.chain), mine["chain"]) or differ(np.asarray(s.final), final)
        if d or s.patchID != pid:
            self.bad("readback", f"patch {pid} reads back differently: {d or s.patchID}")
        k = ctx.ch.choose(mine["n"])
        got = s.get_sample_cat(k)
        for col in ("ra", "rhalf"):
            want = [self.column(mine, i, col)[k] for i in range(len(mine["index"]))]
            if not np.allclose(got[col], want, rtol=1e-12):
                self.bad("readback", f"{col} of sample {k} of patch {pid}: {got[col]} instead of {want}")
        if mode == "sampling":
            if int(s.n_sample) != ndraw or int(s.n_tune) != ntune:
                self.bad("readback", f"n_tune, n_sample = {s.n_tune}, {s.n_sample} instead of {ntune}, {ndraw}")
            best = int(np.argmax(mine["logp"]))
            if differ(np.asarray(s.get_map())[0], mine["chain"][best]):
                self.bad("map", f"the best sample of patch {pid} is not number {best}")
