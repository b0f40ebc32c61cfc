"""The scene database under simulated workers (C01-C05, C19).

Real code: SuperScene and LinkedSuperScene (check-out, check-in, bounds, logs, flush, reopening).
Simulated: any number of workers, which hold regions, change what they hold, finish in any order,
give up, or vanish with a restart of the parent; numpy's random stream.
"""
import os
import pickle

import numpy as np

from ..core import World, scratch


def near(a, b):
    a, b = np.asarray(a), np.asarray(b)
    # (or the same bytes: bounds of a flux that is exactly zero can be nan)
    return np.array_equal(a, b) or (a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes())


def separation(ra, dec, ras, decs):
    """great-circle distances, arcsec"""
    r, d, rs, ds = (np.deg2rad(np.asarray(x, dtype=float)) for x in (ra, dec, ras, decs))
    h = np.sin((ds - d) / 2)**2 + np.cos(d) * np.cos(ds) * np.sin((rs - r) / 2)**2
    return np.rad2deg(2 * np.arcsin(np.sqrt(h))) * 3600


def make_catalog(ch, mod, n, bands, spacing, rhalf_lo, rhalf_hi, equal_rhalf=False, distinct=False, layout=None):
    """A catalog of n sources laid out in one of several ways."""
    cat = np.zeros(n, dtype=mod.sourcecat_dtype(bands=bands))
    ra0 = ch.pick([150.0, 53.1, 300.0, 20.0])
    dec0 = ch.pick([0.0, -27.8, 62.0, -75.0])
    if layout is None:
        layout = ch.pick(["grid", "uniform", "clusters", "line"])
    xy = np.zeros((n, 2))
    side = int(np.ceil(np.sqrt(n)))
    if layout == "grid":
        for i in range(n):
            xy[i] = (i % side) * spacing, (i // side) * spacing
    elif layout == "filament":
        for i in range(n):
            xy[i] = i * spacing, ch.uniform(-0.2, 0.2) * spacing
    elif layout == "line":
        for i in range(n):
            xy[i] = i * spacing * 0.7, 0.0
    elif layout == "uniform":
        for i in range(n):
            xy[i] = ch.uniform(0, side * spacing), ch.uniform(0, side * spacing)
    else:
        k = max(1, n // 4)
        cen = [(ch.uniform(0, side * spacing), ch.uniform(0, side * spacing)) for _ in range(k)]
        for i in range(n):
            c = cen[i % k]
            xy[i] = c[0] + ch.uniform(-1.5, 1.5), c[1] + ch.uniform(-1.5, 1.5)
    if distinct:
        # no two sources closer than 0.05 arcsec
        for i in range(n):
            for _ in range(50):
                d = np.hypot(*(xy[:i] - xy[i]).T) if i else np.array([9.])
                if i == 0 or d.min() > 0.05:
                    break
                xy[i, 0] += 0.11
    cat["ra"] = ra0 + xy[:, 0] / 3600. / np.cos(np.deg2rad(dec0))
    cat["dec"] = dec0 + xy[:, 1] / 3600.
    cat["id"] = 1000 + 7 * np.arange(n)
    r = rhalf_lo
    for i in range(n):
        cat["rhalf"][i] = r if equal_rhalf else ch.uniform(rhalf_lo, rhalf_hi)
    cat["q"] = 0.8
    cat["sersic"] = 2.0
    cat["pa"] = 0.1
    cat["roi"] = 0.5
    for j, b in enumerate(bands):
        cat[b] = 10. + np.arange(n) + 0.5 * j
    return cat, layout


PARAM_NOISE = ("ra", "dec", "rhalf")


class SceneWorld(World):
    name = "scene"
    wall = 60
    runs = dict(quick={"*": 4000}, thorough={"*": 60000})
    rule = ("a run is one configuration (scene kind, layout, patch limits) and one history of worker operations drawn "
            "from the seed; non-trivial if at least two regions were held at once and one was checked in while another "
            "was held; distinct by the sequence of operations and the sources in each granted region")
    components = dict(real=["SuperScene", "LinkedSuperScene", "astropy coordinates and FITS", "scipy cKDTree"],
                      stub=["workers (simulated holders of regions)", "numpy global random stream (seeded per run)"])
    assumptions = ["regions are checked in once, by whoever was given them", "positions move by less than the patch scale",
                   "radii of influence do not exceed the boundary radius (linked scene)"]

    def prepare(self, prop, tier):
        from .. import repo
        repo.install()
        import forcepho.superscene as mod
        self.mod = mod
        mod.SkyCoord(1, 1, unit="deg").transform_to(mod.SkyCoord(1, 1, unit="deg").skyoffset_frame())

    # -- configuration ---------------------------------------------------------
    def config(self, ctx):
        ch = ctx.ch
        c = dict(linked=bool(ch.choose(2)))
        c["n"] = ch.weighted([(ch.between(2, 12), 4), (ch.between(12, 40), 6), (1, 1)])
        c["bands"] = [f"F{i}" for i in range(ch.between(1, 3))]
        c["maxactive"] = ch.pick([3, 1, 2, 5, 10, 20])
        c["boundary"] = ch.pick([2.0, 8.0, 4.0, 1.0, 1.5])
        c["spacing"] = c["boundary"] * ch.pick([0.8, 0.5, 1.2, 2.0, 0.3])
        c["maxradius"] = ch.pick([3.0, 6.0, 1.0])
        c["minradius"] = ch.pick([1.0, 0.1, 3.0])
        c["nscale"] = ch.pick([3, 1, 10])
        c["rlo"], c["rhi"] = ch.pick([(0.1, 0.3), (0.05, 0.1), (0.1, 1.0)])
        c["strict"] = bool(ch.choose(2))
        c["buffer"] = ch.pick([0.3, 0.0, 1.5])
        c["roi"] = ch.pick([None, 0.5, 1.0])
        c["fraction"] = ch.pick([0.5, 0.1, 1.0])
        c["target"] = ch.pick([200, 10, 1000])
        c["workers"] = ch.pick([2, 3, 4, 6, 1])
        c["layout"] = None
        if ch.flip(0.12):
            # a chain of friends that is much longer than the boundary radius
            c.update(linked=True, layout="filament", n=ch.between(20, 40), maxactive=ch.pick([10, 20, 5, 15]),
                     boundary=ch.pick([1.0, 1.5]), roi=ch.pick([0.5, 0.3]))
            c["spacing"] = c["roi"] * ch.pick([1.5, 1.0, 1.8])
        return c

    def kwargs(self, c):
        kw = dict(bands=c["bands"], target_niter=c["target"], maxactive_fraction=c["fraction"],
                  maxactive_per_patch=c["maxactive"], nscale=c["nscale"], boundary_radius=c["boundary"],
                  maxradius=c["maxradius"], minradius=c["minradius"])
        if c["linked"]:
            kw.update(strict=c["strict"], buffer=c["buffer"])
        return kw

    def open(self, c, cat, statefile):
        kw = self.kwargs(c)
        if c["linked"]:
            if c["roi"] is not None:
                kw["roi"] = np.full(len(cat), c["roi"])
            return self.mod.LinkedSuperScene(sourcecat=cat, statefile=statefile, **kw)
        return self.mod.SuperScene(sourcecat=cat, statefile=statefile, **kw)

    # -- the run -----------------------------------------------------------------
    def run(self, ctx):
        ch = ctx.ch
        c = self.config(ctx)
        self.c = c
        np.random.seed(ch.bits())
        cat, layout = make_catalog(ch, self.mod, c["n"], c["bands"], c["spacing"], c["rlo"], c["rhi"],
                                   layout=c["layout"])
        if ch.flip(0.3):      # a catalog from an earlier run
            for i in range(c["n"]):
                cat["n_iter"][i] = ch.pick([0, 50, 200, 100000])
                cat["n_patch"][i] = cat["n_iter"][i] // 50
            # flags as an interrupted run may have left them
            cat["is_active"] = ch.choose(2)
            cat["is_valid"] = ch.choose(2)
        ctx.log("config", {k: v for k, v in c.items()}, "layout", layout)
        statefile = os.path.join(scratch(ctx), "superscene.fits")
        db = self.open(c, cat.copy(), statefile)
        m = Model(db, cat)
        holds = []
        seq = 0
        steps = ch.pick([12, 20, 30, 50])
        checked_in_while_held = False
        maxheld = 0
        for step in range(steps):
            ops = [("checkout", 8), ("checkin", 5 if holds else 0), ("checkout_seed", 3), ("holder_mutates", 2 if holds else 0),
                   ("bounds", 2 if holds else 0), ("giveup", 1 if holds else 0), ("restart", 1), ("reset", 1),
                   ("refused_burst", 1), ("query", 1)]
            ops = [(o, w * 4 if o not in ("restart", "reset") else w) for o, w in ops if w]
            op = ch.weighted(ops)
            if op in ("checkout", "checkout_seed"):
                if len(holds) >= c["workers"]:
                    continue
                seed = -1
                if op == "checkout_seed":
                    seed = ch.choose(c["n"])
                h = self.checkout(ctx, db, m, holds, seed)
                if h is not None:
                    holds.append(h)
                    maxheld = max(maxheld, len(holds))
            elif op == "refused_burst":
                for _ in range(3):
                    h = self.checkout(ctx, db, m, holds, ch.choose(c["n"]), keep=len(holds) < c["workers"])
                    if h is not None:
                        holds.append(h)
                        break
            elif op in ("checkin", "giveup"):
                k = ch.choose(len(holds))
                h = holds.pop(k)
                if holds:
                    checked_in_while_held = True
                seq += 1
                self.checkin(ctx, db, m, holds, h, seq, giveup=(op == "giveup"))
            elif op == "holder_mutates":
                h = holds[ch.choose(len(holds))]
                what = ch.pick(["active", "fixed", "bounds", "covs"])
                self.mutate(ctx, h, what, ch)
                ctx.fault("holder overwrites what it was given")
                self.verify(ctx, db, m, holds, f"holder overwrote {what}", "C04")
            elif op == "query":
                self.query(ctx, db, m)
                self.verify(ctx, db, m, holds, "a query", "C02")
            elif op == "bounds":
                h = holds[ch.choose(len(holds))]
                self.check_bounds(ctx, db, m, h)
            elif op == "restart":
                ctx.fault("parent restart")
                ctx.log("restart from the state file")
                db.writeout()
                data = self.mod.fits.getdata(statefile)
                new = np.zeros(len(data), dtype=cat.dtype)
                for f in cat.dtype.names:
                    new[f] = data[f]
                self.check_reopened(ctx, m, new)
                db = self.open(c, new, statefile)
                m.restarted(db, new)
                holds = []
                self.verify(ctx, db, m, holds, "restart", "C03")
            elif op == "reset":
                ctx.log("reset")
                db.reset()
                m.reset()
                holds = []
                self.verify(ctx, db, m, holds, "reset", "C03")
        # everything comes back
        while holds:
            h = holds.pop(ch.choose(len(holds)))
            if holds:
                checked_in_while_held = True
            seq += 1
            self.checkin(ctx, db, m, holds, h, seq)
        ctx.check(db.n_active == 0 and db.n_fixed == 0 and np.all(db.sourcecat["is_valid"]), "C02", "leak",
                  "sources or counts remain checked out after every region was checked in")
        ctx.nontrivial = maxheld >= 2 and checked_in_while_held
        ctx.probe(f"held at once: {min(maxheld, 6)}")
        ctx.sig = [e for e in ctx.events if not e.startswith("config")]

    # -- operations ----------------------------------------------------------------
    def checkout(self, ctx, db, m, holds, seed, keep=True):
        ch = ctx.ch
        if not keep:
            return None
        c = self.c
        kw = dict(seed_index=seed) if seed >= 0 else {}
        maxfixed = c["maxactive"]
        if c["linked"] and ch.flip(0.6 if c["layout"] else 0.25):
            kw["max_fixed"] = maxfixed = ch.pick([1, 0, 2, 30])
        region, active, fixed = db.checkout_region(**kw)
        if active is None:
            ctx.log("checkout", f"seed={seed}" if seed >= 0 else "random", "refused")
            ctx.probe("check-out refused")
            ctx.check(len(holds) > 0, "C05", "refused-idle", "refused although nothing is checked out")
            self.verify(ctx, db, m, holds, "refused check-out", "C02")
            return None
        a = [int(i) for i in active["source_index"]]
        f = [] if fixed is None else [int(i) for i in fixed["source_index"]]
        ctx.log("checkout", f"seed={seed}" if seed >= 0 else "random", "active", a, "fixed", f)
        ctx.probe("check-out granted")
        if fixed is None:
            ctx.probe("region without fixed sources")
        if any(set(f) & set(h.f) for h in holds):
            ctx.probe("fixed source shared by two regions")
        h = Hold(region, active, fixed, a, f)
        # C01
        ctx.check(len(set(a)) == len(a) and len(set(f)) == len(f) and not set(a) & set(f), "C01", "duplicate",
                  f"a source appears twice in one region: active {a} fixed {f}")
        ctx.check(1 <= len(a) <= c["maxactive"], "C01", "count", f"{len(a)} active sources, the maximum is {c['maxactive']}")
        for o in holds:
            ctx.check(not set(a) & set(o.a), "C01", "active-twice", f"sources {sorted(set(a) & set(o.a))} are active in two regions")
            ctx.check(not set(a) & set(o.f), "C01", "active-and-fixed", f"sources {sorted(set(a) & set(o.f))} become active while fixed in another region")
            ctx.check(not set(f) & set(o.a), "C01", "fixed-and-active", f"sources {sorted(set(f) & set(o.a))} become fixed while active in another region")
        # C04: the rows are the current ones
        for name, rows, inds in (("active", active, a), ("fixed", fixed, f)):
            if rows is None:
                continue
            for col in m.rows.dtype.names:
                if col in ("is_active", "is_valid"):
                    continue
                ctx.check(near(rows[col], m.rows[col][inds]), "C04", "stale-row",
                          lambda: f"{name} column {col} is {list(rows[col])}, checked in was {list(m.rows[col][inds])} for {inds}")
        if seed >= 0:
            if c["linked"]:
                ctx.check(seed in a, "C19", "other-seed", f"requested seed {seed} is not active in the region: {a}")
            else:
                ctx.check(region.ra == m.rows["ra"][seed] and region.dec == m.rows["dec"][seed], "C19", "other-seed",
                          f"requested seed {seed}, but the region is centred elsewhere")
        self.check_circle(ctx, m, region, a, f, maxfixed, seed)
        if ch.flip(0.3):     # through a message
            h.region, h.active, h.fixed = pickle.loads(pickle.dumps((region, active, fixed)))
        h.keep()
        m.held(a, f)
        holds.append(h)
        self.verify(ctx, db, m, holds, "check-out", "C02")
        holds.pop()
        self.check_bounds(ctx, db, m, h)
        return h

    def check_circle(self, ctx, m, region, a, f, maxfixed, seed=-1):
        """the circle holds what is varied, and what lies in it belongs to the region"""
        c = self.c
        ra, dec, radius = float(region.ra), float(region.dec), float(region.radius) * 3600
        sep = separation(ra, dec, m.orig["ra"], m.orig["dec"])
        if c["linked"]:
            extent = m.rows["rhalf"] if c["roi"] is None else np.full(len(m.rows), c["roi"])
            extent = extent + c["buffer"]
        else:
            extent = c["nscale"] * m.rows["rhalf"]
        tol = 1e-3 + 1e-6 * radius
        out = [i for i in a if sep[i] + extent[i] > radius + tol]
        ctx.check(not out, "C19", "circle-too-small",
                  lambda: f"the circle of {radius:.4f} arcsec does not enclose the active sources {out}, which reach to "
                          f"{[round(float(sep[i] + extent[i]), 4) for i in out]}")
        reach = radius if c["linked"] else min(radius, c["boundary"])
        missing = [int(i) for i in np.flatnonzero(sep < reach - tol) if int(i) not in a and int(i) not in f]
        ctx.check(len(f) <= maxfixed or (len(f) == 1 and not c["linked"]), "C19", "too-many-fixed",
                  f"{len(f)} fixed sources, at most {maxfixed} wanted")
        ctx.check(not missing or len(f) >= maxfixed, "C19", "neighbour-missing",
                  lambda: f"sources {missing} lie in the circle of {radius:.4f} arcsec but are neither active {a} nor fixed {f}")
        if missing:
            ctx.probe("more neighbours than the fixed maximum")
            # then the nearest ones are fixed (nearer by every measure of distance there is)
            if c["linked"]:
                other = sep / (1.2 * radius + extent - c["buffer"])
                measures = (sep, other)
            else:
                measures = (sep, sep + extent, sep - extent)
            worse = [(o, i) for o in missing for i in f if all(x[o] < x[i] - tol for x in measures)]
            ctx.check(not worse, "C19", "not-the-nearest",
                      lambda: f"source {worse[0][0]} is left out of the fixed sources {f} although it is nearer than {worse[0][1]}")
        if not c["linked"] and len(a) > 1:
            ctx.check(radius <= max(c["maxradius"], c["minradius"]) + tol, "C19", "circle-too-large",
                      f"a circle of {radius:.4f} arcsec for {len(a)} active sources, the largest is {c['maxradius']}")
        if c["linked"]:
            self.check_groups(ctx, m, a, seed)

    def groups(self, m):
        """friends of friends, from the distances; None if two sources just touch"""
        roi = m.rows["rhalf"] if self.c["roi"] is None else np.full(len(m.rows), self.c["roi"])
        n = len(roi)
        gid = list(range(n))
        for i in range(n):
            gap = separation(m.orig["ra"][i], m.orig["dec"][i], m.orig["ra"], m.orig["dec"]) - roi - roi[i]
            gap[i] = -1
            if np.any(np.abs(gap) < 1e-4):
                return None
            for j in np.flatnonzero(gap < 0):
                old, new = gid[j], gid[i]
                if old != new:
                    gid = [new if g == old else g for g in gid]
        out = {}
        for i, g in enumerate(gid):
            out.setdefault(g, set()).add(i)
        return {i: out[gid[i]] for i in range(n)}

    def check_groups(self, ctx, m, a, seed):
        c = self.c
        if max(m.rows["rhalf"]) > c["boundary"] or (c["roi"] or 0) > c["boundary"]:
            return       # assumption
        groups = self.groups(m)
        if groups is None:
            return
        split = {min(groups[i]): groups[i] for i in a if not groups[i] <= set(a)}
        if split:
            ctx.probe("group larger than the region")
        ctx.check(len(split) <= 1, "C19", "groups-split", lambda: f"more than one group of overlapping sources is cut: {list(split.values())}, active {a}")
        ctx.check(not split or len(a) == c["maxactive"], "C19", "group-split-early",
                  lambda: f"the group {list(split.values())} is cut although only {len(a)} of {c['maxactive']} sources are active")
        if c["strict"] and split:
            ctx.check(all(groups[i] <= list(split.values())[0] for i in a), "C19", "group-split-strict",
                      lambda: f"the group {list(split.values())} is cut to fill up a region that holds other groups: {a}")
        if seed >= 0 and len(groups[seed]) <= c["maxactive"]:
            ctx.check(groups[seed] <= set(a), "C19", "group-of-seed",
                      lambda: f"the group {sorted(groups[seed])} of the seed {seed} fits, but the active sources are {a}")

    def query(self, ctx, db, m):
        """questions that do not change anything"""
        ch, c = ctx.ch, self.c
        if not c["linked"] or max(m.rows["rhalf"]) > c["boundary"] or (c["roi"] or 0) > c["boundary"]:
            return
        groups = self.groups(m)
        if groups is not None:
            gid = np.asarray(db.make_group_catalog()).astype(int)
            want = [groups[i] for i in range(c["n"])]
            got = [set(np.flatnonzero(gid == gid[i]).tolist()) for i in range(c["n"])]
            ctx.check(got == want and sorted(set(gid.tolist())) == list(range(len(set(gid.tolist())))), "C19", "group-catalog",
                      lambda: f"group catalog {gid.tolist()}, the overlapping groups are {want}")
            ctx.probe("group catalog")
        s = ch.choose(c["n"])
        ra, dec, r = float(m.orig["ra"][s]), float(m.orig["dec"][s]) + ch.uniform(-1, 1) / 3600, ch.pick([1.0, 0.1, 3.0])
        roi = m.rows["rhalf"] if c["roi"] is None else np.full(c["n"], c["roi"])
        gap = separation(ra, dec, m.orig["ra"], m.orig["dec"]) - roi - r
        if np.all(np.abs(gap) > 1e-4):
            got = sorted(int(i) for i in db.overlap_circle(ra, dec, r)["source_index"])
            ctx.check(got == np.flatnonzero(gap < 0).tolist(), "C19", "overlap-circle",
                      lambda: f"overlapping a circle of {r} arcsec: {got}, expected {np.flatnonzero(gap < 0).tolist()}")

    def check_bounds(self, ctx, db, m, h):
        bounds, cov = db.bounds_and_covs(np.array(h.a))
        ctx.check(near(bounds, m.bounds[h.a]), "C04", "bounds", f"bounds of {h.a} are not the current ones in row order")
        k = m.covs.shape[-1]
        want = np.zeros((len(h.a) * k, len(h.a) * k))
        for i, s in enumerate(h.a):
            want[i * k:(i + 1) * k, i * k:(i + 1) * k] = m.covs[s]
        ctx.check(near(cov, want), "C04", "covariance", f"covariance of {h.a} is not the current one in row order")
        h.bounds, h.cov = bounds, cov
        h.bounds0, h.cov0 = bounds.copy(), cov.copy()

    def mutate(self, ctx, h, what, ch):
        ctx.log("holder of", h.a, "overwrites its", what)
        if what in ("active", "fixed"):
            arr = getattr(h, what)
            if arr is None:
                return
            for col in arr.dtype.names:
                arr[col] = -77
        elif what == "bounds" and h.bounds is not None:
            for col in h.bounds.dtype.names:
                h.bounds[col] = -77
        elif h.cov is not None:
            h.cov[:] = -77
        h.dirty.add(what)

    def result(self, ctx, m, h, seq, keep_rhalf=False, move=True):
        """what a worker sends back: rows in any order, new parameters, garbage in the book-keeping columns"""
        ch = ctx.ch
        order = ch.shuffle(range(len(h.a))) if ch.flip(0.3) else list(range(len(h.a)))
        inds = [h.a[i] for i in order]
        final = np.zeros(len(inds), dtype=m.rows.dtype)
        final["source_index"] = inds
        for col in ("id", "is_active", "is_valid", "n_iter", "n_patch", "roi"):
            final[col] = 12345
        for i, s in enumerate(inds):
            for b in self.c["bands"]:
                final[b][i] = 1000. * seq + i + ch.uniform(0, 0.5)
            jit = 0.3 if move else 0.0
            final["ra"][i] = m.rows0["ra"][s] + (ch.uniform(-jit, jit) / 3600 if move else 0)
            final["dec"][i] = m.rows0["dec"][s] + (ch.uniform(-jit, jit) / 3600 if move else 0)
            final["rhalf"][i] = m.rows["rhalf"][s] if keep_rhalf else ch.uniform(self.c["rlo"], self.c["rhi"])
            final["q"][i] = ch.uniform(0.4, 1.0)
            final["pa"][i] = ch.uniform(-1.5, 1.5)
            final["sersic"][i] = ch.uniform(1, 5)
            if ch.flip(0.15):
                # values a test for "is there anything" would trip over
                col = ch.pick(list(self.c["bands"]) + ["pa", "q", "sersic"])
                final[col][i] = ch.pick([0.0, -3.5, 1e12, 1e-300, m.rows[col][s]])
        return inds, final

    def checkin(self, ctx, db, m, holds, h, seq, giveup=False):
        ch = ctx.ch
        c = self.c
        niter = 0 if giveup else ch.pick([50, 1, 200, 1000, 100000])
        if giveup:
            ctx.fault("task given up (zero iterations)")
        inds, final = self.result(ctx, m, h, seq)
        k = m.covs.shape[-1]
        covs = nb = None
        if ch.flip(0.6):
            covs = np.array([np.eye(k) * (seq + 0.01 * s) + 0.001 for s in inds])
        badcov = covs is not None and len(inds) > 1 and ch.flip(0.1)
        if badcov:
            ctx.fault("covariances of the wrong shape returned")
        if ch.flip(0.4):
            nb = np.zeros(len(inds), dtype=m.bounds.dtype)
            for j, col in enumerate(nb.dtype.names):
                nb[col] = (np.arange(len(inds)) + seq * 100 + j).reshape((-1,) + (1,) * (nb[col].ndim - 1))
        fixed = None
        if h.fixed is not None:
            fixed = m.rows[h.f].copy()
            if ch.flip(0.3):
                fixed = fixed[ch.shuffle(range(len(h.f)))]
            for col in c["bands"]:
                fixed[col] = -5.        # must not be used
        task = ch.pick([seq, None, f"p{seq}", 0, seq // 2])
        flush = ch.flip(0.15)
        ctx.log("checkin", inds, "niter", niter, "covs", "bad" if badcov else covs is not None, "bounds", nb is not None,
                "task", task, "flush" if flush else "")
        sent = final.copy()
        db.checkin_region(final, fixed, niter, block_covs=(covs[:-1, :-1] if badcov else covs), new_bounds=nb, taskID=task,
                          flush=flush)
        ctx.probe("check-in")
        if holds:
            ctx.probe("check-in while others are held")
        m.checkin(db.parameter_columns, inds, sent, niter, None if badcov else covs, nb, task)
        m.release(h.a, h.f)
        if ch.flip(0.3):      # the sender re-uses its buffers
            for col in final.dtype.names:
                final[col] = -99
            if covs is not None:
                covs[:] = -99
            if nb is not None:
                for col in nb.dtype.names:
                    nb[col] = -99
            ctx.fault("sender re-uses its buffers")
        self.verify(ctx, db, m, holds, "check-in", "C03")
        if flush:
            data = self.mod.fits.getdata(db.statefilename)
            self.check_reopened(ctx, m, data)

    def check_reopened(self, ctx, m, data):
        for col in m.rows.dtype.names:
            if col in ("is_active", "is_valid"):
                continue
            ctx.check(near(data[col], m.rows[col]), "C10", "reopened", f"column {col} differs in the state file")

    # -- comparison with the model ---------------------------------------------------
    def verify(self, ctx, db, m, holds, what, blame):
        cat = db.sourcecat
        act = np.zeros(len(cat), dtype=bool)
        inv = np.zeros(len(cat), dtype=bool)
        na = nf = 0
        for h in holds:
            act[h.a] = True
            inv[h.a] = True
            inv[h.f] = True
            na += len(h.a)
            nf += len(h.f)
        ctx.check(near(cat["is_active"].astype(bool), act), "C02", "is_active",
                  lambda: f"after {what}: marked active {np.flatnonzero(cat['is_active']).tolist()}, outstanding {np.flatnonzero(act).tolist()}")
        ctx.check(near(cat["is_valid"].astype(bool), ~inv), "C02", "is_valid",
                  lambda: f"after {what}: marked unavailable {np.flatnonzero(cat['is_valid'] == 0).tolist()}, in outstanding regions {np.flatnonzero(inv).tolist()}")
        ctx.check(db.n_active == na and db.n_fixed == nf, "C02", "counts",
                  lambda: f"after {what}: counts ({db.n_active}, {db.n_fixed}), outstanding ({na}, {nf})")
        frac = na * 1.0 / len(cat)
        ctx.check(bool(db.sparse) == (frac < self.c["fraction"]), "C02", "sparse", lambda: f"sparse is {db.sparse} with {na} of {len(cat)} active")
        ctx.check(bool(db.undone) == bool(np.any(np.abs(m.rows["n_iter"]) < self.c["target"])), "C02", "undone",
                  lambda: f"undone is {db.undone} with iterations {m.rows['n_iter'].tolist()}")
        for col in m.rows.dtype.names:
            if col in ("is_active", "is_valid"):
                continue
            if not near(cat[col], m.rows[col]):
                bad = np.flatnonzero(cat[col] != m.rows[col]).tolist()
                ctx.fail(blame, f"catalog-{blame}",
                         f"after {what}: column {col} of sources {bad} is {cat[col][bad].tolist()}, expected {m.rows[col][bad].tolist()}")
        ctx.check(near(db.bounds_catalog, m.bounds), blame, f"bounds-{blame}", lambda: f"after {what}: bounds differ from what was checked in")
        ctx.check(near(db.covariance_matrices, m.covs), blame, f"covs-{blame}", lambda: f"after {what}: covariances differ from what was checked in")
        slog = {int(k): [str(x) for x in v] for k, v in db.sourcelog.items() if len(v)}
        ctx.check(slog == m.slog, "C03", "sourcelog", lambda: f"after {what}: source logs {slog}, expected {m.slog}")
        ctx.check([str(p) for p in db.patchlog] == m.plog, "C03", "patchlog", lambda: f"after {what}: patch log {db.patchlog}, expected {m.plog}")
        for h in holds:
            h.verify(ctx, what)


class Hold:
    def __init__(self, region, active, fixed, a, f):
        self.region, self.active, self.fixed, self.a, self.f = region, active, fixed, a, f
        self.bounds = self.cov = None
        self.dirty = set()

    def keep(self):
        self.active0 = self.active.copy()
        self.fixed0 = None if self.fixed is None else self.fixed.copy()

    def verify(self, ctx, what):
        for name in ("active", "fixed", "bounds", "cov"):
            now = getattr(self, name, None)
            if now is None or {"cov": "covs"}.get(name, name) in self.dirty:
                continue
            ctx.check(near(now, getattr(self, name + "0")), "C04", "snapshot-changed",
                      f"after {what}: the {name} handed out for {self.a} changed in the holder's hands")


class Model:
    """what the scene must contain"""

    def __init__(self, db, cat):
        self.rows0 = cat.copy()
        self.restarted(db, cat)

    def restarted(self, db, cat):
        self.rows = cat.copy()
        self.orig = cat.copy()
        self.rows["source_index"] = np.arange(len(cat))
        self.bounds = db.bounds_catalog.copy()
        self.covs = db.covariance_matrices.copy()
        self.slog, self.plog = {}, []

    def reset(self):
        self.rows["n_iter"] = 0
        self.rows["n_patch"] = 0

    def held(self, a, f):
        pass

    def release(self, a, f):
        pass

    def checkin(self, cols, inds, final, niter, covs, nb, task):
        for i, s in enumerate(inds):
            for col in cols:
                self.rows[col][s] = final[col][i]
            self.rows["n_iter"][s] += niter
            self.rows["n_patch"][s] += 1 if niter > 0 else 0
            if covs is not None:
                self.covs[s] = covs[i]
            if nb is not None:
                self.bounds[s] = nb[i]
            if task is not None:
                self.slog.setdefault(s, []).append(str(task))
        if task is not None:
            self.plog.append(str(task))


class LivenessWorld(SceneWorld):
    name = "scene-liveness"
    wall = 120
    runs = dict(quick={"*": 1000}, thorough={"*": 30000})
    rule = ("a run is one configuration and one fair schedule of workers until every source has reached the target; "
            "non-trivial if regions were held concurrently or tasks were given up, restarted or refused; distinct by the "
            "sequence of operations")

    def run(self, ctx):
        ch = ctx.ch
        c = self.config(ctx)
        c["n"] = ch.between(13, 48) if ch.flip(0.15) else min(c["n"], 12)
        self.c = c
        equal = False
        keep_rhalf = False
        if not c["linked"]:
            if ch.choose(2):
                c["maxactive"] = max(20, c["n"])          # everything near the seed becomes active
                c["maxradius"] = c["boundary"] + c["nscale"] * c["rhi"] + 1
            else:
                equal = keep_rhalf = True                  # the seed itself is always the nearest
        c["roi"] = None if c["roi"] is None else min(c["roi"], c["boundary"])
        c["rhi"] = min(c["rhi"], c["boundary"])
        c["target"] = ch.pick([100, 1, 400, 60])
        niter = ch.pick([100, 400, 30, 20])
        per = max(1, int(np.ceil(c["target"] / niter)))
        if per > 6:
            niter = int(np.ceil(c["target"] / 6))
            per = 6
        np.random.seed(ch.bits())
        cat, layout = make_catalog(ch, self.mod, c["n"], c["bands"], c["spacing"], c["rlo"], c["rhi"], equal, distinct=True,
                                   layout=c["layout"])
        if ch.flip(0.5):
            hist = ch.pick([[0, 50], [0, 10**6], [0, 1, 3000, 20000], [-50, 0, 5000]])
            for i in range(c["n"]):
                cat["n_iter"][i] = hist[ch.choose(len(hist))]
        if ch.flip(0.25) and np.all(cat["n_iter"] >= 0):
            offset = ch.pick([30000, 10**6])          # a scene that was worked on for long
            cat["n_iter"] += offset
            c["target"] += offset
        ctx.log("config", c, "layout", layout, "niter", niter)
        statefile = os.path.join(scratch(ctx), "superscene.fits")
        db = self.open(c, cat.copy(), statefile)
        m = Model(db, cat)
        # every source can be requested when nothing is checked out
        for s in range(c["n"]):
            region, active, fixed = db.checkout_region(seed_index=s)
            ctx.check(active is not None, "C05", "seed-refused", f"seed {s} refused although nothing is checked out")
            if active is None:
                continue
            a = active["source_index"].tolist()
            f = [] if fixed is None else fixed["source_index"].tolist()
            if c["linked"] or equal:
                ctx.check(s in a, "C05", "seed-not-active", f"requested seed {s} is not active in its own region {a}")
            db.checkin_region(active, fixed, 0)
        holds = []
        seq = tasks = attempts = 0
        bound = 400 * c["n"] * per + 500
        faults_left = ch.choose(8)
        mixed = refused = 0
        stall = ch.flip(0.3)
        while db.undone:
            attempts += 1
            if attempts > bound:
                low = [int(i) for i in np.flatnonzero(np.abs(m.rows["n_iter"]) < c["target"])]
                ctx.fail("C05", "starved", f"after {bound} attempts and {tasks} tasks, sources {low} have not reached the target: "
                         f"{m.rows['n_iter'][low].tolist()} of {c['target']}")
                return
            want = len(holds) < c["workers"] and (not holds or ch.flip(0.6))
            if want:
                region, active, fixed = db.checkout_region()
                if active is None:
                    refused += 1
                    ctx.check(len(holds) > 0, "C05", "refused-idle", "refused although nothing is checked out")
                    ctx.log("refused")
                    if not holds:
                        continue
                else:
                    a = [int(i) for i in active["source_index"]]
                    f = [] if fixed is None else [int(i) for i in fixed["source_index"]]
                    ctx.log("checkout", a, f)
                    h = Hold(region, active, fixed, a, f)
                    holds.append(h)
                    mixed = max(mixed, len(holds))
                    continue
            # a worker finishes (not the stalled one, while others are out)
            k = ch.choose(len(holds))
            if stall and len(holds) > 1 and k == 0:
                k = 1
            h = holds.pop(k)
            seq += 1
            give = faults_left > 0 and ch.flip(0.1)
            if give:
                faults_left -= 1
                ctx.fault("task given up (zero iterations)")
            inds, final = self.result(ctx, m, h, seq, keep_rhalf=keep_rhalf, move=False)
            db.checkin_region(final, h.fixed, 0 if give else niter, taskID=seq)
            m.checkin(db.parameter_columns, inds, final, 0 if give else niter, None, None, seq)
            tasks += 1
            ctx.log("checkin", h.a, "gave up" if give else niter)
            if faults_left > 0 and ch.flip(0.05):
                faults_left -= 1
                ctx.fault("parent restart")
                ctx.log("restart")
                db.writeout()
                data = self.mod.fits.getdata(statefile)
                new = np.zeros(len(data), dtype=cat.dtype)
                for col in cat.dtype.names:
                    new[col] = data[col]
                db = self.open(c, new, statefile)
                m.restarted(db, new)
                holds = []
        ctx.check(np.all(np.abs(m.rows["n_iter"]) >= c["target"]), "C05", "done-early",
                  f"the scene claims to be done with iterations {m.rows['n_iter'].tolist()}")
        # the scene can be worked on after the target was reached
        for h in holds:
            db.checkin_region(h.active, h.fixed, niter)
        for _ in range(ch.choose(4)):
            region, active, fixed = db.checkout_region()
            ctx.check(active is not None, "C05", "refused-idle", "refused although nothing is checked out (every source has reached the target)")
            if active is None:
                break
            db.checkin_region(active, fixed, ch.pick([1, 100000]))
            ctx.probe("tasks after the target was reached")
        ctx.nontrivial = mixed >= 2 or refused > 0
        ctx.probe("tasks", tasks)
        ctx.probe("refused", refused)
        ctx.sig = [e for e in ctx.events if not e.startswith("config")]
