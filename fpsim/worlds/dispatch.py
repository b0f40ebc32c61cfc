"""The dispatcher on a simulated MPI (C06-C09).

Real code: do_parent, do_child, MPIQueue, SuperScene, tasks.sample/optimize, run_lmc/run_opt,
Result, FITS and JSON state.  Simulated: MPI, scheduling, clock, pixel data (a stand-in patch whose
posterior is an analytic function), the NUTS sampler (returns a drawn chain), failures of the parent.
"""
import json
import logging
import os
import sys
import time
import types
from argparse import Namespace

import numpy as np

from ..core import HarnessGap, Injected, Violation, World, scratch
from .. import mpi
from .scene import make_catalog


class Task:
    """what a child was asked to do and what it found"""
    def __init__(self, rank, n, region, active, fixed, bounds):
        self.rank, self.n = rank, n
        self.region = region
        self.active = active.copy()
        self.fixed = None if fixed is None else fixed.copy()
        self.bounds = None if bounds is None else bounds.copy()
        self.a = [int(i) for i in active["source_index"]]
        self.f = [] if fixed is None else [int(i) for i in fixed["source_index"]]
        self.q = None          # the last position found (n_source, n_param), absolute coordinates
        self.patchID = None
        self.finished = False
        self.checked_in = False
        self.covs = None       # the covariances found (n_source, n_param, n_param)


class DispatchWorld(World):
    name = "dispatch"
    wall = 120
    per_property = True
    runs = dict(quick={"*": 700, "C07": 1000, "C09": 500}, thorough={"*": 20000})
    rule = ("a run is one catalog, one number of children and one complete schedule of the parent, the children and the "
            "network, with faults; non-trivial if two tasks were in progress at once; distinct by the sequence of "
            "deliveries and task events")
    components = dict(
        real=["do_parent", "do_child", "MPIQueue", "SuperScene", "tasks.sample / tasks.optimize", "run_lmc / run_opt", "Result.fill",
              "rectify_catalog", "scipy BFGS", "FITS/JSON state files"],
        stub=["mpi4py (simulated network and scheduler)", "JadesPatch (analytic posterior, no pixels)",
              "littlemcmc NUTS draws (chain drawn from the seed)", "clock"])
    assumptions = ["children do not die (MPI aborts the whole job when one does)",
                   "interrupts reach the parent at communication calls",
                   "sources are separated by more than the spread of their sizes, so that a circular region always varies its seed"]

    def prepare(self, prop, tier):
        from .. import repo
        repo.install()
        logging.disable(logging.CRITICAL)
        pkg, m = None, None
        self.real_mpi = {k: sys.modules.get(k) for k in ("mpi4py", "mpi4py.MPI")}
        import forcepho.dispatcher as d
        import forcepho.patches as patches
        import forcepho.tasks as tasks
        import forcepho.fitting as fitting
        import forcepho.superscene as ss
        import littlemcmc, littlemcmc.sampling, scipy.optimize    # noqa
        self.d, self.patches, self.tasks, self.fitting, self.ss = d, patches, tasks, fitting, ss
        self.lmc = littlemcmc
        self.Transform = __import__("forcepho.model", fromlist=["x"]).BoundedTransform
        self.bounds_vectors = ss.bounds_vectors
        from forcepho.sources import Galaxy
        self.SHAPES = list(Galaxy.SHAPE_COLS)
        c = ss.SkyCoord(1, 1, unit="deg")
        c.transform_to(c.skyoffset_frame())

    # ------------------------------------------------------------------------------
    def run(self, ctx):
        if ctx.prop == "C07" and ctx.ch.flip(0.45):
            return self.queue_run(ctx)
        return self.full_run(ctx)

    # -- a complete dispatched run -------------------------------------------------
    def full_run(self, ctx):
        ch = ctx.ch
        d = scratch(ctx)
        os.chdir(d)
        n = ch.pick([4, 2, 8, 12, 1, 16])
        bands = [f"F{i}" for i in range(ch.between(1, 2))]
        spacing = ch.pick([3.0, 1.5, 6.0, 12.0])
        cat, layout = self.catalog(ch, n, bands, spacing)
        draws = ch.pick([20, 50, 5])
        cfg = Namespace(raw_catalog=os.path.join(d, "raw.fits"), scene_catalog=os.path.join(d, "scene.fits"),
                        maxactive_per_patch=ch.pick([3, 1, 2, 8]), patch_maxradius=ch.pick([2.0, 4.0, 1.0]),
                        target_draws=draws * ch.pick([1, 2]), sampling_draws=draws, warmup=[ch.pick([0, 3])],
                        max_treedepth=3, progressbar=False, mode=ch.pick(["sampling", "optimization"]),
                        bands=bands, bandlist=bands, metastorefile="m", psfstorefile="p", pixelstorefile="x", splinedatafile="s",
                        add_barriers=False, gtol=1e-6, linear_optimize=False, flux_prior_expansion=3.0, use_gradients=True,
                        ntry_checkout=ch.pick([10, 3, 30]), outdir=d, outbase=os.path.join(d, "patches/patch"), write_residuals=False)
        n_child = ch.pick([2, 3, 1, 5, 8])
        if ctx.prop in ("C06", "C08") and n >= 12 and ch.flip(0.05):
            # a long run: hundreds of tasks
            cfg.target_draws, cfg.maxactive_per_patch, cfg.mode = draws * 24, 1, "sampling"
            ctx.probe("runs of hundreds of tasks")
        ctx.log("config", dict(n=n, layout=layout, spacing=spacing, children=n_child, draws=draws, target=cfg.target_draws,
                               maxactive=cfg.maxactive_per_patch, maxradius=cfg.patch_maxradius, mode=cfg.mode, ntry=cfg.ntry_checkout))
        self.write_raw(cat, bands, cfg.raw_catalog)
        if ch.flip(0.3):
            # an earlier run in the same directory left its files
            with open("patchlog.dat", "w") as f:
                json.dump({str(k): dict(ra=1.0, dec=2.0, radius=0.1, sources=[0]) for k in range(1, 400)}, f)
            with open("scene_log.json", "w") as f:
                json.dump(dict(sourcelog={"0": ["1", "2"]}, patchlog=["1", "2"]), f)
            with open(cfg.scene_catalog, "w") as f:
                f.write("left by an earlier run")
            ctx.fault("files of an earlier run in the way")
        truth = Truth(self, cat, bands, cfg)
        rounds = 0
        max_rounds = ch.between(1, 3) if ctx.prop == "C09" else 0
        while True:
            exc = None
            fault = None
            if rounds < max_rounds:
                kind = ch.pick([KeyboardInterrupt, mpi.MPIError, RuntimeError])
                fault = (0, 1 + ch.choose(ch.pick([12, 40, 120])), kind("injected by the simulation"))
            sim = self.launch(ctx, cfg, n_child, truth, fault)
            parent = sim.threads[0]
            for t in sim.threads[1:]:
                if t.exc is not None:
                    raise t.exc
            fired = getattr(sim, "fired", None)
            if fired is None:
                if parent.exc is not None:
                    raise parent.exc
                self.check_end(ctx, sim, cfg, truth)
                break
            # the parent failed: what is on disk?
            rounds += 1
            ctx.check(parent.exc is fault[2] or self.causes(parent.exc, fault[2]), "C09", "swallowed",
                      f"the parent did not report its failure but ended with {parent.exc!r}")
            self.check_saved(ctx, cfg, truth, "after the failure")
            truth.restart(self, cfg)
            ctx.log("restart")
            ctx.fault("parent restart")
        ctx.probe("tasks", len(truth.all_tasks))
        ctx.probe(f"in progress at once: {min(truth.max_busy, 8)}")
        if truth.stragglers:
            ctx.probe("stragglers checked in", truth.stragglers)
        ctx.nontrivial = truth.max_busy >= 2
        ctx.sig = [e for e in ctx.events if not e.startswith("config")]

    @staticmethod
    def causes(e, want):
        while e is not None:
            if e is want:
                return True
            e = e.__cause__ or e.__context__
        return False

    def catalog(self, ch, n, bands, spacing):
        cat, layout = make_catalog(ch, self.ss, n, bands, spacing, 0.1, 0.2)
        # keep sources apart: see assumptions
        if layout in ("uniform", "clusters"):
            side = int(np.ceil(np.sqrt(n)))
            dec0 = cat["dec"][0]
            for i in range(n):
                x, y = (i % side) * spacing + ch.uniform(0, spacing - 1.3), (i // side) * spacing + ch.uniform(0, spacing - 1.3)
                cat["ra"][i] = 150.0 + x / 3600.
                cat["dec"][i] = 2.0 + y / 3600.
        elif layout == "line":
            for i in range(n):
                cat["ra"][i] = 150.0 + i * spacing / 3600.
                cat["dec"][i] = 2.0
        cat["sersic"] = 2.0
        cat["q"] = 0.8
        return cat, layout

    def write_raw(self, cat, bands, path):
        fits = self.ss.fits
        hdu = fits.BinTableHDU(cat)
        p = fits.PrimaryHDU()
        p.header["FILTERS"] = ",".join(bands)
        fits.HDUList([p, hdu]).writeto(path, overwrite=True)

    def launch(self, ctx, cfg, n_child, truth, fault):
        sim = mpi.MPISim(ctx, n_child + 1)
        sim.fault_at = fault
        truth.begin(ctx, sim)
        sim.on_send = truth.on_send
        sim.on_receive = truth.on_receive
        pkg, m = sim.module()
        world = self

        def patch_factory(*a, **k):
            return FakePatch(world, sim, truth, cfg)

        jitter = ctx.ch.choose(4)
        patched = [(sys.modules, "mpi4py", pkg, True), (sys.modules, "mpi4py.MPI", m, True)]
        obj = [(self.patches, "JadesPatch", patch_factory), (self.lmc.sampling, "_sample", truth.fake_sample),
               (time, "perf_counter", lambda: sim.now), (time, "monotonic", lambda: sim.now),
               (time, "time", lambda: 1.6e9 + sim.now * (1 if jitter else -1)), (time, "sleep", sim.sleep)]
        for mod in (self.d, self.tasks, self.fitting):
            for name, val in (("JadesPatch", patch_factory), ("MPI", m), ("sample_one", truth.fake_sample), ("_sample", truth.fake_sample)):
                if hasattr(mod, name):
                    obj.append((mod, name, val))
        fill = self.fitting.Result.fill
        checkin = self.ss.SuperScene.checkin_region

        def spy_fill(res, *a, **k):
            out = fill(res, *a, **k)
            truth.filled(sim.cur, res, out)
            return out

        def spy_checkin(db, *a, **k):
            r = checkin(db, *a, **k)
            act = k.get("active", a[0] if a else None)
            truth.on_checkin([int(i) for i in act["source_index"]], db)
            return r
        obj += [(self.fitting.Result, "fill", spy_fill), (self.ss.SuperScene, "checkin_region", spy_checkin)]
        saved = [(o, n, getattr(o, n)) for o, n, _ in obj]
        saved_mod = {k: sys.modules.get(k) for _, k, _, _ in patched}
        try:
            for _, k, v, _ in patched:
                sys.modules[k] = v
            for o, nme, v in obj:
                setattr(o, nme, v)
            if ctx.ch.flip(0.5):      # as mpirun starts it
                sim.run([lambda comm: self.d.main(config=cfg)] * (n_child + 1))
            else:
                sim.run([lambda comm: self.d.do_parent(comm, config=cfg)] + [lambda comm: self.d.do_child(comm, config=cfg)] * n_child)
        except mpi.Deadlock as e:
            ctx.fail(ctx.prop, "deadlock", f"nobody can proceed: {e}")
        except mpi.StepLimit as e:
            ctx.fail(ctx.prop, "no-termination", f"the run did not end within {e}")
        finally:
            for o, nme, v in reversed(saved):
                setattr(o, nme, v)
            for k, v in saved_mod.items():
                if v is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = v
        return sim

    # -- checks ------------------------------------------------------------------------
    def read_state(self, cfg):
        data = self.ss.fits.getdata(cfg.scene_catalog)
        logname = os.path.splitext(cfg.scene_catalog)[0] + "_log.json"
        with open(logname) as f:
            logs = json.load(f)
        return data, logs

    def compare(self, ctx, prop, data, truth, what, every):
        """the catalog on disk against the history of received results"""
        for s in range(truth.n):
            want = truth.values[s]
            for col in truth.cols:
                got = float(data[col][s])
                ctx.check(truth.close(col, got, want[col]), prop, "value",
                          f"{what}: {col} of source {s} is {got}, the last task that varied it found {want[col]}")
            ctx.check(int(data["n_iter"][s]) == truth.n_iter[s], prop, "n_iter",
                      f"{what}: source {s} has {data['n_iter'][s]} iterations, {truth.n_iter[s]} were returned")
            ctx.check(int(data["n_patch"][s]) == truth.n_patch[s], prop, "n_patch",
                      f"{what}: source {s} has {data['n_patch'][s]} patches, {truth.n_patch[s]} were returned")

    def check_saved(self, ctx, cfg, truth, what):
        try:
            data, logs = self.read_state(cfg)
        except FileNotFoundError as e:
            ctx.fail("C09", "no-state", f"{what}: no state on disk: {e}")
            return
        self.compare(ctx, "C09", data, truth, what, False)
        n = sum(1 for t in truth.tasks if t.checked_in)
        ctx.check(len(logs["patchlog"]) == n, "C09", "log", f"{what}: the log has {len(logs['patchlog'])} tasks, {n} were returned")
        count = {}
        for t in truth.tasks:
            if t.checked_in:
                for s in t.a:
                    count[s] = count.get(s, 0) + 1
        got = {int(k): len(v) for k, v in logs["sourcelog"].items() if v}
        ctx.check(got == count, "C09", "source-log", f"{what}: source logs have {got} entries, expected {count}")

    def check_end(self, ctx, sim, cfg, truth):
        # C07: clean termination
        for r in range(1, sim.size):
            ctx.check(truth.shutdowns[r] == 1, "C07", "shutdown", f"child {r} received {truth.shutdowns[r]} shutdown messages")
        ctx.check(sim.leftover() == 0, "C07", "leftover", f"{sim.leftover()} messages were never received")
        ctx.check(sum(len(p) for p in sim.posted) == 0, "C07", "leftover", "a receive is still posted at the end")
        # C06
        ctx.check(all(t.finished and t.received for t in truth.tasks), "C06", "lost",
                  lambda: f"{sum(1 for t in truth.tasks if not t.received)} tasks were handed out but their results never received")
        data, logs = self.read_state(cfg)
        prop = "C06"
        self.compare(ctx, "C06", data, truth, "at the end", True)
        if ctx.prop == "C09":
            self.compare(ctx, "C09", data, truth, "at the end of the resumed run", True)
        ctx.check(np.all(data["is_valid"] == 1) and np.all(data["is_active"] == 0), "C06", "still-out",
                  lambda: f"sources {np.flatnonzero(data['is_valid'] != 1).tolist()} are still checked out in the final state")
        low = [s for s in range(truth.n) if abs(truth.n_iter[s]) < cfg.target_draws]
        ctx.check(not low, "C06", "target", f"the run ended but sources {low} have not reached the target")
        if ctx.prop == "C09":
            ctx.check(not low, "C09", "target", f"the resumed run ended but sources {low} have not reached the target")
        # C08: provenance
        self.check_logs(ctx, cfg, truth, logs)

    def check_logs(self, ctx, cfg, truth, logs):
        plog = [str(p) for p in logs["patchlog"]]
        slog = {int(k): [str(x) for x in v] for k, v in logs["sourcelog"].items() if v}
        tasks = truth.tasks
        ctx.check(len(plog) == len(tasks), "C08", "patchlog-length", f"{len(tasks)} tasks were done, the patch log has {plog}")
        ctx.check(len(set(plog)) == len(plog), "C08", "patchlog-duplicate", f"the patch log lists a task twice: {plog}")
        order = truth.checkins                    # tasks in order of check-in
        for i, t in enumerate(order):
            ctx.check(i < len(plog) and str(t.patchID) == plog[i], "C08", "patchlog-order",
                      lambda: f"check-in {i} was of the result numbered {t.patchID}, the patch log says {plog[i:i+1]} (log {plog})")
        for s in range(truth.n):
            mine = [str(t.patchID) for t in order if s in t.a]
            ctx.check(slog.get(s, []) == mine, "C08", "sourcelog",
                      f"source {s} was varied by tasks {mine}, its log says {slog.get(s, [])}")
        try:
            with open("patchlog.dat") as f:
                cat = {str(k): v for k, v in json.load(f).items()}
        except FileNotFoundError:
            ctx.fail("C08", "no-patch-catalog", "no patch catalog was written")
            return
        for t in tasks:
            e = cat.get(str(t.patchID))
            ctx.check(e is not None and [int(x) for x in e["sources"]] == t.a, "C08", "patch-catalog",
                      lambda: f"the patch catalog has sources {e and e['sources']} for task {t.patchID}, which varied {t.a}")
            if e is not None:
                ctx.check(e["ra"] == t.region.ra and e["dec"] == t.region.dec and e["radius"] == t.region.radius, "C08", "patch-region",
                          f"the patch catalog has another region for task {t.patchID}")
        ctx.check(len(cat) == len(tasks), "C08", "patch-catalog-size", f"{len(cat)} entries in the patch catalog for {len(tasks)} tasks")

    # -- the queue by itself (C07) ---------------------------------------------------------
    def queue_run(self, ctx):
        ch = ctx.ch
        n_child = ch.pick([2, 1, 3, 4, 6])
        sim = mpi.MPISim(ctx, n_child + 1)
        pkg, m = sim.module()
        busy = {}           # child -> task number, as seen on the wire
        sent, got, log = {}, [], []
        shut = [0] * (n_child + 1)
        state = dict(n=0)

        def on_send(src, dst, tag, obj):
            if src == 0:
                if obj is None:
                    shut[dst] += 1
                    return
                ctx.check(dst not in busy, "C07", "two-tasks", f"child {dst} is sent task {obj['n']} while it still has task {busy.get(dst)}")
                busy[dst] = obj["n"]
                sent[obj["n"]] = dst

        sim.on_send = on_send
        steps = ch.pick([20, 8, 40])
        use_tags = ch.pick(["unique", "any", "mixed"])
        ctx.log("config queue", n_child, "children", use_tags)

        def child(comm):
            while True:
                st = mpi.Status()
                task = comm.recv(source=0, tag=mpi.ANY_TAG, status=st)
                if task is None:
                    return
                for _ in range(ch.choose(4)):
                    sim.yield_()
                comm.send(dict(n=task["n"], by=comm.Get_rank()), 0, st.tag)

        def take(queue, results, before):
            for r in results:
                ctx.log("  collected", r["n"], "from", r["by"])
                ctx.check(busy.get(r["by"]) == r["n"], "C07", "result", f"result {r['n']} of child {r['by']} was collected, its task is {busy.get(r['by'])}")
                got.append(r["n"])
                busy.pop(r["by"], None)
            idle = sorted(queue.idle)
            want = sorted(c for c in range(1, n_child + 1) if c not in busy)
            ctx.check(idle == want, "C07", "idle-list", f"idle children {idle}, without a task are {want}")
            b = sorted(x if isinstance(x, (int, np.integer)) else x[0] for x in queue.busy)
            ctx.check(b == sorted(busy), "C07", "busy-list", f"busy children {b}, with a task are {sorted(busy)}")

        def parent(comm):
            queue = self.d.MPIQueue(comm, n_child)
            for _ in range(steps):
                op = ch.weighted([("submit", 5), ("collect", 3), ("collect_blocking", 2), ("submit_full", 1), ("collect_all", 1),
                                  ("close_busy", 1), ("blocking_idle", 1)])
                if op == "submit":
                    if not queue.idle:
                        continue
                    state["n"] += 1
                    k = state["n"]
                    ctx.log("submit", k)
                    t = {"unique": k, "any": None, "mixed": None if ch.flip(0.5) else k}[use_tags]
                    r = queue.submit(dict(n=k)) if t is None else queue.submit(dict(n=k), tag=t)
                    ctx.check(r == sent.get(k), "C07", "assigned", f"submit says child {r} has task {k}, it was sent to {sent.get(k)}")
                    take(queue, [], None)
                elif op == "submit_full" and not queue.idle:
                    ctx.fault("submit with no idle child")
                    self.refused(ctx, lambda: queue.submit(dict(n=-1), tag=7), "submitting with no idle child")
                    take(queue, [], None)
                elif op == "collect":
                    ctx.log("collect")
                    take(queue, queue.collect(), None)
                elif op == "collect_blocking" and busy:
                    ctx.log("collect blocking")
                    res = queue.collect(blocking=True)
                    ctx.check(len(res) >= 1, "C07", "blocking-empty", "blocking collection returned nothing although tasks are outstanding")
                    take(queue, res, None)
                elif op == "blocking_idle" and not busy:
                    ctx.fault("blocking collection with nothing outstanding")
                    self.refused(ctx, lambda: queue.collect(blocking=True), "blocking collection with nothing outstanding")
                    take(queue, [], None)
                elif op == "collect_all":
                    ctx.log("collect all")
                    take(queue, queue.collect(blocking="all"), None)
                    ctx.check(not busy, "C07", "not-all", f"collecting all left tasks of {sorted(busy)}")
                elif op == "close_busy" and busy:
                    ctx.fault("close with tasks outstanding")
                    self.refused(ctx, queue.closeout, "closing with tasks outstanding")
                    ctx.check(sum(shut) == 0, "C07", "early-shutdown", "children were shut down although the close was refused")
            take(queue, queue.collect(blocking="all"), None)
            ctx.check(not busy, "C07", "not-all", f"collecting all left tasks of {sorted(busy)}")
            queue.closeout()

        saved = {k: sys.modules.get(k) for k in ("mpi4py", "mpi4py.MPI")}
        dm = getattr(self.d, "MPI", None)
        try:
            sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = pkg, m
            if dm is not None:
                self.d.MPI = m
            try:
                sim.run([parent] + [child] * n_child)
            except mpi.Deadlock as e:
                ctx.fail("C07", "deadlock", f"nobody can proceed: {e}")
            except mpi.StepLimit as e:
                ctx.fail("C07", "no-termination", f"the run did not end within {e}")
        finally:
            for k, v in saved.items():
                sys.modules.pop(k, None)
                if v is not None:
                    sys.modules[k] = v
            if dm is not None:
                self.d.MPI = dm
        for t in sim.threads:
            if t.exc is not None:
                raise t.exc
        ctx.check(sorted(got) == sorted(sent), "C07", "exactly-once", f"submitted {sorted(sent)}, collected {sorted(got)}")
        ctx.check(all(s == 1 for s in shut[1:]), "C07", "shutdown", f"shutdown messages per child: {shut[1:]}")
        ctx.check(sim.leftover() == 0, "C07", "leftover", "messages were never received")
        ctx.nontrivial = n_child > 1 and len(sent) > 1
        ctx.probe("queue tasks", len(sent))
        ctx.sig = list(ctx.events)

    def refused(self, ctx, fn, what):
        try:
            fn()
        except (Violation, HarnessGap, mpi.Killed):
            raise
        except Exception as e:
            ctx.log("refused:", type(e).__name__)
            return
        ctx.fail("C07", "not-refused", f"{what} was not refused")


class Truth:
    """what actually happened, seen from the children and the wire"""

    def __init__(self, world, cat, bands, cfg):
        self.world, self.bands, self.cfg = world, bands, cfg
        self.cols = list(bands) + world.SHAPES
        self.n = len(cat)
        self.n_iter = [int(x) for x in cat["n_iter"]]
        self.n_patch = [int(x) for x in cat["n_patch"]]
        rect, _, _ = world.ss.rectify_catalog(cfg.raw_catalog)
        self.values = [{c: float(rect[c][s]) for c in self.cols} for s in range(self.n)]
        self.bounds = world.ss.make_bounds(rect, list(bands))
        self.all_tasks = []
        self.tasks = []
        self.max_busy = 0
        self.stragglers = 0

    def begin(self, ctx, sim):
        self.ctx, self.sim = ctx, sim
        self.tasks = []
        self.checkins = []
        self.current = {}
        self.busy = {}
        self.shutdowns = [0] * sim.size

    def restart(self, world, cfg):
        """the harness turns the state file into the next raw catalog, as a user would"""
        data = world.ss.fits.getdata(cfg.scene_catalog)
        cat = np.zeros(len(data), dtype=world.ss.sourcecat_dtype(bands=self.bands))
        for c in cat.dtype.names:
            cat[c] = data[c]
        world.write_raw(cat, self.bands, cfg.raw_catalog)
        rect, _, _ = world.ss.rectify_catalog(cfg.raw_catalog)
        self.bounds = world.ss.make_bounds(rect, list(self.bands))

    def close(self, col, a, b):
        tol = {"ra": 1e-9, "dec": 1e-9}.get(col, 1e-5 * (1 + abs(b)))
        if self.cfg.mode == "optimization":
            tol = {"ra": 3e-8, "dec": 3e-8}.get(col, 2e-3 * (1 + abs(b)))
        return abs(a - b) <= tol

    # -- events -------------------------------------------------------------------------
    def on_send(self, src, dst, tag, obj):
        if src == 0:
            if obj is None:
                self.shutdowns[dst] += 1
                self.ctx.log(f"shutdown -> {dst}")
                self.ctx.check(self.busy.get(dst, 0) == 0, "C07", "shutdown-busy", f"child {dst} is shut down while it has a task")
                return
            self.busy[dst] = self.busy.get(dst, 0) + 1
            self.ctx.log(f"task -> {dst}")
            self.ctx.check(self.busy[dst] == 1, "C07", "two-tasks", f"child {dst} was sent a task while it still has one")
            self.max_busy = max(self.max_busy, sum(1 for v in self.busy.values() if v))
        else:
            t = self.current.get(src)
            self.ctx.log(f"answer of {src}" + (f" for {t.a}" if t else ""))
            if t is not None:
                t.finished = True

    def on_receive(self, rank, req):
        if rank != 0:
            return
        src = req.got_source
        self.busy[src] = self.busy.get(src, 0) - 1
        t = self.current.pop(src, None)
        if t is None:
            return
        t.received = True
        t.checked_in = True      # a received result has to be checked in: no communication happens in between
        self.ctx.log(f"received from {src}: {t.a}")
        for i, s in enumerate(t.a):
            self.values[s] = {c: t.q[i][j] for j, c in enumerate(self.cols)}
            self.n_iter[s] += self.cfg.sampling_draws
            self.n_patch[s] += 1

    def on_checkin(self, inds, db):
        """a check-in happened: of which received task?"""
        for t in self.tasks:
            if getattr(t, "received", False) and not getattr(t, "seen", False) and sorted(t.a) == sorted(inds):
                t.seen = True
                self.checkins.append(t)
                self.ctx.log(f"checkin {inds}")
                covs = getattr(db, "covariance_matrices", None)
                if covs is not None and t.covs is not None and np.shape(t.covs) == np.shape(covs[t.a]):
                    self.ctx.check(np.allclose(covs[t.a], t.covs, rtol=1e-6, atol=0), "C06", "covariance",
                                   f"the covariances of {t.a} are not those that came with the result that was checked in")
                    self.ctx.probe("covariances checked in")
                return
        self.ctx.fail("C06", "unknown-checkin", f"a check-in of {inds} does not belong to any result received and not yet checked in")

    def assigned(self, rank, region, active, fixed, bounds):
        """a child starts a task"""
        ctx = self.ctx
        t = Task(rank, len(self.all_tasks), region, active, fixed, bounds)
        t.received = False
        if rank in self.current:
            ctx.fail("C07", "two-tasks", f"child {rank} starts a task before its previous result was received")
        for r, o in self.current.items():
            both = (set(t.a) & set(o.a)) | (set(t.a) & set(o.f)) | (set(t.f) & set(o.a))
            ctx.check(not both, "C06", "not-exclusive", f"sources {sorted(both)} are in two concurrent tasks")
        self.current[rank] = t
        self.tasks.append(t)
        self.all_tasks.append(t)
        ctx.log(f"child {rank} works on {t.a}, fixed {t.f}")
        for rows, inds, what in ((active, t.a, "active"), (fixed, t.f, "fixed")):
            if rows is None:
                continue
            for i, s in enumerate(inds):
                for c in self.cols:
                    ctx.check(self.close(c, float(rows[c][i]), self.values[s][c]), "C06", "stale-task",
                              f"{what} source {s} was handed out with {c} = {rows[c][i]}, the current value is {self.values[s][c]}")
                ctx.check(int(rows["n_iter"][i]) == self.n_iter[s], "C06", "stale-task",
                          f"{what} source {s} was handed out with {rows['n_iter'][i]} iterations, it has {self.n_iter[s]}")
        if bounds is not None:
            for i, s in enumerate(t.a):
                for c in self.cols:
                    ctx.check(np.allclose(bounds[c][i], self.bounds[c][s], rtol=1e-12, atol=0), "C06", "bounds",
                              f"the bounds sent for {c} of source {s} are not its own")
        if getattr(t, "f", None):
            ctx.probe("task with fixed sources")
        return t

    def filled(self, rank, res, out):
        t = self.current.get(rank)
        if t is not None:
            t.patchID = res.patchID
            t.covs = None if out[1] is None else np.array(out[1], dtype=float)

    # -- stand-ins --------------------------------------------------------------------------
    def fake_sample(self, *, logp_dlogp_func=None, model_ndim=None, draws=0, tune=0, start=None, step=None,
                    discard_tuned_samples=True, **k):
        """NUTS stand-in: some evaluations, then a chain ending where the task's seed says"""
        t = self.current[self.sim.cur]
        logp_dlogp_func(np.array(start))
        for _ in range(self.ctx.ch.choose(3)):
            self.sim.yield_()
        n = draws if discard_tuned_samples else draws + tune
        n = max(n, 1)
        pot = getattr(step, "potential", None)
        for name in ("_cov", "_var"):
            if getattr(pot, name, None) is not None:      # what the sampler learned of the posterior's shape
                setattr(pot, name, np.array(getattr(pot, name)) * np.random.uniform(0.5, 2))
        trace = np.tile(np.asarray(t.z)[:, None], (1, n)) + np.linspace(-0.1, 0, n)[None, :]
        dt = step.stats_dtypes[0]
        stats = []
        for i in range(n):
            s = {k: np.zeros(1, dtype=v)[0] for k, v in dt.items()}
            s["tune"] = i < (0 if discard_tuned_samples else tune)
            stats.append(s)
        return trace, stats


class FakePatch:
    """stands in for JadesPatch: no pixels, an analytic posterior"""

    def __init__(self, world, sim, truth, cfg):
        self.world, self.sim, self.truth, self.cfg = world, sim, truth, cfg
        self.region = None
        self.bandlist = list(cfg.bands)
        self.return_residual = True

    def build_patch(self, region=None, headers=None, allbands=None, *a, **k):
        self.region = region
        self.bandlist = list(allbands if allbands is not None else self.cfg.bands)
        for _ in range(self.truth.ctx.ch.choose(3)):
            self.sim.yield_()

    def prepare_model(self, active=None, fixed=None, bounds=None, **k):
        t = self.truth.assigned(self.sim.cur, self.region, active, fixed, bounds)
        w = self.world
        ref = np.array([np.median(active["ra"]), np.median(active["dec"])])
        self.patch_reference_coordinates = ref
        self.epaths = ["F0/exp"]
        self.npix, self.n_sources, self.n_active, self.n_bands = 64, len(active), len(active), len(self.bandlist)
        self.n_fixed = 0 if fixed is None else len(fixed)
        b = bounds if bounds is not None else self.truth.bounds[t.a]
        lo, hi = w.bounds_vectors(b, self.bandlist, shapenames=w.SHAPES, reference_coordinates=ref)
        u = np.random.uniform(0.15, 0.85, len(lo))
        q = lo + u * (hi - lo)
        m = FakeModel(w, self, lo, hi)
        t.z = m.transform.inverse_transform(q)
        m.zstar = t.z
        qq = m.transform.transform(t.z).reshape(len(t.a), -1).copy()
        nb = len(self.bandlist)
        qq[:, nb + w.SHAPES.index("ra")] += ref[0]
        qq[:, nb + w.SHAPES.index("dec")] += ref[1]
        t.q = qq
        self.scene = m.scene
        q0 = lo + 0.5 * (hi - lo)
        return m, q0

    def set_scene(self, *a, **k):
        pass

    def free(self):
        pass

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise HarnessGap(f"patch.{name} is not modelled")


class FakeModel:
    def __init__(self, world, patch, lo, hi):
        self.patch = patch
        self.transform = world.Transform(lo, hi)
        src = types.SimpleNamespace(SHAPE_COLS=world.SHAPES)
        self.scene = types.SimpleNamespace(sources=[src] * patch.n_sources)
        self.ncall = 0
        self.sampling = True
        self._lnpriorfn = None
        self.ndof = 1.0

    def lnprob_and_grad(self, z):
        self.ncall += 1
        d = z - self.zstar
        return -0.5 * np.dot(d, d), -d

    def lnprob(self, z):
        return self.lnprob_and_grad(z)[0]

    def lnprob_grad(self, z):
        return self.lnprob_and_grad(z)[1]

    def nll(self, z):
        l, g = self.lnprob_and_grad(z)
        return -l, -g

    def nll_nograd(self, z):
        return self.nll(z)[0]

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise HarnessGap(f"model.{name} is not modelled")
