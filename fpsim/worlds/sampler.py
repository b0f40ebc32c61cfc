"""Sampling and optimisation tasks on reused workers, under any clock (C17).

Real code: tasks.sample, tasks.optimize, run_lmc, run_opt, Result.fill, patches, posterior, the compiled CPU
kernel of the working tree, littlemcmc and scipy.  Simulated: which worker does which task and after what,
the clock, the state of the global random generator left by others, interrupts and kernel errors.
Reference: the same task done by a new worker in a pristine copy of the process, with another clock.
"""
import argparse
import logging
import os
import time

import numpy as np

from ..core import HarnessGap, Violation
from .. import entropy, faults, field
from .worker import WorkerWorld, differ, freeze

STATS = ["depth", "step_size", "tune", "mean_tree_accept", "step_size_bar", "tree_size", "diverging", "energy_error",
         "energy", "max_energy_error", "model_logp"]


class Clock:
    """what time.time() and its relatives say"""

    def __init__(self, kind, rng):
        self.t, self.kind, self.rng, self.n = 1.7e9, kind, rng, 0

    def __call__(self):
        self.n += 1
        k = self.kind
        if k == "steady":
            self.t += 0.01
        elif k == "backwards":
            self.t -= 3.0
        elif k == "jumps":
            self.t += self.rng.choice([1e-6, 0.1, 3600.0, -3600.0, 1e8])
        elif k == "slow":
            self.t += 1e5
        return self.t

    def install(self):
        time.time = time.perf_counter = time.monotonic = time.process_time = self
        time.time_ns = time.perf_counter_ns = time.monotonic_ns = lambda: int(self() * 1e9)


class SamplerWorld(WorkerWorld):
    name = "sampler"
    wall = 200
    runs = dict(quick=400, thorough=12000)
    rule = ("a run is one history of sampling and optimisation tasks on reused workers; non-trivial if a result was compared after an earlier "
            "task or fault on the same worker; distinct by the sequence of tasks, workers, faults and outcomes")
    components = dict(real=["forcepho.tasks, fitting, patches, posterior", "CPU kernel (compiled from the working tree)", "littlemcmc, scipy BFGS"],
                      stub=["clock", "placement of tasks", "kernel failures and interrupts", "state of the global random generator"])
    assumptions = ["evaluation is a deterministic function on one machine", "optimisation tasks are given the state of numpy's global generator as their seed"]

    def prepare(self, prop, tier):
        from .. import repo
        from ..core import scratch_root
        repo.install()
        self.kernel = faults.Kernel(repo.use_kernel())
        import forcepho.superscene as ss
        import forcepho.tasks as tasks
        from forcepho import fitting
        from forcepho.patches import CPUPatchMixin, StorePatch
        from forcepho.region import CircularRegion
        import littlemcmc.sampling     # noqa: F401  (imported lazily by the code under test)
        import scipy.optimize          # noqa: F401
        self.ss, self.tasks, self.fitting, self.CircularRegion = ss, tasks, fitting, CircularRegion
        self.field = f = field.Field(os.path.join(scratch_root(), "field"))
        self.logger = logging.getLogger("fpsim")
        self.logger.disabled = True

        class Store(StorePatch, CPUPatchMixin):
            pass
        self.makers = dict(store=lambda: Store(pixelstore=f.pixelstore, metastore=f.metastore, psfstore=f.psfstore,
                                               splinedata=f.splinedata, return_residual=True))

    # ------------------------------------------------------------------ tasks
    def draw(self, ctx, own=True):
        ch, f = ctx.ch, self.field
        t = dict(mode=ch.weighted([("sample", 5), ("optimize", 3), ("both", 2), ("lmc", 3), ("opt", 1)]))
        t["bands"] = ch.pick([f.bands[:1], f.bands[1:], f.bands, f.bands[::2]])
        t["radius"] = ch.pick([0.4, 0.6])     # contains a corner of a superpixel of every exposure it is in
        t["center"] = (field.RA0 + ch.uniform(-0.2, 0.2) / 3600, field.DEC0 + ch.uniform(-0.2, 0.2) / 3600)
        na, nf = ch.pick([1, 2, 1]), ch.pick([0, 1])
        cat = f.sources(ch, na + nf, self.ss.sourcecat_dtype(bands=f.bands))
        cat["n_iter"] = ch.pick([0, 30])
        cat["source_index"] = 7 + 3 * np.arange(na + nf)[::-1]
        t["active"], t["fixed"] = cat[:na], (cat[na:] if nf else None)
        c = t["config"] = argparse.Namespace(bands=t["bands"], progressbar=False)
        c.sampling_draws, c.warmup = ch.pick([4, 1, 8]), [ch.pick([4, 8, 1])]
        c.max_treedepth = ch.pick([3, 5])
        c.add_barriers, c.linear_optimize = ch.choose(2), ch.choose(2)
        c.gtol, c.flux_prior_expansion = ch.pick([1.0, 10.0, 0.1]), ch.pick([1, 3])
        t["cov"] = ch.pick([None, "diag", "full", "singular"] if own else [None, None, "full"])
        t["seed"] = ch.bits()
        t["full"], t["discard"], t["jac"] = bool(ch.choose(2)), bool(ch.choose(2)), not ch.flip(0.3)
        t["lmc_seed"] = ch.pick([None, 5, 0xFFFF, 0, 2**32 - 1])
        t["trace"] = ch.flip(0.2)
        t["own pad"] = not ch.flip(0.1 if own else 0.8)       # otherwise the scratchpad the task functions share
        if ch.flip(0.05):
            c.sampling_draws, c.max_treedepth = 70, 3
        return t

    def label(self, t):
        c = t["config"]
        return f"{t['mode']} of {len(t['active'])} sources in {len(t['bands'])} bands, {c.warmup[0]}+{c.sampling_draws}"

    def cov(self, t, n):
        rng = np.random.default_rng(t["seed"])
        if t["cov"] is None:
            return None
        if t["cov"] == "diag":
            return np.diag(rng.uniform(0.5, 2, n))
        a = rng.normal(0, 0.3, (n, n))
        if t["cov"] == "full":
            return np.eye(n) + a @ a.T
        v = rng.normal(0, 1, (n, 1))
        return v @ v.T * 1e-3                 # not positive definite

    def do(self, ctx, patch, t):
        """one task, as a child does it; returns a picklable account of it"""
        reg = self.CircularRegion(t["center"][0], t["center"][1], t["radius"] / 3600)
        bounds = self.ss.make_bounds(t["active"], self.field.bands)
        active, fixed = t["active"].copy(), (None if t["fixed"] is None else t["fixed"].copy())
        scene = (reg, active, fixed, bounds)
        config, mode = t["config"], t["mode"]
        n = len(active) * (len(t["bands"]) + 6)
        cov = self.cov(t, n)
        cov0 = None if cov is None else cov.copy()
        acct = dict(mode=mode, out=[])
        live = []
        pad = argparse.Namespace()
        kw = dict(scratchpad=pad) if t["own pad"] else {}
        if mode in ("optimize", "both"):
            np.random.seed(t["seed"] % 2**32)     # the seed of an optimisation is the state of the generator
            fit, scene, model = self.tasks.optimize(patch, scene, config, self.logger, **kw)
            self.note(ctx, acct, live, "optimize", patch, t, fit, scene, model, getattr(pad, "q_start", None))
            acct["pad"] = {k: freeze(getattr(pad, k)) for k in ("q_initial", "q_start", "q_postop", "active_postop", "bounds_postop", "active_start") if t["own pad"]}
            acct["settings"] = (model.sampling, getattr(model, "_lnpriorfn", None) is None)
            scene = (scene[0], scene[1].copy(), scene[2], self.ss.make_bounds(scene[1], self.field.bands)) if mode == "both" else scene
        if mode in ("sample", "both"):
            before = (scene[1].copy(), scene[3].copy())
            fit, scene, model = self.tasks.sample(patch, scene, config, self.logger, **(kw if cov is None and not t["own pad"] else dict(kw, cov=cov)))
            if differ(before, (scene[1], scene[3])):
                raise Violation("C17", "task-changed", f"a sampling task changed the sources or bounds of the task: {differ(before, (scene[1], scene[3]))}")
            self.note(ctx, acct, live, "sample", patch, t, fit, scene, model, getattr(pad, "q_sampling", None))
        if mode in ("lmc", "opt"):
            patch.build_patch(reg, None, allbands=t["bands"])
            model, q = patch.prepare_model(active=active, fixed=fixed, bounds=bounds)
            q0 = q.copy()
            for k in range(2 if t["seed"] % 3 == 0 else 1):
                if mode == "opt":
                    model.sampling = False
                    out, res = self.fitting.run_opt(model, q, jac=t["jac"], gtol=config.gtol, maxiter=3)
                    model.sampling = True
                    fit = (out, None, res)
                else:
                    kw = {} if t["lmc_seed"] is None else dict(random_seed=t["lmc_seed"])
                    if t["trace"]:
                        kw["trace"] = np.random.default_rng(t["seed"]).normal(0, 0.5, (len(q), 40))
                    fit = self.fitting.run_lmc(model, q, config.sampling_draws, warmup=config.warmup, z_cov=None if t["trace"] else cov,
                                               full=t["full"], max_treedepth=config.max_treedepth, discard_tuned_samples=t["discard"], **kw)
                self.note(ctx, acct, live, mode, patch, t, fit, scene, model, q0)
                if not np.array_equal(q, q0):
                    raise Violation("C17", "start-changed", f"run_{mode} changed the starting position passed in")
        if cov is not None and not np.array_equal(cov, cov0):
            raise Violation("C17", "cov-changed", "the covariance matrix passed in was changed")
        return acct, live

    def note(self, ctx, acct, live, mode, patch, t, fit, scene, model, q0):
        """checks of one fit on its own, and what is compared to the reference"""
        bad = lambda cls, msg: (_ for _ in ()).throw(Violation("C17", cls, f"{self.label(t)}: {msg}"))
        region, active, fixed, bounds = scene
        out, step, stats = fit
        c = t["config"]
        ndim = len(active) * (len(t["bands"]) + 6)
        ncall = model.ncall
        mcmc = mode in ("sample", "lmc")
        returned = getattr(out, "n_call", ncall)
        final, covs = out.fill(region, active, fixed, model, bounds=bounds, step=step, stats=stats if mcmc else None, patchID=17)
        interrupted = self.kernel.fired or (self.tracer is not None and self.tracer.fired)
        chain = np.asarray(out.chain)
        if mcmc:
            discard = mode == "lmc" and t["discard"]
            want = c.sampling_draws + (0 if discard else c.warmup[0])
            if chain.shape[1:] != (ndim,) or (chain.shape[0] != want and not interrupted) or chain.shape[0] > want:
                bad("chain-length", f"chain of shape {chain.shape} for {c.warmup[0]} tuning steps and {c.sampling_draws} draws{' without tuning' if discard else ''}")
            if len(out.stats) != len(chain):
                bad("stats-length", f"{len(out.stats)} statistics for a chain of {len(chain)}")
            if len(out.stats) and not discard:
                k = min(len(chain), c.warmup[0])
                if int(out.n_tune) != k or int(out.n_sample) != len(chain) - k:
                    bad("split", f"n_tune, n_sample = {out.n_tune}, {out.n_sample} for {c.warmup[0]} tuning steps of {len(chain)}")
            elif len(out.stats) and (int(out.n_tune) != 0 or int(out.n_sample) != len(chain)):
                bad("split", f"n_tune, n_sample = {out.n_tune}, {out.n_sample} for {len(chain)} draws, tuning discarded")
        elif chain.shape != (1, ndim):
            bad("chain-length", f"an optimisation has a chain of shape {chain.shape}")
        if q0 is not None and not np.array_equal(out.starting_position, q0):
            bad("start", "the starting position of the result is not where it started")
        if out.ndim != ndim:
            bad("ndim", f"ndim {out.ndim} instead of {ndim}")
        made = model.fpsim_count.n
        if made and not interrupted and (ncall != made or out.n_call != ncall or returned != ncall):
            bad("n_call", f"n_call {returned}, {out.n_call} of the result, {ncall} of the model, {made} evaluations made")
        # the final state is the last row of the chain
        if len(chain):
            ref = np.asarray(patch.patch_reference_coordinates)
            cols = list(t["bands"]) + ["ra", "dec", "q", "pa", "sersic", "rhalf"]
            want = active.copy()
            for s in range(len(active)):
                for j, col in enumerate(cols):
                    want[col][s] = chain[-1, s * len(cols) + j] + (ref[0] if col == "ra" else ref[1] if col == "dec" else 0)
            d = differ(final, want) or differ(out.final, want)
            if d:
                bad("final", f"the final catalog is not the end of the chain: {d}")
            lo, hi = model.transform.lower, model.transform.upper
            if np.any(chain < lo - 1e-9 * np.abs(lo)) or np.any(chain > hi + 1e-9 * np.abs(hi)):
                bad("bounds", "the chain leaves the prior bounds")
        if mcmc and len(chain):
            # the statistics of a row belong to that row
            rows = sorted({0, len(chain) // 2, len(chain) - 1})
            for r in rows:
                z = model.transform.inverse_transform(chain[r])
                if not np.all(np.abs(z) < 12):
                    continue                        # at the bounds z cannot be had back from the chain
                lnp = float(model.lnprob(z))
                got = float(out.stats["model_logp"][r])
                if abs(lnp - got) > 1e-2 + 1e-4 * abs(lnp):
                    bad("logp", f"row {r} of the chain has ln-probability {lnp}, its statistics say {got}")
        rec = {k: freeze(getattr(out, k)) for k in ("chain", "starting_position", "ndim", "n_call", "npix", "nexp", "exposures", "bandlist",
                                                    "reference_coordinates", "final", "chaincat", "active", "cov", "stats") if hasattr(out, k)}
        rec.update(final2=freeze(final), covs=freeze(covs))
        if mode in ("optimize", "opt"):
            rec.update(fun=float(out.fun), jac=freeze(np.asarray(out.jac)), lnp=float(out.lnp))
        acct["out"].append(rec)
        live.append((out, rec))
    def watch(self):
        """count the evaluations each posterior makes"""
        import forcepho.model as fm
        orig = fm.FastPosterior.__init__

        class Count:
            def __init__(self, real):
                self.__dict__.update(real=real, n=0)

            def evaluate_proposal(self, *a, **k):
                self.__dict__["n"] += 1
                return self.real.evaluate_proposal(*a, **k)

            def __getattr__(self, name):
                return getattr(self.real, name)

            def __setattr__(self, name, value):
                setattr(self.real, name, value)

        def init(m, *a, **k):
            orig(m, *a, **k)
            m.proposer = m.fpsim_count = Count(m.proposer)
        fm.FastPosterior.__init__ = init

    tracer = None

    def fresh(self, t, clock, junk):
        clock.install()
        np.random.seed(junk)
        entropy.reseed(junk)
        return self.do(None, self.makers["store"](), t)[0]

    # ------------------------------------------------------------------ C17
    def run_C17(self, ctx):
        ch = ctx.ch
        self.watch()
        import random
        rng = random.Random(ch.bits())
        nworkers = ch.between(1, 2)
        jobs = []
        own = not ch.flip(0.3)
        for i in range(ch.between(2, 4)):
            if jobs and ch.flip(0.25):
                t = jobs[ch.choose(len(jobs))][0]             # the same task again
            else:
                t = self.draw(ctx, own)
            jobs.append((t, ch.choose(nworkers)))
        refs = {}
        for t, _ in jobs:
            if id(t) not in refs:
                r = refs[id(t)] = faults.pristine(self.fresh, t, Clock("steady", rng), 12345)
                if r[0] == "raised":
                    if r[1] == "Violation":
                        raise Violation("C17", "fresh", r[2].splitlines()[0])
                    if r[3] is None and r[1] in ("AttributeError", "TypeError", "ValueError", "KeyError", "IndexError"):
                        raise Violation("C17", f"unusable-{r[1]}", f"{self.label(t)}: what a new worker returned cannot be used: {r[1]}: {r[2]}")
                    if r[3] is None:
                        raise HarnessGap(f"{r[1]}: {r[2]}")
                    if not (t["mode"] == "both" and "energy" in r[2].splitlines()[0]):       # the optimum is at the prior bounds
                        raise Violation("C17", f"raises-{r[1]}", f"{self.label(t)}: {r[1]} on a new worker through {r[3]}: {r[2]}")
        clock = Clock(ch.pick(["steady", "backwards", "jumps", "frozen", "slow"]), rng)
        clock.install()
        patches = [self.makers["store"]() for _ in range(nworkers)]
        used = [0] * nworkers
        handed = []
        ctx.log(f"{nworkers} workers, clock {clock.kind}")
        ctx.fault("clock " + clock.kind)
        queue = list(jobs)
        tries = 0
        while queue:
            t, w = queue[0]
            fault = None
            if ch.flip(0.35) and tries < 3:
                fault = ch.pick(["kernel", "kernel", "line"])
            junk = ch.bits() % 2**32
            np.random.seed(junk)
            entropy.reseed(junk)
            self.kernel.fired, self.tracer = False, None
            exc = got = None
            kind = None
            if fault == "kernel":
                kind = ch.pick([KeyboardInterrupt, KeyboardInterrupt, RuntimeError, MemoryError, FloatingPointError])
                self.kernel.arm(ch.choose(ch.pick([3, 20, 100])), ch.pick(["before", "after"]), kind())
            elif fault == "line":
                kind = KeyboardInterrupt
                self.tracer = faults.LineInterrupt(ch.choose(ch.pick([2000, 10000, 60000])))
            try:
                if self.tracer is not None:
                    with self.tracer:
                        got = self.do(ctx, patches[w], t)
                else:
                    got = self.do(ctx, patches[w], t)
            except (Violation, HarnessGap):
                raise
            except BaseException as e:
                if type(e).__name__ == "Hang":
                    raise
                exc = e
            finally:
                self.kernel.disarm()
            fired = self.kernel.fired or (self.tracer is not None and self.tracer.fired)
            ctx.log(f"worker {w}: {self.label(t)}: {'raised ' + type(exc).__name__ if exc is not None else 'ok'}"
                    f"{' after ' + kind.__name__ + ' in ' + (self.tracer.fired if self.tracer else 'the kernel') if fired else ''}")
            ctx.sim_time += abs(clock.n)
            if fired:
                ctx.fault(f"{kind.__name__} in {'a line of the code' if self.tracer else 'the kernel'}")
            want = refs[id(t)][1]
            if refs[id(t)][0] == "raised" and not fired:
                if exc is None:
                    raise Violation("C17", "accepted", f"{self.label(t)} works on a used worker, but raises {want} on a new one")
                exc.__traceback__ = None
                ctx.fault("task that cannot be done")
                used[w] += 1
                queue.pop(0)
            elif exc is not None:
                if not fired:
                    raise Violation("C17", f"raises-{type(exc).__name__}", f"{self.label(t)} raises {type(exc).__name__}: {exc} on a used worker")
                exc.__traceback__ = None
                tries += 1
                used[w] += 1
                if ch.flip(0.5):
                    queue.pop(0)                      # given up; otherwise tried again on the same worker
            else:
                acct, live = got
                if fired and refs[id(t)][0] == "value":
                    self.prefix(ctx, t, acct, want)
                elif not fired:
                    d = differ(acct, want)
                    if d:
                        raise Violation("C17", "differs", f"{self.label(t)} on worker {w} ({used[w]} tasks before, clock {clock.kind}) differs from a new worker: {d}")
                    ctx.probe("results compared")
                handed += live
                if used[w]:
                    ctx.nontrivial = True
                used[w] += 1
                queue.pop(0)
            for out, rec in handed:
                for k in ("chain", "final", "chaincat", "starting_position"):
                    if k in rec and differ(getattr(out, k), rec[k]):
                        raise Violation("C17", "changed", f"{k} of an earlier result changed later: {differ(getattr(out, k), rec[k])}")
            if ch.flip(0.5):
                patches[w].free()

    def prefix(self, ctx, t, acct, want):
        """an interrupt that was absorbed: what is reported are draws that were made"""
        ctx.probe("interrupted results compared")
        for rec, ref in zip(acct["out"], want["out"]):
            a, b = rec["chain"], ref["chain"]
            if "stats" not in rec:
                continue
            if differ(a, b[:len(a)]):
                raise Violation("C17", "interrupted", f"{self.label(t)}: an interrupted sampling reports draws that were not made: {differ(a, b[:len(a)])}")
            for n in STATS:
                if differ(rec["stats"][n], ref["stats"][n][:len(a)]):
                    raise Violation("C17", "interrupted", f"{self.label(t)}: an interrupted sampling reports other statistics ({n}): {differ(rec['stats'][n], ref['stats'][n][:len(a)])}")
            if not len(a):
                raise Violation("C17", "interrupted", f"{self.label(t)}: an interrupted sampling reports an empty chain")
