"""Which world decides which property; running checks, writing evidence and replay files."""
import collections
import hashlib
import importlib
import json
import os
import subprocess
import sys
import time
import traceback

from . import core, entropy
from .core import VERIF

#: property -> (module, class)
PROPS = {
    "C01": ("scene", "SceneWorld"),
    "C02": ("scene", "SceneWorld"),
    "C03": ("scene", "SceneWorld"),
    "C04": ("scene", "SceneWorld"),
    "C05": ("scene", "LivenessWorld"),
    "C06": ("dispatch", "DispatchWorld"),
    "C07": ("dispatch", "DispatchWorld"),
    "C08": ("dispatch", "DispatchWorld"),
    "C09": ("dispatch", "DispatchWorld"),
    "C10": ("disk", "DiskWorld"),
    "C11": ("disk", "DiskWorld"),
    "C12": ("disk", "DiskWorld"),
    "C13": ("disk", "DiskWorld"),
    "C14": ("worker", "WorkerWorld"),
    "C15": ("gpu", "GPUWorld"),
    "C16": ("worker", "WorkerWorld"),
    "C17": ("sampler", "SamplerWorld"),
    "C18": ("post", "PostWorld"),
    "C19": ("scene", "SceneWorld"),
    "C20": ("kernel", "KernelWorld"),
    "C21": ("images", "ImagesWorld"),
    "C22": ("reads", "ReadsWorld"),
}


def world_for(prop):
    mod, cls = PROPS[prop]
    return getattr(importlib.import_module(f"fpsim.worlds.{mod}"), cls)()


def environment(argv):
    prop = None
    if argv and argv[0] == "--replay" and len(argv) > 1:
        prop = json.load(open(argv[1]))["property"]
    elif argv and argv[0] in ("--selftest", "--dump") and len(argv) > 1:
        prop = argv[1]
    elif argv:
        prop = argv[0]
    if prop in PROPS:
        mod, _ = PROPS[prop]
        env = {}
        if mod in ("disk", "worker", "images", "reads"):
            from . import shim
            env.update(LD_PRELOAD=shim.build(), HDF5_USE_FILE_LOCKING="TRUE")
        if mod in ("worker", "gpu", "sampler", "kernel", "reads"):
            env.update(MALLOC_PERTURB_="165")        # freed and fresh memory has a known content
        return env
    return {}


def setup():
    from . import repo
    repo.install()
    repo.build_kernel()
    try:
        from . import shim
        shim.build()
    except ImportError:
        pass
    print("built")
    return 0


def known_findings():
    path = os.path.join(VERIF, "known_findings.jsonl")
    if not os.path.exists(path):
        return []
    return [json.loads(l) for l in open(path) if l.strip().startswith("{")]


def check(prop, tier, seed):
    t0 = time.time()
    world = world_for(prop)
    why = prepared(world, prop, tier)
    if why:
        path = os.path.join(VERIF, "replays", f"{prop}_{seed}_prepare.json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump(dict(property=prop, world=world.name, tier=tier, verif_seed=seed, run=None, cls="prepare", msg=why,
                           choices=[], trace=[why], evhash=None), f, indent=1)
        print(why)
        evidence(world, prop, tier, seed, {}, [0], time.time() - t0, 0, path)
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        return 1
    n = world.runs[tier]
    n = n.get(prop, n["*"]) if isinstance(n, dict) else n
    n = int(os.environ.get("FPSIM_RUNS", n))
    nw = int(os.environ.get("FPSIM_WORKERS", min(8, os.cpu_count() or 1)))
    budget = dict(quick=420, thorough=5400)[tier]
    print(f"{prop}: world {world.name}, VERIF_SEED={seed}, tier {tier}, {n} runs, {nw} workers", flush=True)
    t1 = time.time()
    results, bad = core.explore(world, prop, seed, tier, n, nw, budget)
    explore_s = time.time() - t1
    rc = 0
    replay = None
    viol = [i for i in bad if results[i]["status"] == "violation"]
    harness = [i for i in bad if results[i]["status"] == "harness"]
    if viol:
        rc, replay = report(world, prop, tier, seed, min(viol), results[min(viol)])
    elif harness:
        r = results[min(harness)]
        print(f"HARNESS-ERROR property={prop} run={min(harness)}: {r['msg']}\n{r.get('tb', '')}", flush=True)
        rc = 2
    if len(results) < n and not bad:
        print(f"{prop}: stopped by the wall budget after {len(results)} of {n} runs", flush=True)
        if not results:
            rc = 2
    evidence(world, prop, tier, seed, results, viol, time.time() - t0, explore_s, replay)
    if rc == 0:
        for k in known_findings():
            if k.get("property") == prop and k.get("status") == "known":
                print(f"KNOWN-FINDING: property={prop} {k['what']}")
        print(f"{prop}: held on {len(results)} runs in {time.time() - t0:.1f} s", flush=True)
    return rc


def prepared(world, prop, tier):
    """the fault-free operations every run starts from; says what failed if code under test raised"""
    try:
        world.prepare(prop, tier)
    except core.Violation as v:
        return f"[{v.cls}] {v.msg}"
    except core.HarnessGap:
        raise
    except Exception as e:
        where = core.repo_frames(e.__traceback__)
        if where is None:
            raise
        traceback.print_exc()
        return f"{type(e).__name__}: {e} (raised through {where}, before any fault)"


def report(world, prop, tier, seed, i, res):
    """confirm, minimise, write the replay file, confirm in a fresh process"""
    print(f"{prop}: run {i} of seed {seed}: [{res['cls']}] {res['msg']}", flush=True)
    choices = res.get("choices")
    if not choices and res["cls"].startswith(("died", "hang")):
        # regenerate the choices from the seed: replay the same prefix of the PRNG
        import random
        rng = random.Random(f"{world.name}:{prop if world.per_property else ''}:{seed}:{i}")
        choices = None
    cls = res["cls"]
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", f"{prop}_{seed}_{i}.json")
    tries = 0
    if choices:
        again = core.isolated(core.run_replay, world, prop, choices, tier, wall=world.wall + 30)
        if not core.same(again, cls):
            if cls == "hang":
                print(f"HARNESS-ERROR property={prop}: a run hung once and not again", flush=True)
                return 2, None
            print(f"HARNESS-ERROR property={prop}: not reproduced: {again.get('status')} {again.get('cls')}", flush=True)
            return 2, None
        small, tries = core.minimise(world, prop, choices, cls, tier, budget=float(os.environ.get("FPSIM_MIN", 45)))
        final = core.isolated(core.run_replay, world, prop, small, tier, wall=world.wall + 30)
        if not core.same(final, cls):
            small, final = choices, again
        body = dict(property=prop, world=world.name, tier=tier, verif_seed=seed, run=i, cls=cls, msg=final["msg"],
                    original_choices=len(choices), minimise_tries=tries, choices=small, trace=final["events"],
                    evhash=final["evhash"], traceback=final.get("tb"))
    else:
        again = core.isolated(core.run_seed, world, prop, seed, i, tier, wall=world.wall + 30)
        if again["status"] != "violation":
            print(f"HARNESS-ERROR property={prop}: not reproduced: {again.get('status')}", flush=True)
            return 2, None
        body = dict(property=prop, world=world.name, tier=tier, verif_seed=seed, run=i, cls=again["cls"],
                    msg=again["msg"], choices=None, trace=again["events"], evhash=None)
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    env = dict(os.environ)
    env.pop("FPSIM_CHILD", None)
    r = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), "--replay", path], env=env,
                       capture_output=True, text=True, timeout=world.wall + 200)
    fresh = r.returncode == 1
    body["reproduced_in_fresh_process"] = fresh
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    for e in body["trace"][-25:]:
        print("   ", e)
    if not fresh:
        print(f"HARNESS-ERROR property={prop}: the replay file does not reproduce in a fresh process\n{r.stdout[-800:]}{r.stderr[-800:]}")
        return 2, path
    print(f"[{body['cls']}] {body['msg']}")
    print(f"VIOLATION property={prop} replay={path}", flush=True)
    return 1, path


def replay(path):
    d = json.load(open(path))
    world = world_for(d["property"])
    why = prepared(world, d["property"], d["tier"])
    if why or d["cls"] == "prepare":
        print(why or "ok")
        if why:
            print(f"VIOLATION property={d['property']} replay={path}")
        return 1 if why else 0
    if d["choices"] is not None:
        res = core.isolated(core.run_replay, world, d["property"], d["choices"], d["tier"], wall=world.wall + 30)
    else:
        res = core.isolated(core.run_seed, world, d["property"], d["verif_seed"], d["run"], d["tier"], wall=world.wall + 30)
    for e in res["events"]:
        print("   ", e)
    if res["status"] == "violation":
        print(f"[{res['cls']}] {res['msg']}")
        exact = d.get("evhash") in (None, res["evhash"]) and res["cls"] == d["cls"]
        print("same event log as recorded" if exact else "DIFFERENT event log than recorded")
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1 if exact else 3
    print(res["status"], res.get("msg", ""))
    return 0 if res["status"] == "ok" else 2


def evidence(world, prop, tier, seed, results, viol, wall_s, explore_s, replay):
    faults, probes = collections.Counter(), collections.Counter()
    for r in results.values():
        faults.update(r["faults"])
        probes.update(r["probes"])
    nontriv = [r for r in results.values() if r["nontrivial"]]
    done = len(results)
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=done,
            distinct_nontrivial=len({r["sig"] for r in nontriv}),
            rule=world.rule,
            samples=[r["events"][:60] for i, r in sorted(results.items()) if r.get("events")][:3],
            runs_per_hour=round(done / max(explore_s, 1e-9) * 3600),
            seeds=f"({seed}, run index 0..{done - 1})",
            simulated_time_s=round(sum(r["sim_time"] for r in results.values()), 3),
            faults_injected=dict(sorted(faults.items())),
            probes=dict(sorted(probes.items())),
            distinct_event_logs=len({r["evhash"] for r in results.values()}),
            components=world.components,
            violations_of_other_properties_seen=dict(collections.Counter(o for r in results.values() for o in r["other"])),
            replay=replay,
        ),
        assumptions=getattr(world, "assumptions", []),
        wall_s=round(wall_s, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{prop}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


def selftest_dump(prop, seed, n, nw):
    world = world_for(prop)
    world.prepare(prop, "quick")
    world.stop_early = False
    results, _ = core.explore(world, prop, seed, "quick", n, nw, 3000)
    print("EVH " + json.dumps({i: (r["status"], r["evhash"]) for i, r in sorted(results.items())}))
    return 0


def selftest(props):
    """event logs of many runs, in separate interpreters with other hash seeds and worker counts"""
    bad = 0
    n = int(os.environ.get("FPSIM_RUNS", 64))
    for prop in props or sorted(PROPS):
        logs = []
        for hs, nw, seed in ((0, 8, 1), (1, 3, 1), (77, 5, 1), (0, 8, 2), (3, 2, 2)):
            env = dict(os.environ, FPSIM_HASHSEED=str(hs))
            env.pop("FPSIM_CHILD", None)
            r = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), "--dump", prop, str(seed), str(n), str(nw)],
                               env=env, capture_output=True, text=True)
            line = [l for l in r.stdout.splitlines() if l.startswith("EVH ")]
            logs.append((seed, json.loads(line[0][4:]) if line else r.stdout[-500:] + r.stderr[-500:]))
        for seed in (1, 2):
            same = [l for s, l in logs if s == seed]
            ok = all(x == same[0] for x in same) and isinstance(same[0], dict)
            bad += not ok
            diff = []
            if not ok and isinstance(same[0], dict):
                diff = [i for i in same[0] if any(isinstance(x, dict) and x.get(i) != same[0][i] for x in same)]
            print(prop, "seed", seed, "deterministic" if ok else f"DIFFERS {diff[:10]} {same if not isinstance(same[0], dict) else ''}", flush=True)
    return 1 if bad else 0


def main(argv):
    entropy.install()
    core.scratch_root()      # made here, so that it is removed here whatever happens to the workers
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    if argv and argv[0] == "--selftest":
        return selftest(argv[1:])
    if argv and argv[0] == "--dump":
        return selftest_dump(argv[1], int(argv[2]), int(argv[3]), int(argv[4]))
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1 and argv[1] in ("quick", "thorough"):
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return check(prop, tier, seed)
