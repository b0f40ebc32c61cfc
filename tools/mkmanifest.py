import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from fpsim import driver
NOTES = {
 "scene": "Seeded histories of simulated workers on the real scene database, compared after every operation with a small reference model. Sampling, not proof; trusts the model (about 60 lines) and the stated assumptions on inputs.",
 "dispatch": "Seeded schedules of the real parent and children on a simulated MPI; every delivery, completion and failure is the simulator's choice. Sampling, not proof; trusts the MPI model, checked against Open MPI behaviour by hand.",
 "disk": "Crash states and I/O errors at system-call level under the real writers and readers (astropy, h5py/HDF5). Sampling of histories, all or seeded crash points per history; trusts the shim's recording and the file-system model.",
 "worker": "Seeded task sequences with injected faults on one reused worker, compared bit for bit with a fresh worker. Sampling, not proof.",
 "gpu": "Seeded operation sequences with failing driver calls on a simulated CUDA driver that tracks every buffer. Sampling, not proof; trusts the driver model, there is no GPU here.",
 "kernel": "Seeded interleavings of the CUDA kernel's threads (one coroutine each, preempted between memory accesses) on a simulated device, compared with the CPU kernel. Sampling, not proof; sequentially consistent memory only, there is no GPU here.",
 "sampler": "Seeded task placements, clocks and interrupts around the real samplers, compared with an undisturbed run. Sampling, not proof.",
 "images": "Seeded completion orders of patches and I/O faults; the assembled images are compared with images painted in order of completion. Sampling, not proof.",
 "reads": "Seeded reading requests with one open or read failing, short or interrupted, or one file cut short; answers are compared with the fault-free reading in a pristine process. Sampling, not proof.",
 "post": "Seeded completion orders and numberings of patches; the real post-processing is compared with the history. Sampling, not proof.",
}
NA = {
 "C31": "Pure function of the input: no schedule, clock, fault or history to simulate; numerical comparison of inputs would be a different technique.",
 "C32": "Pure function of the input; agreement of two implementations is input-space testing, not simulation.",
 "C33": "Pure function of the input (algebraic identity).",
 "C34": "Pure function of the input.",
 "C35": "Pure function of the input (the round trip through a store under faults is part of C13).",
 "C36": "Pure function of the input (linear algebra).",
 "C37": "Pure function of the input (argument merging).",
 "C38": "Pure function of the input.",
}
checks = []
for prop, (mod, cls) in sorted(driver.PROPS.items()):
    checks.append(dict(property=prop, quick_cmd=f"python3 check.py {prop} quick", thorough_cmd=f"python3 check.py {prop} thorough",
        evidence_file=f"evidence/{prop}.json",
        technique="deterministic simulation with fault injection (seeded search over schedules and faults, recorded choices, minimised replay)",
        level="exploration", level_note=NOTES[mod]))
have = {c["property"] for c in checks}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [dict(property=i, reason=NA.get(i, "not built yet")) for i in ids if i not in have]
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: all seams already exist (mpi4py, pycuda, numpy.random, time, libc).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
