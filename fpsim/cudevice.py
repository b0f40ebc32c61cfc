"""Compiles CUDA kernels for the simulated device (c/cusim.cc) and runs them under a seeded thread schedule."""
import ctypes
import glob
import hashlib
import os
import re
import subprocess

from .core import VERIF

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "c")


class Result(ctypes.Structure):
    _fields_ = [(n, ctypes.c_uint64) for n in ("switches", "accesses", "preemptions", "hash")] + [("cls", ctypes.c_char * 32), ("msg", ctypes.c_char * 256)]


POLICIES = ["random order", "random steps", "ascending", "descending", "one thread last", "one warp last", "one thread first", "warps in random order"]


def translate(source):
    """the one construct that C++ cannot express with macros: dynamically sized shared memory"""
    return re.sub(r"extern\s+__shared__\s+([^;]*?)(\w+)\s*\[\s*\]\s*;", r"\1 *\2 = (\1 *) cusim_dyn_shared();", source)


def compile_module(source, include_dirs, defines=()):
    h = hashlib.sha256(source.encode())
    for d in include_dirs:
        for f in sorted(glob.glob(os.path.join(d, "*"))):
            if f.endswith((".cc", ".hh", ".h", ".cu", ".cuh")):
                h.update(os.path.basename(f).encode())
                h.update(open(f, "rb").read())
    for f in ("cusim.h", "cusim.cc"):
        h.update(open(os.path.join(HERE, f), "rb").read())
    h.update(repr(sorted(defines)).encode())
    h.update(open(__file__, "rb").read())
    out = os.path.join(VERIF, "build", "cuda", h.hexdigest()[:24])
    so = os.path.join(out, "kernel.so")
    if os.path.exists(so):
        return so
    os.makedirs(out, exist_ok=True)
    tag = str(os.getpid())
    cc, ko, ro, tmp = (os.path.join(out, f"{n}.{tag}{e}") for n, e in (("k", ".cc"), ("k", ".o"), ("r", ".o"), ("kernel", ".so")))
    with open(cc, "w") as f:
        f.write('#include "cusim.h"\n#line 1 "kernel.cu"\n' + translate(source))
    inc = [f"-I{HERE}"] + [f"-I{d}" for d in include_dirs]
    common = ["g++", "-fPIC", "-std=gnu++17", "-w", "-U_FORTIFY_SOURCE", "-fno-stack-protector"]
    for cmd in (common + ["-O1", "-fsanitize=thread", "-ffp-contract=off"] + [f"-D{d}" for d in defines] + inc + ["-c", cc, "-o", ko],
                common + ["-O2", f"-I{HERE}", "-c", os.path.join(HERE, "cusim.cc"), "-o", ro],
                ["g++", "-shared", "-Wl,-Bsymbolic", ko, ro, "-o", tmp]):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise RuntimeError("the CUDA kernel does not compile: " + r.stderr[-2000:])
    os.replace(tmp, so)
    for f in (cc, ko, ro):
        os.unlink(f)
    return so


class Module:
    def __init__(self, source, include_dirs=(), defines=()):
        self.lib = ctypes.CDLL(compile_module(source, list(include_dirs), defines))
        self.lib.cusim_launch.argtypes = [ctypes.c_void_p, ctypes.POINTER(ctypes.c_void_p), ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_int,
                                          ctypes.c_uint64, ctypes.c_int, ctypes.c_double, ctypes.c_int, ctypes.c_uint64, ctypes.POINTER(Result)]

    def launch(self, name, args, grid, block, shared, seed=1, policy=0, preempt=0.0, poison=0xFF, limit=400_000_000):
        fn = ctypes.cast(getattr(self.lib, name), ctypes.c_void_p)
        a = (ctypes.c_void_p * len(args))(*args)
        res = Result()
        rc = self.lib.cusim_launch(fn, a, len(args), grid, block, shared, seed, policy, preempt, poison, limit, ctypes.byref(res))
        if rc < 0:
            raise MemoryError("no memory for the simulated device")
        return res
