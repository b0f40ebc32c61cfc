"""Importing the code under test from /repo's working tree (never from stale bytecode or binaries)."""
import glob
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import subprocess
import sys
import sysconfig
import types

from .core import REPO, VERIF


class _NoCacheLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return compile(self.get_data(path), path, "exec", dont_inherit=True)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "forcepho" and not name.startswith("forcepho."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, [REPO] if path is None else path)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = _NoCacheLoader(spec.loader.name, spec.loader.path)
        return spec


_installed = False


def install():
    global _installed
    if _installed:
        return
    sys.dont_write_bytecode = True
    sys.path[:] = [REPO] + [p for p in sys.path if p != REPO]
    sys.meta_path.insert(0, _Finder())
    if not os.path.exists(os.path.join(REPO, "forcepho", "_version.py")):
        m = types.ModuleType("forcepho._version")
        m.__version__ = "0"
        sys.modules["forcepho._version"] = m
    import warnings
    warnings.filterwarnings("ignore")
    _installed = True


def build_kernel():
    """Compile the CPU kernel of the working tree, outside /repo; returns the path of the module."""
    src = os.path.join(REPO, "forcepho", "src")
    files = sorted(f for f in glob.glob(os.path.join(src, "*")) if f.endswith((".cc", ".hh", ".h", ".cu")))
    h = hashlib.sha256()
    for f in files:
        h.update(os.path.basename(f).encode())
        h.update(open(f, "rb").read())
    out = os.path.join(VERIF, "build", "kernel", h.hexdigest()[:24])
    so = os.path.join(out, "compute_gaussians_kernel.so")
    if not os.path.exists(so):
        import pybind11
        os.makedirs(out, exist_ok=True)
        tmp = f"{so}.{os.getpid()}"
        cmd = ["g++", "-O3", "-fPIC", "-shared", "-std=c++11", "-fvisibility=hidden", "-w",
               f"-I{src}", f"-I{pybind11.get_include()}", f"-I{sysconfig.get_paths()['include']}",
               os.path.join(src, "compute_gaussians_kernel.cc"), "-o", tmp]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise RuntimeError("the kernel does not compile: " + r.stderr[-2000:])
        os.replace(tmp, so)
    return so


def use_kernel():
    install()
    name = "forcepho.src.compute_gaussians_kernel"
    if name in sys.modules:
        return sys.modules[name]
    so = build_kernel()
    import forcepho  # noqa
    if "forcepho.src" not in sys.modules:
        pkg = types.ModuleType("forcepho.src")
        pkg.__path__ = [os.path.join(REPO, "forcepho", "src")]
        sys.modules["forcepho.src"] = pkg
        forcepho.src = pkg
    loader = importlib.machinery.ExtensionFileLoader(name, so)
    spec = importlib.util.spec_from_file_location(name, so, loader=loader)
    mod = importlib.util.module_from_spec(spec)
    loader.exec_module(mod)
    sys.modules[name] = mod
    sys.modules["forcepho.src"].compute_gaussians_kernel = mod
    return mod
