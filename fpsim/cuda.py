"""A CUDA driver for simulation: pycuda's interface, device memory that tracks every use, failing calls.

Device addresses are host addresses, so that the CPU build of the kernel can run on device structures.
Freed memory is poisoned and never reused, so that a stale pointer is recognised, not followed.
As in pycuda, an allocation is released when its last reference goes, and releasing one twice is an error.
"""
import ctypes
import sys
import types

import numpy as np

ZONE = 256


class Error(Exception):
    pass


class MemoryError_(Error, MemoryError):
    pass


class LogicError(Error):
    pass


class LaunchError(Error):
    pass


class RuntimeError_(Error, RuntimeError):
    pass


class Driver:
    def __init__(self):
        self.reset()

    def reset(self):
        self.live = {}          # address -> (size, serial)
        self.dead = {}          # address -> (size, serial)
        self.keep = []          # buffers, so that no address is ever reused
        self.serial = 0
        self.problems = []      # what the code did wrong
        self.calls = 0
        self.counts = {}
        self.plan = None        # (kind, n-th from now, sticky)
        self.fired = 0
        self.peak = 0
        self.expect = None      # checks a launch: expect(address of the structure)
        self.kernel = None
        self.device = None      # runs the CUDA source itself: device(module, name, addresses, grid, block, shared)

    # faults
    def arm(self, kind, at, sticky):
        self.plan = [kind, at, sticky]
        self.fired = 0

    def disarm(self):
        self.plan = None

    def hit(self, kind):
        self.counts[kind] = self.counts.get(kind, 0) + 1
        if self.plan is None or self.plan[0] != kind:
            return False
        if self.plan[1] > 0:
            self.plan[1] -= 1
            return False
        if self.fired and not self.plan[2]:
            return False
        self.fired += 1
        return True

    def problem(self, cls, what):
        self.problems.append((cls, what))

    # memory
    def alloc(self, n):
        if self.hit("alloc"):
            raise MemoryError_("cuMemAlloc failed: out of memory")
        if n <= 0:
            raise LogicError("cuMemAlloc failed: invalid argument")
        buf = ctypes.create_string_buffer(b"\xa5" * (n + 2 * ZONE + 256), n + 2 * ZONE + 256)
        a = ctypes.addressof(buf) + ZONE
        a += -a % 256
        self.keep.append(buf)
        self.serial += 1
        self.live[a] = (n, self.serial)
        self.peak = max(self.peak, len(self.live))
        return a

    def release(self, a):
        n, serial = self.live.pop(a)
        self.check_zones(a, n)
        ctypes.memset(a, 0xA5, n)
        self.dead[a] = (n, serial)

    def check_zones(self, a, n):
        if ctypes.string_at(a - ZONE // 2, ZONE // 2) != b"\xa5" * (ZONE // 2) or ctypes.string_at(a + n, ZONE // 2) != b"\xa5" * (ZONE // 2):
            self.problem("overflow", "device memory outside of a buffer was written")

    def owner(self, a):
        """the live buffer starting at a; anything else is a mistake"""
        a = int(a)
        if a in self.live:
            return self.live[a]
        if a in self.dead:
            self.problem("use-after-free", f"buffer {self.dead[a][1]} is used after it was freed")
        else:
            self.problem("wild", "an address that is no device buffer is used")
        raise LogicError("invalid device pointer")


D = Driver()


class DeviceAllocation:
    def __init__(self, a):
        self._a, self._valid, self._driver = a, True, D.live

    def free(self):
        if not self._valid:
            D.problem("double-free", "a buffer is freed twice")
            raise LogicError("device_allocation::free failed: invalid resource handle")
        self._valid = False
        D.release(self._a)

    def __int__(self):
        return self._a

    __index__ = __int__

    def __hash__(self):
        return hash(self._a)

    def __eq__(self, other):
        return int(self) == int(other)

    def __del__(self):
        if self._valid and self._driver is D.live:
            self._valid = False
            D.release(self._a)


def mem_alloc(n):
    return DeviceAllocation(D.alloc(int(n)))


def memcpy_htod(dest, src):
    b = memoryview(src).tobytes()
    n, _ = D.owner(dest)
    if len(b) > n:
        D.problem("overflow", f"{len(b)} bytes are copied into a buffer of {n}")
        raise LogicError("cuMemcpyHtoD failed: invalid argument")
    if D.hit("copy to device"):
        raise LogicError("cuMemcpyHtoD failed")
    ctypes.memmove(int(dest), b, len(b))


def memcpy_dtoh(dest, src):
    n, _ = D.owner(src)
    if dest.nbytes > n:
        D.problem("overflow", f"{dest.nbytes} bytes are read from a buffer of {n}")
        raise LogicError("cuMemcpyDtoH failed: invalid argument")
    if D.hit("copy from device"):
        raise LogicError("cuMemcpyDtoH failed")
    if not dest.flags.c_contiguous:
        raise LogicError("not contiguous")
    ctypes.memmove(dest.__array_interface__["data"][0], int(src), dest.nbytes)


def memcpy_dtod(dest, src, size):
    n, _ = D.owner(src)
    m, _ = D.owner(dest)
    if size > min(n, m):
        D.problem("overflow", "a device copy exceeds a buffer")
        raise LogicError("cuMemcpyDtoD failed: invalid argument")
    if D.hit("copy to device"):
        raise LogicError("cuMemcpyDtoD failed")
    ctypes.memmove(int(dest), int(src), size)


def memset_d8(dest, value, count):
    n, _ = D.owner(dest)
    if count > n:
        D.problem("overflow", "memset exceeds a buffer")
    ctypes.memset(int(dest), value, min(count, n))


def to_device(bf):
    b = memoryview(np.ascontiguousarray(bf) if isinstance(bf, np.ndarray) else bf).tobytes()
    r = mem_alloc(len(b))
    memcpy_htod(r, b)
    return r


def from_device(devptr, shape, dtype, order="C"):
    out = np.empty(shape, dtype, order)
    memcpy_dtoh(out, devptr)
    return out


def from_device_like(devptr, other):
    return from_device(devptr, other.shape, other.dtype)


class In:
    def __init__(self, array):
        self.array = array


class Out(In):
    pass


class InOut(In):
    pass


class Function:
    """the kernel: EvaluateProposal(patch, proposal, chi2, derivatives)"""

    def __init__(self, module, name):
        self.module, self.name = module, name

    def __call__(self, patch, proposal, chi, derivs, grid=None, block=None, shared=0, stream=None, **kw):
        args, temps = [], []
        for a in (patch, proposal, chi, derivs):
            if isinstance(a, In):
                t = mem_alloc(a.array.nbytes)
                temps.append(t)
                if not type(a) is Out:
                    memcpy_htod(t, np.ascontiguousarray(a.array))
                args.append(int(t))
            else:
                args.append(int(a))
        for a in args:
            D.owner(a)
        if D.expect is not None:
            D.expect(args[0])
        if D.problems:
            raise LaunchError("an illegal memory access was encountered")
        if D.hit("launch"):
            raise LaunchError("cuLaunchKernel failed: too many resources requested for launch")
        if D.device is not None:
            D.device(self.module, self.name, args, grid, block, shared)
        for i in range(grid[0] if D.device is None else 0):
            ret = D.kernel(i, args[0], args[1])
            n = chi.array.itemsize
            v = np.array([ret.chi2]).astype(chi.array.dtype).tobytes()
            ctypes.memmove(args[2] + i * n, v, n)
            d = np.asarray(ret.dchi2_dp).astype(np.float32).reshape(-1)
            row = np.zeros(derivs.array.itemsize // 4, np.float32)
            row[:min(len(row), d.size)] = d[:len(row)]
            ctypes.memmove(args[3] + i * row.nbytes, row.tobytes(), row.nbytes)
        D.counts["launches"] = D.counts.get("launches", 0) + 1
        for a, t in ((chi, args[2]), (derivs, args[3])):
            if type(a) is not In:
                memcpy_dtoh(a.array, t)
        for a, (n, _) in list(D.live.items()):
            D.check_zones(a, n)

    prepared_call = None


class SourceModule:
    def __init__(self, source, **kw):
        if not source:
            raise Error("empty source")
        self.source, self.include_dirs = source, tuple(kw.get("include_dirs") or ())

    def get_function(self, name):
        return Function(self, name)


def install():
    pkg = types.ModuleType("pycuda")
    pkg.__path__ = []
    drv = types.ModuleType("pycuda.driver")
    for n in ("DeviceAllocation", "mem_alloc", "memcpy_htod", "memcpy_dtoh", "memcpy_dtod", "memset_d8", "to_device", "from_device",
              "from_device_like", "In", "Out", "InOut", "Error", "LogicError", "LaunchError"):
        setattr(drv, n, globals()[n])
    drv.MemoryError, drv.RuntimeError = MemoryError_, RuntimeError_
    comp = types.ModuleType("pycuda.compiler")
    comp.SourceModule = SourceModule
    auto = types.ModuleType("pycuda.autoinit")
    pkg.driver, pkg.compiler, pkg.autoinit = drv, comp, auto
    sys.modules.update({"pycuda": pkg, "pycuda.driver": drv, "pycuda.compiler": comp, "pycuda.autoinit": auto})
