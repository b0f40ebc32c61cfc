"""The disk: records file-system operations below a directory, injects faults, rebuilds crash states."""
import ctypes
import errno
import hashlib
import os
import struct
import subprocess

from .core import HarnessGap, VERIF

OPEN, WRITE, TRUNC, RENAME, UNLINK, FSYNC, CLOSE, READ, LINK, MKDIR, RMDIR, GAP, SYNCDIR, LOCK = range(1, 15)
NAMES = {OPEN: "open", WRITE: "write", TRUNC: "truncate", RENAME: "rename", UNLINK: "unlink", FSYNC: "fsync", CLOSE: "close",
         READ: "read", LINK: "link", MKDIR: "mkdir", RMDIR: "rmdir", GAP: "gap", SYNCDIR: "fsync dir", LOCK: "lock"}
ERR, SHORT, TORN, INT, FULL = 1, 2, 3, 4, 5
MODES = {ERR: "error", SHORT: "short write", TORN: "torn write", INT: "interrupt", FULL: "disk full"}


def build():
    src = os.path.join(VERIF, "fpsim", "c", "shim.c")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    d = os.path.join(VERIF, "build", "shim")
    so = os.path.join(d, f"shim_{h}.so")
    if not os.path.exists(so):
        os.makedirs(d, exist_ok=True)
        tmp = f"{so}.{os.getpid()}"
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], check=True)
        os.replace(tmp, so)
    return so


_lib = None


def lib():
    global _lib
    if _lib is None:
        l = ctypes.CDLL(None)
        try:
            l.fs_begin
        except AttributeError:
            raise HarnessGap("the shim is not preloaded")
        l.fs_begin.argtypes = [ctypes.c_char_p]
        l.fs_arm.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_uint64, ctypes.c_int, ctypes.c_int]
        for f in ("fs_nops", "fs_seen", "fs_fired", "fs_fired_op", "fs_loglen"):
            getattr(l, f).restype = ctypes.c_uint64
        l.fs_log.restype = ctypes.c_void_p
        _lib = l
    return _lib


class Op:
    __slots__ = ("kind", "ino", "off", "path", "data", "n")

    def __init__(self, kind, ino, off, path, data, n):
        self.kind, self.ino, self.off, self.path, self.data, self.n = kind, ino, off, path, data, n

    def text(self, root=""):
        p = (self.path or "").replace(root, "")
        if self.kind == RENAME:
            return f"rename {p} -> {self.data.decode().replace(root, '')}"
        if self.kind == WRITE:
            return f"write {len(self.data)} bytes at {self.off}"
        return f"{NAMES[self.kind]} {p}".strip()


class Recorder:
    """`with Recorder(root, fault) as r:` records the operations below root; r.ops afterwards."""

    def __init__(self, root, fault=None, reads=False):
        self.root, self.fault, self.reads = os.path.realpath(root), fault, reads
        self.ops = []
        self.fired = 0

    def __enter__(self):
        l = lib()
        l.fs_begin(self.root.encode())
        if self.fault:
            mode, err, at, sticky, kinds = self.fault
            l.fs_arm(mode, err, at, int(sticky), sum(1 << k for k in kinds))
        l.fs_trace(int(self.reads))
        return self

    def disarm(self):
        lib().fs_disarm()

    def __exit__(self, *a):
        l = lib()
        self.fired = l.fs_fired()
        self.fired_kind = l.fs_fired_kind()
        self.nops, self.seen = l.fs_nops(), l.fs_seen()
        l.fs_end()
        n = l.fs_loglen()
        raw = ctypes.string_at(l.fs_log(), n) if n else b""
        i = 0
        while i < n:
            kind, ino, off, pl, dl, k = struct.unpack_from("<6Q", raw, i)
            i += 48
            path = raw[i:i + pl].decode() if pl else None
            i += pl
            data = None
            if kind in (WRITE, RENAME, LINK):
                data = raw[i:i + dl]
                i += dl
            if kind == GAP:
                raise HarnessGap(f"file-system operation not modelled: {path}")
            self.ops.append(Op(kind, ino, off, path, data, k))
        return False


class File:
    """contents of an inode: what a process sees, what certainly is on the platter, and writes in between"""
    __slots__ = ("data", "durable", "pending")

    def __init__(self, data=b"", durable=True):
        self.data = bytearray(data)
        self.durable = bytearray(data) if durable else bytearray()
        self.pending = []

    def copy(self):
        f = File()
        f.data, f.durable, f.pending = bytearray(self.data), bytearray(self.durable), list(self.pending)
        return f


def _write(buf, off, data):
    if len(buf) < off:
        buf.extend(b"\0" * (off - len(buf)))
    buf[off:off + len(data)] = data


class Disk:
    """Model of the directory tree below root, driven by recorded operations."""

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.files = {}     # path -> File
        self.dirs = set()
        self.inodes = {}    # ino -> File
        self.names_durable = {}   # what the directory holds if nothing since the last sync survives
        for d, sub, names in os.walk(self.root):
            self.dirs.add(d)
            for n in names:
                p = os.path.join(d, n)
                with open(p, "rb") as f:
                    self.files[p] = File(f.read())
                self.inodes[os.stat(p).st_ino] = self.files[p]

    def apply(self, op):
        k = op.kind
        if k == OPEN:
            if op.off & 1:
                f = File(durable=False)
                self.files[op.path] = f
                self.inodes[op.ino] = f
            else:
                f = self.files.get(op.path)
                if f is None:
                    raise HarnessGap(f"open of a file the model does not have: {op.path}")
                self.inodes[op.ino] = f
                if op.off & 2:
                    f.data = bytearray()
                    f.pending.append(("t", 0))
        elif k == WRITE:
            f = self.inodes[op.ino]
            _write(f.data, op.off, op.data)
            f.pending.append(("w", op.off, op.data))
        elif k == TRUNC:
            f = self.inodes[op.ino]
            if len(f.data) > op.off:
                del f.data[op.off:]
            else:
                f.data.extend(b"\0" * (op.off - len(f.data)))
            f.pending.append(("t", op.off))
        elif k == FSYNC:
            f = self.inodes[op.ino]
            f.durable = bytearray(f.data)
            f.pending = []
        elif k == RENAME:
            a, b = op.path, op.data.decode()
            if a in self.dirs:
                raise HarnessGap("directory rename")
            self.files[b] = self.files.pop(a)
        elif k == LINK:
            self.files[op.data.decode()] = self.files[op.path]
        elif k == UNLINK:
            self.files.pop(op.path, None)
        elif k == MKDIR:
            self.dirs.add(op.path)
        elif k == RMDIR:
            self.dirs.discard(op.path)

    def contents(self):
        return {p: bytes(f.data) for p, f in self.files.items()}

    def after_power_loss(self, ch):
        """Contents if power is lost now: of the data never synced, any part may be missing.

        The directory itself is as journalled (operations up to now survive: the least favourable case for
        the data; losing a suffix of them is the same as an earlier crash point)."""
        out = {}
        for p, f in self.files.items():
            if not f.pending:
                out[p] = bytes(f.data)
                continue
            how = ch.choose(3)
            if how == 0:
                out[p] = bytes(f.durable)          # nothing since the last sync
                continue
            buf = bytearray(f.durable)
            for i, w in enumerate(f.pending):
                if how == 1 and ch.choose(2) == 0:  # some of the writes
                    continue
                if how == 2 and i >= len(f.pending) - 1 - ch.choose(2):   # all but the last
                    continue
                if w[0] == "w":
                    _write(buf, w[1], w[2])
                elif len(buf) > w[1]:
                    del buf[w[1]:]
                else:
                    buf.extend(b"\0" * (w[1] - len(buf)))
            out[p] = bytes(buf)
        return out

    def verify(self):
        """the model agrees with the real directory"""
        real = {}
        for d, sub, names in os.walk(self.root):
            for n in names:
                p = os.path.join(d, n)
                with open(p, "rb") as f:
                    real[p] = f.read()
        mine = self.contents()
        if real != mine:
            bad = sorted(p for p in set(real) | set(mine) if real.get(p) != mine.get(p))
            raise HarnessGap(f"the disk model disagrees with the disk for {bad[:3]}")


def materialise(contents, dirs, root):
    """put crash contents where the root was"""
    import shutil
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    for d in sorted(dirs):
        os.makedirs(d, exist_ok=True)
    for p, b in contents.items():
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(b)


def errors_for(kind):
    return {OPEN: [errno.EACCES, errno.EMFILE, errno.EIO, errno.ENOSPC], WRITE: [errno.EIO, errno.ENOSPC, errno.EDQUOT],
            TRUNC: [errno.EIO, errno.ENOSPC], RENAME: [errno.EIO, errno.EACCES, errno.ENOSPC], UNLINK: [errno.EIO, errno.EACCES],
            FSYNC: [errno.EIO, errno.ENOSPC], CLOSE: [errno.EIO, errno.EDQUOT], READ: [errno.EIO], LINK: [errno.EIO],
            MKDIR: [errno.EACCES, errno.ENOSPC], LOCK: [errno.EWOULDBLOCK], RMDIR: [errno.EIO]}[kind]
