"""Simulated disk: real files under one scratch root, every operation a seam.

All Python-level file operations below `root` (open/read/write/replace/unlink/
rmdir/mkdir/listing) pass `Disk.op`, which is a preemption point for simulated
tasks and a fault site: I/O error, disk full, torn write, process crash before,
during or after the operation.  Paths outside `root` are left alone.
"""

import builtins
import errno
import io
import os
import re
import shutil
import threading

from .core import Sim, SimCrash, WorkerDied

_real = dict(
    open=io.open, replace=os.replace, rename=os.rename, link=os.link, unlink=os.unlink, remove=os.remove,
    rmdir=os.rmdir, mkdir=os.mkdir, scandir=os.scandir, listdir=os.listdir,
)


class _SimFile(io.FileIO):
    def __init__(self, disk, path, mode):
        self._disk = disk
        self._simpath = path
        super().__init__(path, mode)

    def write(self, b):
        b = bytes(b)
        f = self._disk.op("write", self._simpath, len(b))
        if f is not None:
            kind = f["kind"]
            if kind in ("torn_crash", "torn_error"):
                n = f.get("arg", 0) % (len(b) + 1)
                super().write(b[:n])
                self._disk.sim.stats["torn_bytes"] += len(b) - n
                if kind == "torn_crash":
                    self._disk.crash()
                raise OSError(errno.ENOSPC, "simulated: no space left on device", self._simpath)
        n = super().write(b)
        self._disk.after("write", self._simpath)
        return n

    def readinto(self, buf):
        self._disk.op("read", self._simpath)
        return super().readinto(buf)

    def readall(self):
        self._disk.op("read", self._simpath)
        return super().readall()


class _SortedScandir:
    def __init__(self, it):
        with it:
            self._l = sorted(it, key=lambda e: e.name)
        self._i = iter(self._l)

    def __iter__(self):
        return self._i

    def __next__(self):
        return next(self._i)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


class Disk:
    """Operation kinds: open_w, open_r, write, read, replace, unlink, rmdir, mkdir."""

    # which faults can hit which operation
    MUT = {"open_w", "write", "replace", "unlink", "rmdir", "mkdir"}

    def __init__(self, sim: Sim, root: str, cluster=None):
        self.sim = sim
        self.root = os.path.realpath(root)
        self.cluster = cluster
        self.full = 0
        self._pending_after = threading.local()

    def inside(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not isinstance(p, str):
            return None
        p = os.path.abspath(p)
        if p == self.root or p.startswith(self.root + os.sep):
            return p
        return None

    def rel(self, p):
        return os.path.relpath(p, self.root)

    def store(self, path):
        """The store or file a path belongs to, without its random part."""
        parts = self.rel(path).split(os.sep)
        k = next((i for i, x in enumerate(parts) if x.endswith(".zarr")), min(1, len(parts) - 1))
        return re.sub(r"[0-9a-f]{8,}", "*", "/".join(parts[: k + 1]))

    def crash(self):
        self.sim.crashed = True
        self.sim.log("crash")
        raise SimCrash()

    def op(self, kind, path, size=0):
        sim = self.sim
        if sim.crashed:
            raise SimCrash()
        if self.cluster is not None:
            self.cluster.io_point()
        sim.stats["disk_ops"] += 1
        sim.log("io", kind, self.rel(path), size)
        mut = kind in self.MUT
        if mut and self.full > 0 and kind in ("open_w", "write", "mkdir"):
            self.full -= 1
            raise OSError(errno.ENOSPC, "simulated: no space left on device", path)
        allowed = ["crash_before", "crash_after", "eio", "enospc", "torn_crash", "torn_error"] if mut else ["eio_read", "crash_before"]
        if sim.ops is not None:
            site = "disk_w" if mut else "disk_r"
            sim.ops.append((site, sim.counters[site], self.store(path)))
        f = sim.fault("disk_w" if mut else "disk_r", allowed)
        if f is None:
            return None
        k = f["kind"]
        if k == "crash_before":
            self.crash()
        if k == "eio":
            raise OSError(errno.EIO, "simulated: input/output error", path)
        if k == "eio_read":
            raise OSError(errno.EIO, "simulated: input/output error", path)
        if k == "enospc":
            self.full = f.get("arg", 0) % 12
            raise OSError(errno.ENOSPC, "simulated: no space left on device", path)
        if k == "crash_after":
            self._pending_after.v = True
            return None
        if k in ("torn_crash", "torn_error"):
            if kind == "write":
                return f
            if k == "torn_crash":
                self.crash()
            raise OSError(errno.EIO, "simulated: input/output error", path)
        return None

    def after(self, kind, path):
        if getattr(self._pending_after, "v", False):
            self._pending_after.v = False
            self.crash()

    # -------------------------------------------------------------- patched
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        p = None if isinstance(file, int) else self.inside(file)
        if p is None or opener is not None or not closefd:
            return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        writing = any(c in mode for c in "wax+")
        self.op("open_w" if writing else "open_r", p)
        raw = _SimFile(self, p, mode.replace("t", "").replace("b", "") if "b" in mode or "t" in mode else mode)
        self.after("open", p)
        if buffering == 0:
            return raw
        if "+" in mode:
            buf = io.BufferedRandom(raw)
        elif any(c in mode for c in "wax"):
            buf = io.BufferedWriter(raw, 1 << 16)
        else:
            buf = io.BufferedReader(raw, 1 << 16)
        if "b" in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        text.mode = mode
        return text

    def two(self, name):
        real = _real[name]

        def f(src, dst, *a, **k):
            p = self.inside(dst) or self.inside(src)
            if p is None:
                return real(src, dst, *a, **k)
            self.op("replace", p)
            r = real(src, dst, *a, **k)
            self.after("replace", p)
            return r

        return f

    def one(self, name, kind):
        real = _real[name]

        def f(path, *a, **k):
            p = None if k.get("dir_fd") is not None else self.inside(path)
            if p is None:
                return real(path, *a, **k)
            self.op(kind, p)
            r = real(path, *a, **k)
            self.after(kind, p)
            return r

        return f

    def scandir(self, path="."):
        p = None if isinstance(path, int) else self.inside(path)
        it = _real["scandir"](path)
        return it if p is None else _SortedScandir(it)

    def listdir(self, path="."):
        out = _real["listdir"](path)
        return sorted(out) if not isinstance(path, int) and self.inside(path) else out

    def install(self):
        io.open = builtins.open = self.open
        os.replace, os.rename, os.link = self.two("replace"), self.two("rename"), self.two("link")
        os.unlink, os.remove = self.one("unlink", "unlink"), self.one("remove", "unlink")
        os.rmdir, os.mkdir = self.one("rmdir", "rmdir"), self.one("mkdir", "mkdir")
        os.scandir, os.listdir = self.scandir, self.listdir
        self._fd = shutil._use_fd_functions
        shutil._use_fd_functions = False

    def uninstall(self):
        io.open = builtins.open = _real["open"]
        for n in ("replace", "rename", "link", "unlink", "remove", "rmdir", "mkdir", "scandir", "listdir"):
            setattr(os, n, _real[n])
        shutil._use_fd_functions = self._fd
