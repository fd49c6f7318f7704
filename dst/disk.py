"""A scratch disk whose failures the simulator decides.

Everything below one scratch directory goes through this seam: opening, writing,
syncing, renaming, removing, listing and reading.  Writes reach the disk
unbuffered, so a kill leaves exactly the bytes that were written so far; a
power loss in addition takes the bytes that were never synced (a seeded prefix
survives).  Nothing outside the scratch directory is touched.
"""
import builtins
import errno
import io
import os
import random
import shutil
import tempfile

from .core import InjectedFault, Killed

_REAL = {}


class Disk:
    def __init__(self, ctx):
        self.ctx = ctx
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="noa-disk-"))
        self.armed = None   # the fault of the current operation
        self.dead = False
        self.count = 0      # disk operations since arming
        self.bytes = 0      # bytes written since arming
        self.synced = {}    # path -> durable length (only for files written meanwhile)
        self.fds = {}
        self.list_seed = None

    # ---- installation ----
    def __enter__(self):
        import _io
        import numpy.lib._datasource as ds

        ds._file_openers._load()
        self.saved = [(m, n, getattr(m, n)) for m, n in
                      [(builtins, "open"), (io, "open"), (_io, "open"), (os, "open"), (os, "replace"), (os, "rename"), (os, "remove"), (os, "unlink"),
                       (os, "fsync"), (os, "listdir"), (os, "scandir"), (os, "makedirs"), (os, "mkdir"), (os, "link"), (os, "write"), (os, "truncate")] if hasattr(m, n)]
        self.real = {(m.__name__, n): f for m, n, f in self.saved}
        ro = self.real["io", "open"]
        self.ds, self.ds_open = ds, ds._file_openers._file_openers[None]
        fake = self._open(ro)
        for m in (builtins, io, _io):
            m.open = fake
        ds._file_openers._file_openers[None] = fake
        r = self.real
        os.open = self._os_open(r["os", "open"])
        os.write = self._os_write(r["os", "write"])
        os.fsync = self._fsync(r["os", "fsync"])
        os.listdir = self._listdir(r["os", "listdir"])
        os.scandir = self._scandir(r["os", "scandir"])
        for n in ("replace", "rename", "link"):
            setattr(os, n, self._move(r["os", n], n))
        for n in ("remove", "unlink", "makedirs", "mkdir", "truncate"):
            setattr(os, n, self._plain(r["os", n], n))
        return self

    def __exit__(self, *exc):
        for m, n, f in self.saved:
            setattr(m, n, f)
        self.ds._file_openers._file_openers[None] = self.ds_open
        shutil.rmtree(self.root, ignore_errors=True)
        return False

    # ---- faults ----
    def mine(self, path):
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p if p.startswith(self.root + os.sep) else None

    def arm(self, fault):
        self.armed, self.count, self.bytes, self.dead = fault, 0, 0, False
        self.synced = {}  # what was written before has long reached the disk

    def disarm(self):
        """Ends the fault; returns whether it struck."""
        f, self.armed = self.armed, None
        struck = self.dead or bool(f and f.get("struck"))
        self.dead = False
        return struck

    def step(self, name):
        """One disk operation (other than writing bytes) is about to happen."""
        if self.dead:
            raise Killed("the process is gone")
        f = self.armed
        if not f or f["at"] != "op":
            return
        if f.get("struck") and f["kind"] != "full":
            return
        self.count += 1
        if self.count > f["n"]:
            if f["kind"] in ("kill", "power"):
                self.kill(f)
            if name in ("open-w", "fsync", "move", "mkdir") or f["kind"] == "eio":
                f["struck"] = True
                raise OSError(errno.ENOSPC if f["kind"] == "full" else errno.EIO, f"simulated disk fault during {name}")

    def kill(self, f):
        self.dead = True
        f["struck"] = True
        if f["kind"] == "power":
            r = random.Random(f["seed"])
            for p, n in sorted(self.synced.items()):
                if os.path.exists(p) and os.path.getsize(p) > n:
                    keep = n + int((os.path.getsize(p) - n) * r.choice([0.0, r.random(), 1.0]))
                    with self.real["io", "open"](p, "r+b") as h:
                        h.truncate(keep)
        raise Killed("simulated " + f["kind"])

    def room(self, n):
        """How many of n bytes may be written now; None where there is no limit."""
        if self.dead:
            raise Killed("the process is gone")
        f = self.armed
        if not f or f["at"] != "byte" or (f.get("struck") and f["kind"] != "full"):
            return None
        return max(0, min(n, f["n"] - self.bytes))

    def write(self, path, fd, data):
        """Writes all of data or fails on the way."""
        ok = self.room(len(data))
        part = data if ok is None else data[:ok]
        self.synced.setdefault(path, 0)
        done = 0
        while done < len(part):
            done += self.real["os", "write"](fd, part[done:])
        self.bytes += len(part)
        if len(part) < len(data):
            f = self.armed
            if f["kind"] in ("kill", "power"):
                self.kill(f)
            f["struck"] = True
            raise OSError(errno.ENOSPC if f["kind"] == "full" else errno.EIO, "simulated disk fault while writing")

    # ---- replacements ----
    def _open(self, real):
        def fake(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            path = self.fds.get(file) if isinstance(file, int) else self.mine(file)
            if path is None:
                return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
            if not any(c in mode for c in "wax+"):
                self.step("open-r")
                return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
            if not isinstance(file, int):
                self.step("open-w")
            raw = real(file, "".join(c for c in mode if c not in "tb") + "b", 0, closefd=closefd, opener=opener)
            self.synced.setdefault(path, os.path.getsize(path) if "w" not in mode else 0)
            if "w" in mode and not isinstance(file, int):
                self.synced[path] = 0
            out = RawWriter(self, path, raw)
            if "b" in mode:
                return out if "r" not in mode and "+" not in mode else raw
            return TextWriter(out, encoding=encoding, errors=errors, newline=newline)
        return fake

    def _os_open(self, real):
        def fake(path, flags, *a, **k):
            p = self.mine(path)
            writing = p and flags & (os.O_WRONLY | os.O_RDWR)
            if writing:
                self.step("open-w")
            fd = real(path, flags, *a, **k)
            self.fds.pop(fd, None)
            if writing:
                self.fds[fd] = p
                self.synced.setdefault(p, os.path.getsize(p))
            return fd
        return fake

    def _os_write(self, real):
        def fake(fd, data):
            p = self.fds.get(fd)
            if p is None:
                return real(fd, data)
            self.write(p, fd, bytes(data))
            return len(data)
        return fake

    def _fsync(self, real):
        def fake(fd):
            n = fd if isinstance(fd, int) else fd.fileno()
            try:
                p = os.readlink(f"/proc/self/fd/{n}")
            except OSError:
                p = None
            if p is not None and self.mine(p):
                self.step("fsync")
                if not os.path.isdir(p):
                    self.synced[p] = os.path.getsize(p)
                return None
            return real(fd)
        return fake

    def _move(self, real, name):
        def fake(src, dst, *a, **k):
            s, d = self.mine(src), self.mine(dst)
            if s or d:
                self.step("move")
            out = real(src, dst, *a, **k)
            if s and d:
                if s in self.synced:
                    self.synced[d] = self.synced[s] if name == "link" else self.synced.pop(s)
                else:
                    self.synced.pop(d, None)
            return out
        return fake

    def _plain(self, real, name):
        def fake(path, *a, **k):
            p = self.mine(path)
            if p:
                self.step("mkdir" if "mk" in name else name)
                if name in ("remove", "unlink"):
                    self.synced.pop(p, None)
            return real(path, *a, **k)
        return fake

    def _listdir(self, real):
        def fake(path="."):
            if not self.mine(path) and os.fspath(path) != self.root:
                return real(path)
            self.step("list")
            names = sorted(real(path))
            if self.list_seed is not None:
                random.Random(self.list_seed).shuffle(names)
            return names
        return fake

    def _scandir(self, real):
        def fake(path="."):
            try:
                mine = isinstance(path, (str, os.PathLike)) and self.mine(path)
            except Exception:
                mine = None
            if not mine:
                return real(path)
            self.step("list")
            with real(path) as it:
                entries = sorted(it, key=lambda e: e.name)
            if self.list_seed is not None:
                random.Random(self.list_seed).shuffle(entries)
            return Listing(entries)
        return fake


class Listing:
    def __init__(self, entries):
        self.entries = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.entries)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class RawWriter(io.RawIOBase):
    def __init__(self, disk, path, raw):
        self.disk, self.path, self.raw = disk, path, raw

    def writable(self):
        return True

    def fileno(self):
        return self.raw.fileno()

    def write(self, data):
        data = bytes(data)
        self.disk.write(self.path, self.raw.fileno(), data)
        return len(data)

    def seekable(self):
        return False

    def tell(self):
        return self.raw.tell()

    def close(self):
        if not self.closed:
            self.raw.close()
            super().close()


class TextWriter:
    """Text on top of RawWriter.  Text is handed on in blocks, the way a buffered
    file does: what was not flushed when the process dies never reaches the disk."""

    BLOCK = 512

    def __init__(self, out, encoding=None, errors=None, newline=None):
        self.out, self.buffer, self.pending = out, out, []
        self.encoding = "utf-8" if encoding in (None, "locale") else encoding
        self.errors = errors or "strict"
        self.size = 0
        self.closed = False
        self.name = out.path

    def writable(self):
        return True

    def readable(self):
        return False

    def seekable(self):
        return False

    def fileno(self):
        return self.out.fileno()

    def write(self, text):
        if not isinstance(text, str):
            raise TypeError("write() argument must be str")
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        self.pending.append(text)
        self.size += len(text)
        if self.size >= self.BLOCK:
            self.flush()
        return len(text)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        if self.pending:
            data = "".join(self.pending).encode(self.encoding, self.errors)
            self.pending, self.size = [], 0
            self.out.write(data)

    def close(self):
        if not self.closed:
            self.closed = True
            try:
                if self.out.disk.dead:
                    return
                data = "".join(self.pending).encode(self.encoding, self.errors)
                self.pending = []
                if data:
                    self.out.write(data)
            finally:
                self.out.close()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()
        return False

    def __del__(self):
        pass
