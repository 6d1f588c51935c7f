"""Simulated file layer: real files in a scratch directory behind a fault-injecting raw layer.

builtins.open / io.open give the standard buffered and text stack of the interpreter on top of `SimRaw`,
which decides short reads/writes, I/O errors, a full disk and close errors.  Directory enumeration order is
decided by the simulator.  Every destructive call made from inside a simulation is confined to the scratch
directory: a call that leaves it is refused and recorded.
"""

import builtins
import errno
import io
import os
import stat as statmod

from . import core

real_open = builtins.open
real = {}
ENOSPC, EIO, EACCES, EMFILE = errno.ENOSPC, errno.EIO, errno.EACCES, errno.EMFILE


def oserr(no, path=None):
    """An OSError as the kernel would raise it."""
    return OSError(no, os.strerror(no), path) if path is not None else OSError(no, os.strerror(no))


class Crash(BaseException):
    """The simulated process died."""


class SimFS:
    """Per-run file system state (attached as sim.fs)."""

    def __init__(self, sim, root, permute=False):
        self.sim = sim
        self.root = os.path.realpath(root)
        self.permute = permute
        self.capacity = None  # bytes that may still be written; None: unlimited
        self.escapes = []
        self.on_op = None  # callback(op, path) -> may raise OSError
        self.written = {}  # path -> bytes accepted by the raw layer
        self.match = lambda p: True  # which paths see faults
        self.track = False
        self.opened = []  # (path, mode) in order
        self.locale = None  # encoding of text files whose opener names none; None: that of the host
        self.allow = ()  # further allowed roots (read-only checks)
        self.failed_ops = 0
        self.live = 0
        self.open_files = {}
        self.mounts = []  # (prefix, device) with device.open/stat/listdir/remove
        self.crash_in = None  # crash the process at this many further file operations
        self.crash_image = None

    def crash_point(self, path):
        """True (once) when the simulated process dies at this file operation."""
        if self.crash_in is None or self.crash_image is not None or core.sim() is not self.sim:
            return False
        self.crash_in -= 1
        return self.crash_in < 0

    def crash(self, path):
        """The process dies here: remember what is durable and unwind."""
        self.sim.hit("crash", path)
        self.crash_image = tree(self.root)
        raise Crash("process crash")

    def restore(self):
        """Bring the tree back to what the crash left (undoing what unwinding code did)."""
        image, self.crash_image, self.crash_in = self.crash_image, None, None
        for n in real["listdir"](self.root):
            p = os.path.join(self.root, n)
            rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else real["unlink"](p)
        for rel in sorted(image):
            p, v = os.path.join(self.root, rel), image[rel]
            if v is None:
                real["mkdir"](p)
            elif isinstance(v, tuple):
                real["symlink"](v[1], p)
            else:
                with real_open(p, "wb") as f:
                    f.write(v)

    def device(self, path):
        """The simulated device a path belongs to, or None."""
        if self.mounts:
            try:
                p = os.path.abspath(os.fsdecode(path))
            except (TypeError, ValueError):
                return None
            for pre, dev in self.mounts:
                if p == pre or p.startswith(pre + "/"):
                    return dev
        return None

    def inside(self, path):
        """Is path (whose parent is resolved) inside the scratch root?"""
        p = os.path.realpath(os.path.dirname(os.path.abspath(path)) or "/")
        return p == self.root or p.startswith(self.root + os.sep)

    def covers(self, path):
        """Lexical test used for opens."""
        try:
            p = os.path.abspath(os.fsdecode(path))
        except (TypeError, ValueError):
            return None
        if p == self.root or p.startswith(self.root + os.sep):
            return p
        return None


class SimRaw(io.RawIOBase):
    """Raw file with fault injection.  Never switches threads (it runs under the C buffer lock)."""

    def __init__(self, fs, path, flags, opener=None):
        self._fs = fs
        self._in = io.FileIO(path, flags, opener=opener)
        self.name = path
        self._path = path
        self.mode = flags
        self._faulty = fs.match(path)
        fs.open_files[id(self)] = path

    def fileno(self):
        return self._in.fileno()

    def readable(self):
        return self._in.readable()

    def writable(self):
        return self._in.writable()

    def seekable(self):
        return self._in.seekable()

    def isatty(self):
        return False

    def seek(self, off, wh=0):
        return self._in.seek(off, wh)

    def tell(self):
        return self._in.tell()

    def truncate(self, size=None):
        return self._in.truncate(size)

    def readinto(self, b):
        s = self._fs.sim
        if self._faulty and core.sim() is s:
            if s.fault("read-eio", self._path):
                self._fs.failed_ops += 1
                raise oserr(EIO)
            if len(b) > 1 and s.fault("short-read", self._path):
                n = 1 + s.d.below(min(len(b) - 1, 64))
                data = self._in.read(n)
                b[: len(data)] = data
                return len(data)
        return self._in.readinto(b)

    def readall(self):
        s = self._fs.sim
        if self._faulty and core.sim() is s:
            if s.fault("read-eio", self._path):
                self._fs.failed_ops += 1
                raise oserr(EIO)
        return self._in.readall()

    def write(self, b):
        s = self._fs.sim
        mv = memoryview(b).cast("B")
        n = len(mv)
        fs = self._fs
        if self._faulty and core.sim() is s and n:
            if fs.crash_point(self._path):
                k = s.d.below(n + 1)
                if k:
                    self._in.write(mv[:k])
                fs.crash(self._path)
            if fs.capacity is not None and n > fs.capacity:
                k = fs.capacity
                fs.capacity = 0
                if k:
                    s.hit("short-write-enospc", self._path)
                    w = self._in.write(mv[:k])
                    return w
                s.hit("enospc", self._path)
                fs.failed_ops += 1
                raise oserr(ENOSPC)
            if s.fault("write-eio", self._path):
                fs.failed_ops += 1
                raise oserr(EIO)
            if s.fault("enospc", self._path):
                fs.capacity = 0
                fs.failed_ops += 1
                raise oserr(ENOSPC)
            if n > 1 and s.fault("short-write", self._path):
                mv = mv[: 1 + s.d.below(n - 1)]
        w = self._in.write(mv)
        if fs.capacity is not None and self._faulty:
            fs.capacity -= w
        return w

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            self._fs.open_files.pop(id(self), None)
            self._in.close()
        s = self._fs.sim
        if self._faulty and core.sim() is s and self._in_writable and s.fault("close-eio", self._path):
            self._fs.failed_ops += 1
            raise oserr(EIO)

    @property
    def _in_writable(self):
        return any(c in self.mode for c in "wax+")


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    s = core.sim()
    fs = getattr(s, "fs", None) if s is not None else None
    if fs is None or isinstance(file, int):
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    dev = fs.device(file)
    if dev is not None:
        return _stack(dev.open(os.path.abspath(os.fsdecode(file)), mode), file, mode, buffering, encoding, errors, newline)
    path = fs.covers(file)
    if path is None:
        if any(c in mode for c in "wax+") and not str(file).startswith("/dev/null"):
            fs.escapes.append(("open", str(file)))
            s.event("escape open", file)
            raise oserr(EACCES, str(file))
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if fs.match(path):
        if fs.crash_point(path):
            fs.crash(path)
        if fs.on_op is not None:
            fs.on_op("open:" + mode, path)
        for kind, no in (("open-eio", EIO), ("open-eacces", EACCES), ("open-emfile", EMFILE)):
            if s.fault(kind, path):
                fs.failed_ops += 1
                raise oserr(no, path)
    if fs.track:
        fs.opened.append((path, mode))
    rawflags = mode.replace("b", "").replace("t", "")
    if "b" in mode and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    raw = SimRaw(fs, path, rawflags, opener)
    return _stack(raw, file, mode, buffering, fs.locale if encoding in (None, "locale") else encoding, errors, newline)


def _stack(raw, file, mode, buffering, encoding, errors, newline):
    """The interpreter's buffered and text layers on top of a raw file."""
    raw.name = file
    binary = "b" in mode
    rawflags = mode
    if buffering == 0:
        if not binary:
            raw.close()
            raise ValueError("can't have unbuffered text I/O")
        return raw
    line_buffering = buffering == 1 and not binary
    size = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1) else buffering
    if "+" in rawflags:
        buf = io.BufferedRandom(raw, size)
    elif any(c in rawflags for c in "wax"):
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, io.text_encoding(encoding), errors, newline, line_buffering)
    text.mode = mode
    return text


class _Entries:
    def __init__(self, items):
        self._it = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._it = iter(())


def _path_of(path, dir_fd=None):
    if isinstance(path, int):
        return real["readlink"](f"/proc/self/fd/{path}")
    p = os.fsdecode(path)
    if dir_fd is not None and not os.path.isabs(p):
        p = os.path.join(real["readlink"](f"/proc/self/fd/{dir_fd}"), p)
    return os.path.abspath(p)


def _scandir(path="."):
    s = core.sim()
    fs = getattr(s, "fs", None) if s is not None else None
    if fs is None:
        return real["scandir"](path)
    p = _path_of(path)
    if fs.covers(p) is None:
        return real["scandir"](path)
    if fs.on_op is not None:
        fs.on_op("scandir", p)
    if s.fault("scandir-eacces", p):
        fs.failed_ops += 1
        raise oserr(EACCES, p)
    with real["scandir"](path) as it:
        items = sorted(it, key=lambda e: os.fsencode(e.name))
    if fs.permute and len(items) > 1:
        items = s.d.shuffle(items)
        s.faults["enum-permute"] = s.faults.get("enum-permute", 0) + 1
    return _Entries(items)


def _listdir(path="."):
    s = core.sim()
    fs = getattr(s, "fs", None) if s is not None else None
    if fs is None:
        return real["listdir"](path)
    p = _path_of(path)
    dev = fs.device(p)
    if dev is not None:
        return dev.listdir(p)
    if fs.covers(p) is None:
        return real["listdir"](path)
    if fs.on_op is not None:
        fs.on_op("listdir", p)
    if s.fault("scandir-eacces", p):
        fs.failed_ops += 1
        raise oserr(EACCES, p)
    items = sorted(real["listdir"](path))
    if fs.permute and len(items) > 1:
        items = s.d.shuffle(items)
    return items


def _guard1(name):
    fn = real[name]

    def wrapped(path, *a, **k):
        s = core.sim()
        fs = getattr(s, "fs", None) if s is not None else None
        if fs is None:
            return fn(path, *a, **k)
        p = _path_of(path, k.get("dir_fd"))
        dev = fs.device(p)
        if dev is not None:
            return dev.op(name, p, *a)
        if not fs.inside(p):
            fs.escapes.append((name, p))
            s.event("escape", name, p)
            raise oserr(EACCES, p)
        if fs.crash_point(p):
            fs.crash(p)
        if fs.on_op is not None:
            fs.on_op(name, p)
        s.point(name)
        return fn(path, *a, **k)

    wrapped.__name__ = name
    return wrapped


def _guard2(name):
    fn = real[name]

    def wrapped(src, dst, *a, **k):
        s = core.sim()
        fs = getattr(s, "fs", None) if s is not None else None
        if fs is None:
            return fn(src, dst, *a, **k)
        ps, pd = _path_of(src, k.get("src_dir_fd")), _path_of(dst, k.get("dst_dir_fd"))
        for p in (pd,) if name in ("symlink", "link") else (ps, pd):
            if not fs.inside(p):
                fs.escapes.append((name, p))
                s.event("escape", name, p)
                raise oserr(EACCES, p)
        if fs.crash_point(pd):
            fs.crash(pd)
        if fs.on_op is not None:
            fs.on_op(name, pd)
        s.point(name)
        return fn(src, dst, *a, **k)

    wrapped.__name__ = name
    return wrapped


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    s = core.sim()
    fs = getattr(s, "fs", None) if s is not None else None
    if fs is not None and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
        p = _path_of(path, dir_fd)
        if not fs.inside(p) and p != "/dev/null":
            fs.escapes.append(("os.open", p))
            s.event("escape os.open", p)
            raise oserr(EACCES, p)
    if fs is not None and fs.on_op is not None:
        p = _path_of(path, dir_fd)
        if fs.covers(p):
            fs.on_op("os.open", p)
    return real["open"](path, flags, mode, dir_fd=dir_fd)


def _stat_like(name):
    fn = real[name] = getattr(os, name)

    def wrapped(path, *a, **k):
        s = core.sim()
        fs = getattr(s, "fs", None) if s is not None else None
        if fs is not None and fs.mounts and not isinstance(path, int):
            dev = fs.device(path)
            if dev is not None:
                return dev.stat(os.path.abspath(os.fsdecode(path)), name)
        return fn(path, *a, **k)

    wrapped.__name__ = name
    return wrapped


def install_mounts():
    """Let simulated devices answer stat and access (called by the scenarios that mount one)."""
    for n in ("stat", "lstat", "access"):
        if n not in real:
            setattr(os, n, _stat_like(n))


def install():
    """Patch the process (before edk2toollib is imported, after shutil has looked at os)."""
    import glob  # noqa: F401
    import shutil  # (reads os.supports_dir_fd at import)
    import tempfile  # noqa: F401

    shutil._USE_CP_SENDFILE = False  # copies go through the fault layer

    for n in (
        "scandir listdir unlink remove rmdir rename replace chmod truncate mkdir symlink link readlink open chown lchown utime"
    ).split():
        real[n] = getattr(os, n)
    builtins.open = _open
    io.open = _open
    os.scandir = _scandir
    os.listdir = _listdir
    for n in "unlink remove rmdir chmod truncate mkdir".split():
        setattr(os, n, _guard1(n))
    for n in "rename replace symlink link".split():
        setattr(os, n, _guard2(n))
    os.open = _os_open


def tree(root):
    """{relative path: bytes | None for directories | ('link', target)} of everything below root."""
    out = {}
    root = os.fspath(root)

    def walk(d, rel):
        for e in sorted(real["scandir"](d), key=lambda e: e.name):
            r = e.name if not rel else rel + "/" + e.name
            st = os.lstat(e.path)
            if statmod.S_ISLNK(st.st_mode):
                out[r] = ("link", real["readlink"](e.path))
            elif statmod.S_ISDIR(st.st_mode):
                out[r] = None
                walk(e.path, r)
            else:
                with real_open(e.path, "rb") as f:
                    out[r] = f.read()

    walk(root, "")
    return out


def rmtree(root):
    """Remove a tree outside the fault layer (inside a scratch directory only)."""
    if "/dst-" not in os.path.abspath(root):
        raise core.HarnessError(f"refusing to remove {root}")
    for n in real["listdir"](root):
        p = os.path.join(root, n)
        if os.path.isdir(p) and not os.path.islink(p):
            rmtree(p)
        else:
            real["unlink"](p)
    real["rmdir"](root)


def write(path, data):
    """Write a file outside the fault layer."""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if isinstance(data, str):
        data = data.encode("utf-8")
    with real_open(path, "wb") as f:
        f.write(data)


def read(path):
    """Read a file outside the fault layer."""
    with real_open(path, "rb") as f:
        return f.read()


def wipe(root):
    """Remove a scratch tree created by this harness (never follows links)."""
    root = os.path.abspath(root)
    if "/dst-" not in root:
        raise core.HarnessError(f"refusing to wipe {root}")
    if not os.path.lexists(root):
        return
    for d, dirs, files in os.walk(root, topdown=True):
        try:
            real["chmod"](d, 0o700)
        except OSError:
            pass
    for d, dirs, files in os.walk(root, topdown=False):
        for f in files:
            real["unlink"](os.path.join(d, f))
        for x in dirs:
            p = os.path.join(d, x)
            real["unlink"](p) if os.path.islink(p) else real["rmdir"](p)
    real["rmdir"](root)
