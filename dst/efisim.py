"""Simulated efivarfs: every write(2) is one SetVariable call, files may be immutable, names end in a GUID."""

import errno
import io
import os
import re
import shlex
import stat as statmod

from . import core, simfs
from .simfs import oserr

ROOT = "/sys/firmware/efi/efivars"
GUID = re.compile(r"[0-9a-fA-F]{8}(-[0-9a-fA-F]{4}){3}-[0-9a-fA-F]{12}\Z")


class Var:
    """One stored variable."""

    def __init__(self, name, data, immutable):
        self.name = name  # NAME-guid as listed
        self.data = data  # attributes + payload; None: created, never written
        self.immutable = immutable


class EfiVars:
    """The mounted device."""

    def __init__(self, sim):
        self.sim = sim
        self.vars = {}
        self.present = True
        self.sticky = 0.0  # probability that a new variable becomes immutable
        self.sudo_ok = True
        self.injected = []
        self.foreign = []
        self.writes = []  # (key, bytes) of every SetVariable
        self.listings = []
        self.extra_entries = []
        sim.system = self.system

    @staticmethod
    def key(path):
        n = os.path.basename(path)
        return n[:-36] + n[-36:].lower()

    def add(self, name, data, immutable):
        self.vars[self.key(name)] = Var(name, data, immutable)

    def state(self):
        """{NAME-guid: attributes+payload}."""
        return {k: v.data for k, v in self.vars.items() if v.data is not None}

    # -- file operations
    def open(self, path, mode):
        s = self.sim
        s.point("efi-open")
        if not self.present:
            raise oserr(errno.ENOENT, path)
        if path == ROOT:
            raise oserr(errno.EISDIR, path)
        if s.fault("open-eio", path):
            raise oserr(errno.EIO, path)
        k = self.key(path)
        v = self.vars.get(k)
        if any(c in mode for c in "wax+"):
            if v is None:
                if "r" in mode:
                    raise oserr(errno.ENOENT, path)
                n = os.path.basename(path)
                if len(n) < 38 or n[-37] != "-" or not GUID.match(n[-36:]):
                    raise oserr(errno.EINVAL, path)
                v = self.vars[k] = Var(n, None, s.d.chance(self.sticky))
            elif "x" in mode:
                raise oserr(errno.EEXIST, path)
            elif v.immutable:
                s.hit("immutable", os.path.basename(path))
                raise oserr(errno.EPERM, path)
        elif v is None:
            raise oserr(errno.ENOENT, path)
        return Raw(self, k, mode, path)

    def stat(self, path, what):
        self.sim.point("efi-stat")
        ok = self.present and (path == ROOT or self.key(path) in self.vars)
        if what == "access":
            return ok
        if not ok:
            raise oserr(errno.ENOENT, path)
        if path == ROOT:
            return os.stat_result((statmod.S_IFDIR | 0o755, 1, 1, 2, 0, 0, 0, 0, 0, 0))
        v = self.vars[self.key(path)]
        return os.stat_result((statmod.S_IFREG | 0o644, 2, 1, 1, 0, 0, len(v.data or b""), 0, 0, 0))

    def listdir(self, path):
        s = self.sim
        s.point("efi-list")
        if not self.present or path != ROOT:
            raise oserr(errno.ENOENT, path)
        if s.fault("scandir-eacces", path):
            raise oserr(errno.EACCES, path)
        out = s.d.shuffle(sorted(v.name for v in self.vars.values()) + self.extra_entries)
        self.listings.append((core.cur().tid, sorted(out)))
        return out

    def op(self, name, path, *a):
        s = self.sim
        s.point("efi-" + name)
        if name in ("remove", "unlink"):
            k = self.key(path)
            v = self.vars.get(k)
            if v is None:
                raise oserr(errno.ENOENT, path)
            if v.immutable:
                s.hit("immutable", os.path.basename(path))
                raise oserr(errno.EPERM, path)
            if s.fault("write-eio", path):
                raise oserr(errno.EIO, path)
            del self.vars[k]
            s.event("efi-delete", k)
            return None
        if name == "truncate":
            return None
        raise oserr(errno.EPERM, path)

    def set(self, k, buf, path):
        """One SetVariable."""
        s = self.sim
        v = self.vars.get(k)
        if v is None:
            raise oserr(errno.EIO, path)
        if len(buf) < 4:
            raise oserr(errno.EINVAL, path)
        if s.fault("write-eio", path):
            raise oserr(errno.EIO, path)
        if s.fault("enospc", path):
            raise oserr(errno.ENOSPC, path)
        self.writes.append((k, bytes(buf)))
        s.event("efi-set", k, len(buf))
        if not any(buf[:4]):  # no attributes: a deletion
            s.hit("attr-none", k)
            if v.data is None:
                raise oserr(errno.EIO, path)
            self.vars.pop(k)
            return
        if v.data is not None and v.data[:4] != buf[:4] and len(buf) > 4:
            s.hit("attr-mismatch", k)
            raise oserr(errno.EINVAL, path)
        if len(buf) == 4:
            self.vars.pop(k)
            return
        v.data = bytes(buf)

    # -- shell
    def chattr(self, words):
        s = self.sim
        words = list(words)
        if words and words[0] == "sudo":
            words.pop(0)
            while words and words[0] in ("-n", "-E", "--"):
                words.pop(0)
        if not words or os.path.basename(words[0]) != "chattr":
            self.foreign.append(words)
            return 127
        if not self.sudo_ok or s.fault("sudo-denied", "chattr"):
            return 1
        rc = 0
        flags = [w for w in words[1:] if re.match(r"[-+=][a-zA-Z]+\Z", w)]
        for w in words[1:]:
            if w in flags or w == "--":
                continue
            if os.path.dirname(w) != ROOT or self.key(w) not in self.vars:
                self.foreign.append(words)
                rc = 1
            elif any("i" in f for f in flags if f[0] == "-"):
                self.vars[self.key(w)].immutable = False
                s.event("chattr", w)
        return rc

    def system(self, cmd):
        s = self.sim
        lex = shlex.shlex(cmd, posix=True, punctuation_chars=True)
        lex.whitespace_split = True
        try:
            words = list(lex)
        except ValueError:
            s.event("shell-syntax", cmd)
            self.injected.append(cmd)
            return 2 << 8
        # what a real shell would expand or split outside single quotes
        bare = re.sub(r"'[^']*'", "", cmd)
        if re.search(r"[$`]", re.sub(r"\\.", "", bare)) or re.search(r"[;&|<>()*?\[\]#~\n]", re.sub(r'"[^"]*"|\\.', "", bare)):
            self.injected.append(cmd)
            return 2 << 8
        return self.chattr(words) << 8


class Raw(io.RawIOBase):
    """Raw file: one write is one SetVariable."""

    def __init__(self, dev, k, mode, path):
        self.dev, self.k, self.mode, self.path = dev, k, mode, path
        self.name = path
        self.pos = 0

    def readable(self):
        return "r" in self.mode or "+" in self.mode

    def writable(self):
        return any(c in self.mode for c in "wax+")

    def seekable(self):
        return True

    def seek(self, off, wh=0):
        v = self.dev.vars.get(self.k)
        n = len(v.data or b"") if v else 0
        self.pos = max(0, off if wh == 0 else self.pos + off if wh == 1 else n + off)
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        return size or 0

    def readinto(self, b):
        s = self.dev.sim
        if s.fault("read-eio", self.path):
            raise oserr(errno.EIO, self.path)
        v = self.dev.vars.get(self.k)
        d = (v.data or b"") if v else b""
        d = d[self.pos : self.pos + len(b)]
        if len(d) > 1 and s.fault("short-read", self.path):
            d = d[: 1 + s.d.below(len(d) - 1)]
        b[: len(d)] = d
        self.pos += len(d)
        return len(d)

    def write(self, b):
        b = bytes(b)
        self.dev.set(self.k, b, self.path)
        self.pos += len(b)
        return len(b)

    def close(self):
        if not self.closed:
            super().close()
            v = self.dev.vars.get(self.k)
            if v is not None and v.data is None and self.writable():
                self.dev.vars.pop(self.k)


def mount(sim):
    """Attach a fresh efivarfs to the run."""
    simfs.install_mounts()
    sim.fs = simfs.SimFS(sim, sim.scratch)
    dev = EfiVars(sim)
    sim.fs.mounts.append((ROOT, dev))
    return dev
