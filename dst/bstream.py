"""Simulated binary streams: a medium with foreign data around the object, failing reads and writes, and shrinking files."""

import errno
import io


class Medium(io.RawIOBase):
    """A seekable binary stream over bytes; every access is a preemption point.

    Reads never return less than asked unless the file ends, as with a buffered file.
    Faults: read-eio, seek-eio (operation raises), shrink (the file loses its tail under the reader),
    write-eio, enospc (write raises, after storing a prefix).
    """

    def __init__(self, sim, data=b"", pos=0, name="stream"):
        self.sim = sim
        self.data = bytearray(data)
        self.pos = pos
        self.name_ = name
        self.failed = 0
        self.shrunk = 0
        self.reads = 0

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    def _fail(self, kind, num=errno.EIO):
        self.failed += 1
        raise OSError(num, "injected " + kind, self.name_)

    def read(self, n=-1):
        self.sim.point("read")
        self.reads += 1
        if self.sim.fault("read-eio", self.name_):
            self._fail("read-eio")
        if self.pos < len(self.data) and self.sim.fault("shrink", self.name_):
            self.shrunk += 1
            del self.data[self.pos + self.sim.d.below(len(self.data) - self.pos) :]
        end = len(self.data) if n is None or n < 0 else min(len(self.data), self.pos + n)
        out = bytes(self.data[self.pos : end])
        self.pos += len(out)
        return out

    def readall(self):
        return self.read(-1)

    def readinto(self, b):
        x = self.read(len(b))
        b[: len(x)] = x
        return len(x)

    def seek(self, off, whence=0):
        self.sim.point("seek")
        if self.sim.fault("seek-eio", self.name_):
            self._fail("seek-eio")
        base = (0, self.pos, len(self.data))[whence]
        if base + off < 0:
            raise OSError(errno.EINVAL, "negative seek")
        self.pos = base + off
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        size = self.pos if size is None else size
        del self.data[size:]
        return size

    def write(self, b):
        self.sim.point("write")
        b = bytes(b)
        for kind, num in (("write-eio", errno.EIO), ("enospc", errno.ENOSPC)):
            if self.sim.fault(kind, self.name_):
                self._put(b[: self.sim.d.below(len(b) + 1)])
                self._fail(kind, num)
        self._put(b)
        return len(b)

    def _put(self, b):
        if self.pos > len(self.data):
            self.data += bytes(self.pos - len(self.data))
        self.data[self.pos : self.pos + len(b)] = b
        self.pos += len(b)
