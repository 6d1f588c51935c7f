"""Simulated TCP: socket.socket inside a simulation connects to in-process servers run by simulated threads.

Streams are segmented, delayed, cut and reset by the simulator.  Nothing reaches the real network.
"""

import errno
import io
import socket

from . import core

RealSocket = socket.socket
real_getaddrinfo = socket.getaddrinfo


class Half:
    """One direction of a connection."""

    def __init__(self, sim, cap):
        self.sim = sim
        self.cap = cap
        self.buf = bytearray()
        self.eof = False
        self.reset = False
        self.closed = False  # reader is gone
        self.rwait = []
        self.wwait = []
        self.total = 0

    def wake(self):
        self.sim.wake_all(self.rwait)
        self.sim.wake_all(self.wwait)


class Net:
    """Per-run network (attached as sim.net)."""

    def __init__(self, sim):
        self.sim = sim
        self.servers = {}  # port -> handler(conn)
        self.refuse = set()
        self.conns = []
        self.escapes = []
        self.short_recv = 0.0
        self.short_send = 0.0
        self.delay = 0.0
        self.cap = 4096

    def listen(self, port, handler):
        self.servers[port] = handler

    def connect(self, addr):
        s = self.sim
        s.point("connect")
        host, port = addr[0], addr[1]
        if host not in ("localhost", "127.0.0.1"):
            self.escapes.append(addr)
            raise OSError(errno.ENETUNREACH, "Network is unreachable")
        h = self.servers.get(port)
        if h is None or port in self.refuse:
            s.hit("connection-refused", port)
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        up, down = Half(s, self.cap), Half(s, self.cap)
        c = Conn(self, port, up, down)
        self.conns.append(c)
        s.spawn_raw(self._serve, (h, c))
        return c

    def _serve(self, h, c):
        try:
            h(c)
        except (EOFError, ConnectionError):
            pass
        finally:
            c.down.eof = True
            c.up.closed = True
            c.down.wake()
            c.up.wake()


class Conn:
    """Server side of a connection (up: client to server)."""

    def __init__(self, net, port, up, down):
        self.net, self.port, self.up, self.down = net, port, up, down
        self.sim = net.sim

    def read(self, n):
        """Exactly n bytes."""
        s = self.sim
        out = b""
        while len(out) < n:
            s.wait_until(lambda: self.up.buf or self.up.eof or self.up.reset, self.up.rwait, "request bytes at the server")
            if not self.up.buf:
                raise EOFError
            k = min(n - len(out), len(self.up.buf))
            out += bytes(self.up.buf[:k])
            del self.up.buf[:k]
            s.wake_all(self.up.wwait)
        return out

    def write(self, data):
        """Deliver data to the client in segments chosen by the simulator."""
        s = self.sim
        data = bytes(data)
        while data:
            if self.down.closed or self.down.reset:
                raise ConnectionError
            room = self.down.cap - len(self.down.buf)
            if room <= 0:
                s.wait_until(
                    lambda: self.down.closed or len(self.down.buf) < self.down.cap, self.down.wwait, "room for the response"
                )
                continue
            n = min(room, len(data))
            if n > 1 and s.d.chance(self.net.short_recv):
                n = 1 + s.d.below(n - 1)
                s.hit("segmented", self.port)
            self.down.buf += data[:n]
            self.down.total += n
            data = data[n:]
            s.wake_all(self.down.rwait)
            if self.net.delay and s.d.chance(self.net.delay):
                s.hit("net-delay", self.port)
                s.sleep(s.d.pick([0.001, 0.05, 2.0, 40.0]))
            s.point("net")

    def close(self):
        """Orderly close towards the client."""
        self.down.eof = True
        self.up.closed = True
        self.down.wake()
        self.up.wake()

    def reset(self):
        """RST: data in flight is lost."""
        self.down.buf.clear()
        self.down.reset = True
        self.up.reset = True
        self.up.closed = True
        self.down.wake()
        self.up.wake()


class SimSocket:
    """Client stream socket."""

    def __init__(self, family=-1, type=-1, proto=-1, fileno=None):
        self.sim = core.sim()
        self.net = self.sim.net
        self.family = socket.AF_INET if family == -1 else family
        self.type = socket.SOCK_STREAM if type == -1 else type
        self.proto = 0 if proto == -1 else proto
        self.conn = None
        self._timeout = socket.getdefaulttimeout()
        self._closed = False

    # -- life cycle
    def connect(self, addr):
        self._open()
        self.conn = self.net.connect(addr)

    def connect_ex(self, addr):
        try:
            self.connect(addr)
        except OSError as e:
            return e.errno
        return 0

    def _open(self):
        if self._closed:
            raise OSError(errno.EBADF, "Bad file descriptor")

    def _up(self):
        self._open()
        if self.conn is None:
            raise OSError(errno.ENOTCONN, "Transport endpoint is not connected")
        return self.conn

    def close(self):
        if not self._closed:
            self._closed = True
            if self.conn:
                self.conn.up.eof = True
                self.conn.down.closed = True
                self.conn.up.wake()
                self.conn.down.wake()

    def detach(self):
        self._closed = True
        return -1

    def shutdown(self, how):
        c = self._up()
        if how in (socket.SHUT_WR, socket.SHUT_RDWR):
            c.up.eof = True
            c.up.wake()
        if how in (socket.SHUT_RD, socket.SHUT_RDWR):
            c.down.eof = True
            c.down.wake()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def settimeout(self, t):
        self._timeout = t

    def gettimeout(self):
        return self._timeout

    def setblocking(self, b):
        self._timeout = None if b else 0.0

    def getblocking(self):
        return self._timeout != 0.0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def fileno(self):
        return -1 if self._closed else 9999

    def getpeername(self):
        return ("127.0.0.1", self._up().port)

    def getsockname(self):
        return ("127.0.0.1", 40000)

    # -- data
    def _wait(self, pred, ws, what):
        if pred():
            return
        if self._timeout == 0.0:
            raise BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable")
        if not self.sim.wait_until(pred, ws, what, self._timeout):
            raise TimeoutError("timed out")

    def recv_into(self, b, nbytes=0, flags=0):
        data = self.recv(nbytes or len(b), flags)
        b[: len(data)] = data
        return len(data)

    def recv(self, n, flags=0):
        c = self._up()
        s = self.sim
        s.point("recv")
        if n == 0:
            return b""
        h = c.down
        self._wait(
            lambda: len(h.buf) >= (n if flags & socket.MSG_WAITALL else 1) or h.eof or h.reset, h.rwait, "data from the peer"
        )
        if h.reset:
            raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
        k = min(n, len(h.buf))
        if k > 1 and not flags & (socket.MSG_PEEK | socket.MSG_WAITALL) and s.d.chance(self.net.short_recv):
            s.hit("short-recv", c.port)
            k = 1 + s.d.below(k - 1)
        data = bytes(h.buf[:k])
        if not flags & socket.MSG_PEEK:
            del h.buf[:k]
            s.wake_all(h.wwait)
        return data

    def send(self, data, flags=0):
        c = self._up()
        s = self.sim
        s.point("send")
        data = bytes(data)
        if not data:
            return 0
        h = c.up
        self._wait(lambda: len(h.buf) < h.cap or h.closed or h.reset, h.wwait, "room in the send buffer")
        if h.reset:
            raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
        if h.closed:
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        k = min(len(data), h.cap - len(h.buf))
        if k > 1 and s.d.chance(self.net.short_send):
            s.hit("short-send", c.port)
            k = 1 + s.d.below(k - 1)
        h.buf += data[:k]
        h.total += k
        s.wake_all(h.rwait)
        s.point("sent")
        return k

    def sendall(self, data, flags=0):
        data = memoryview(data).cast("B") if not isinstance(data, bytes) else data
        pos = 0
        while pos < len(data):
            pos += self.send(data[pos:])

    def makefile(self, mode="r", buffering=None, *, encoding=None, errors=None, newline=None):
        sock = self

        class Raw(io.RawIOBase):
            def readable(self):
                return "r" in mode or "+" in mode

            def writable(self):
                return "w" in mode or "+" in mode

            def readinto(self, b):
                return sock.recv_into(b)

            def write(self, b):
                return sock.send(b)

        raw = Raw()
        if buffering == 0:
            return raw
        if "w" in mode and "r" not in mode:
            buf = io.BufferedWriter(raw)
        elif "w" in mode:
            buf = io.BufferedRWPair(raw, raw)
        else:
            buf = io.BufferedReader(raw)
        return buf if "b" in mode else io.TextIOWrapper(buf, encoding, errors, newline)


class _SockMeta(type):
    def __call__(cls, *a, **k):
        s = core.sim()
        if cls is Socket and s is not None:
            if getattr(s, "net", None) is None:
                raise core.HarnessError(f"unexpected socket: {a}")
            return SimSocket(*a, **k)
        if cls is Socket:
            return RealSocket(*a, **k)
        return super().__call__(*a, **k)

    def __instancecheck__(cls, obj):
        if cls is Socket:
            return isinstance(obj, (RealSocket, SimSocket))
        return super().__instancecheck__(obj)


class Socket(RealSocket, metaclass=_SockMeta):
    """Dispatches to the simulator inside a simulation."""


def _getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
    s = core.sim()
    if s is None:
        return real_getaddrinfo(host, port, family, type, proto, flags)
    return [(socket.AF_INET, socket.SOCK_STREAM, 6, "", ("127.0.0.1" if host in ("localhost", "127.0.0.1") else host, port))]


def install():
    """Patch the process (called by the scenarios that need it, before edk2toollib.tpm is imported)."""
    socket.socket = Socket
    socket.getaddrinfo = _getaddrinfo
