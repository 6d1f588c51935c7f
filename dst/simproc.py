"""Simulated child processes: subprocess.Popen / os.system backed by a scripted child and a bounded pipe."""

import _pyio
import io
import os
import subprocess

from . import core

RealPopen = subprocess.Popen
real_system = os.system


class Pipe:
    """A bounded byte pipe between the child (writer) and the parent (reader)."""

    def __init__(self, sim, cap):
        self.sim = sim
        self.cap = cap
        self.buf = bytearray()
        self.writers = 0
        self.reader_open = True
        self.rwait = []
        self.wwait = []

    def write(self, data):
        """Blocking write by the child.  Returns False when the read end is gone (SIGPIPE)."""
        s = self.sim
        mv = memoryview(bytes(data))
        while len(mv):
            if not self.reader_open:
                return False
            room = self.cap - len(self.buf)
            if room <= 0:
                s.probe("pipe-full")
                s.wait_until(
                    lambda: not self.reader_open or len(self.buf) < self.cap, self.wwait, "space in the child's pipe"
                )
                continue
            n = min(room, len(mv))
            self.buf += mv[:n]
            mv = mv[n:]
            s.wake_all(self.rwait)
            s.point("pipe-write")
        return True

    def close_writer(self):
        self.writers -= 1
        if self.writers <= 0:
            self.sim.wake_all(self.rwait)


class PipeReader(io.RawIOBase):
    """Read end of a Pipe as a raw stream with simulator-chosen chunking."""

    def __init__(self, pipe):
        self.pipe = pipe
        self.name = "<pipe>"

    def readable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def readinto(self, b):
        s = self.pipe.sim
        p = self.pipe
        s.point("pipe-read")
        s.wait_until(lambda: p.buf or p.writers <= 0, p.rwait, "data from the child's pipe")
        n = min(len(b), len(p.buf))
        if n > 1 and s.fault("short-read", "pipe"):
            n = 1 + s.d.below(n - 1)
        b[:n] = p.buf[:n]
        del p.buf[:n]
        s.wake_all(p.wwait)
        return n

    def close(self):
        if not self.closed:
            super().close()
            self.pipe.reader_open = False
            self.pipe.sim.wake_all(self.pipe.wwait)


class Child:
    """A scripted child.  script: list of ('out', bytes) | ('err', bytes) | ('sleep', secs) | ('close',)
    | ('bg', sub-script) | ('call', fn); then exit code."""

    def __init__(self, script, rc=0, ignore_sigpipe=False):
        self.script = script
        self.rc = rc
        self.ignore_sigpipe = ignore_sigpipe
        self.emitted = bytearray()
        self.cap = 65536
        self.started = False


class SimPopen:
    """Stand-in for subprocess.Popen."""

    def __init__(
        self,
        args,
        bufsize=-1,
        executable=None,
        stdin=None,
        stdout=None,
        stderr=None,
        preexec_fn=None,
        close_fds=True,
        shell=False,
        cwd=None,
        env=None,
        universal_newlines=None,
        startupinfo=None,
        creationflags=0,
        restore_signals=True,
        start_new_session=False,
        pass_fds=(),
        *,
        user=None,
        group=None,
        extra_groups=None,
        encoding=None,
        errors=None,
        text=None,
        umask=-1,
        pipesize=-1,
        process_group=None,
    ):
        s = core.sim()
        self.sim = s
        self.args = args
        self.returncode = None
        self.pid = 4242
        self.stdin = None
        self.stdout = None
        self.stderr = None
        self._rc = None
        self._waiters = []
        self._killed = None
        s.point("spawn")
        child = s.procs(args, dict(stdout=stdout, stderr=stderr, cwd=cwd, env=env, shell=shell, stdin=stdin))
        if cwd is not None and not os.path.isdir(cwd):
            raise FileNotFoundError(2, "No such file or directory", str(cwd))
        self.child = child
        child.started = True
        pipe = None
        epipe = None
        if stdout == subprocess.PIPE:
            pipe = Pipe(s, child.cap)
        if stderr == subprocess.PIPE:
            epipe = Pipe(s, child.cap)
        sinks = {}
        sinks["out"] = pipe if pipe else (stdout if stdout not in (None, subprocess.DEVNULL) else None)
        if stderr == subprocess.STDOUT:
            sinks["err"] = sinks["out"]
        elif epipe:
            sinks["err"] = epipe
        else:
            sinks["err"] = stderr if stderr not in (None, subprocess.DEVNULL) else None
        is_text = bool(text or universal_newlines or encoding or errors)

        def mk(p):
            raw = PipeReader(p)
            if bufsize == 0 and not is_text:
                return raw
            b = _pyio.BufferedReader(raw, io.DEFAULT_BUFFER_SIZE if bufsize in (-1, 0, 1) else bufsize)
            if is_text:
                return _pyio.TextIOWrapper(b, encoding=encoding or "utf-8", errors=errors)
            return b

        self.pipes = [p for p in (pipe, epipe) if p]
        if pipe:
            pipe.writers = 1
            self.stdout = mk(pipe)
        if epipe:
            epipe.writers = 1
            self.stderr = mk(epipe)
        self.sinks = sinks
        s.spawn_raw(self._run_child, ())
        s.point("spawned")

    def _emit(self, which, data):
        sink = self.sinks[which]
        self.child.emitted += data
        if sink is None:
            return True
        if isinstance(sink, Pipe):
            return sink.write(data)
        if isinstance(sink, int):
            return True
        try:
            sink.write(data if "b" in getattr(sink, "mode", "b") else data.decode("utf-8", "replace"))
        except ValueError:
            return False
        return True

    def _script(self, script):
        s = self.sim
        for step in script:
            if self._killed is not None:
                return False
            k = step[0]
            if k in ("out", "err"):
                ok = self._emit(k, step[1])
                if not ok and not self.child.ignore_sigpipe:
                    self._rc = -13
                    return False
            elif k == "sleep":
                s.sleep(step[1])
            elif k == "call":
                step[1]()
            elif k == "bg":
                for p in self.pipes:
                    p.writers += 1
                s.spawn_raw(self._run_bg, (step[1],))
            s.point("child")
        return True

    def _run_bg(self, script):
        try:
            self._script(script)
        finally:
            for p in self.pipes:
                p.close_writer()

    def _run_child(self):
        try:
            self._script(self.child.script)
        finally:
            for p in self.pipes:
                p.close_writer()
            if self._rc is None:
                self._rc = self.child.rc if self._killed is None else -self._killed
            self.sim.wake_all(self._waiters)

    def poll(self):
        self.sim.point("poll")
        if self.returncode is None and self._rc is not None:
            self.returncode = self._rc
        return self.returncode

    def wait(self, timeout=None):
        s = self.sim
        s.point("wait")
        if self.returncode is None:
            ok = s.wait_until(lambda: self._rc is not None, self._waiters, "the child to exit", timeout)
            if not ok:
                raise subprocess.TimeoutExpired(self.args, timeout)
            self.returncode = self._rc
        return self.returncode

    def communicate(self, input=None, timeout=None):
        s = self.sim
        end = None if timeout is None else s.now + timeout
        res = {}
        streams = [(n, getattr(self, n)) for n in ("stdout", "stderr") if getattr(self, n) is not None]
        if len(streams) == 2:
            done = []

            def rd():
                res["stderr"] = self.stderr.read()
                self.stderr.close()
                done.append(1)
                s.wake_all(w)

            w = []
            s.spawn_raw(rd)
            res["stdout"] = self.stdout.read()
            self.stdout.close()
            s.wait_until(lambda: done, w, "stderr reader")
        elif streams:
            n, st = streams[0]
            if timeout is not None:
                ok = s.wait_until(
                    lambda: self._rc is not None or len(self.pipes[0].buf) >= self.pipes[0].cap, self._waiters, "child", timeout
                )
                if not ok:
                    raise subprocess.TimeoutExpired(self.args, timeout)
            res[n] = st.read()
            st.close()
        self.wait(None if end is None else max(0, end - s.now))
        return res.get("stdout"), res.get("stderr")

    def send_signal(self, sig):
        if self._rc is None:
            self._killed = int(sig)
            self._rc = -int(sig)
            for p in self.pipes:
                p.reader_open = p.reader_open
            self.sim.wake_all(self._waiters)

    def kill(self):
        self.send_signal(9)

    def terminate(self):
        self.send_signal(15)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for st in (self.stdout, self.stderr):
            if st is not None:
                st.close()
        self.wait()


class _PopenMeta(type):
    def __call__(cls, *a, **k):
        s = core.sim()
        if cls is Popen and s is not None and getattr(s, "procs", None) is not None:
            return SimPopen(*a, **k)
        if s is not None and cls is Popen:
            if getattr(s, "allow_real_procs", None) is None:
                raise core.HarnessError(f"unexpected process launch: {a}")
            s.allow_real_procs(a, k)
            return RealPopen(*a, **k)
        return super().__call__(*a, **k)

    def __instancecheck__(cls, obj):
        return isinstance(obj, (RealPopen, SimPopen))


class Popen(RealPopen, metaclass=_PopenMeta):
    """Dispatches to the simulator inside a simulation."""


def _system(cmd):
    s = core.sim()
    if s is None:
        return real_system(cmd)
    h = getattr(s, "system", None)
    if h is None:
        raise core.HarnessError(f"unexpected os.system: {cmd}")
    s.point("system")
    return h(cmd)


def install():
    """Patch the process."""
    subprocess.Popen = Popen
    os.system = _system
