"""Deterministic simulation core.

One `Draws` object decides everything in a run: generated operations, injected faults, chunk sizes,
clock jumps and every scheduling decision.  It is seeded from one integer, records each value it hands
out, and can be replayed (or shrunk) from the recorded list alone.

`install()` must run before anything that creates locks or threads is imported (logging, queue,
concurrent.futures, edk2toollib ...).  Every patched primitive passes straight through to the real one
when the calling thread is not part of a running simulation.
"""

import _thread
import gc
import hashlib
import os
import random
import sys
import threading
import time

REPO = os.environ.get("DST_REPO", "/repo")
REPO_SRC = os.path.join(REPO, "edk2toollib") + os.sep

_real_allocate = _thread.allocate_lock
_real_start = _thread.start_new_thread
_real_sentinel = threading._set_sentinel
_real_get_ident = _thread.get_ident
real_time = time.time
real_monotonic = time.monotonic
real_sleep = time.sleep
real_perf = time.perf_counter


class Violation(Exception):
    """The property does not hold in this run.  `kind` is the violation class kept while shrinking."""

    def __init__(self, kind, msg):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = str(msg)


class HarnessError(Exception):
    """The simulator itself is at fault; never a verdict."""


class SimAbort(SystemExit):
    """Unwinds a simulated thread during teardown."""


class WallHang(SimAbort):
    """Raised in the main thread by the wall-clock watchdog."""


# --------------------------------------------------------------------------------------------- draws
class Draws:
    """Seeded, recorded, replayable source of every choice."""

    def __init__(self, seed=None, replay=None):
        self.rng = random.Random(seed) if replay is None else None
        self.replay = replay
        self.rec = []
        self.pos = 0

    def _raw(self, n, gen):
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            if v >= n:
                v = n - 1
        else:
            v = gen(self.rng)
        self.rec.append(v)
        return v

    def below(self, n):
        """Uniform integer in [0, n)."""
        return self._raw(n, lambda r: int(r.random() * n))

    def int(self, lo, hi):
        """Uniform integer in [lo, hi]; simplest is lo."""
        return lo + self.below(hi - lo + 1)

    def chance(self, p):
        """True with probability p; simplest is False."""
        return self._raw(2, lambda r: 1 if r.random() < p else 0) == 1

    def pick(self, seq):
        """One element; simplest is the first."""
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        """[(weight, value)...]; simplest is the first."""
        tot = float(sum(w for w, _ in pairs))

        def gen(r):
            x = r.random() * tot
            for i, (w, _) in enumerate(pairs):
                x -= w
                if x < 0:
                    return i
            return len(pairs) - 1

        return pairs[self._raw(len(pairs), gen)][1]

    def geom(self, mean, cap):
        """Geometric-ish integer in [0, cap]."""

        def gen(r):
            return min(cap, int(r.expovariate(1.0 / mean))) if mean > 0 else 0

        return self._raw(cap + 1, gen)

    def shuffle(self, seq):
        """A permutation (Fisher-Yates); simplest is the identity."""
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.below(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def sample(self, seq, k):
        """k distinct elements."""
        seq = list(seq)
        k = min(k, len(seq))
        for i in range(k):
            j = i + self.below(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq[:k]

    def subset(self, seq, p=0.5):
        """Each element with probability p; simplest is the empty list."""
        return [x for x in seq if self.chance(p)]

    def bytes(self, n):
        """n bytes from one draw (a recorded 32-bit seed; seed 0 gives zero bytes)."""
        s = self.below(1 << 32)
        if s == 0:
            return b"\0" * n
        return random.Random(s).randbytes(n)

    def word(self, lo=1, hi=8, alphabet="abcdefghijklmnopqrstuvwxyz"):
        """A short word."""
        return "".join(self.pick(alphabet) for _ in range(self.int(lo, hi)))


# --------------------------------------------------------------------------------------------- threads
class SimThread:
    """Book-keeping for one simulated thread (a real thread that runs only while it holds the baton)."""

    __slots__ = ("tid", "gate", "state", "wake_at", "why", "sentinel", "abort_seen", "timed_out", "nopreempt", "ident")

    def __init__(self, tid):
        self.tid = tid
        self.gate = _real_allocate()
        self.gate.acquire()
        self.state = "run"  # run | block | done
        self.wake_at = None
        self.why = ""
        self.sentinel = None
        self.abort_seen = False
        self.timed_out = False
        self.nopreempt = 0
        self.ident = None


_threads = {}  # real ident -> SimThread, only for the active simulation
_active = None  # the active Sim


def cur():
    """The calling SimThread, or None outside a simulation."""
    return _threads.get(_real_get_ident())


def sim():
    """The active simulation if the calling thread belongs to it."""
    return _active if _real_get_ident() in _threads else None


class Sim:
    """One simulated execution."""

    def __init__(self, draws, scratch, seed=None, step_cap=400000, hook_lines=False):
        self.d = draws
        self.seed = seed
        self.scratch = scratch
        self.log = []
        self.h = hashlib.sha256()
        self.sh = hashlib.sha256()  # schedule hash
        self.now = 1000.0
        self.wall_offset = 1_700_000_000.0
        self.steps = 0
        self.step_cap = step_cap
        self.switches = 0
        self.preempts = 0
        self.threads = []
        self.aborting = None
        self.countdown = 0  # 0: no more preemption
        self.preempt_mean = 0
        self.faults = {}  # kind -> times fired
        self.probes = {}  # probe -> hits
        self.fault_rates = {}  # kind -> probability
        self.fault_budget = 0
        self.ops = []  # rendered operations / faults (the readable trace)
        self.hook_lines = hook_lines
        self.spurious = 0.0
        self.start_now = self.now
        self.sampled = False
        self.uuid_rng = None
        self.extra = {}
        self.cleanups = []
        self.objseq = 0

    # -- trace
    def event(self, *parts):
        """Record one event in the (hashed) log."""
        s = " ".join(str(p) for p in parts)
        if self.scratch:
            s = s.replace(self.scratch, "$S")
        self.h.update(s.encode("utf-8", "backslashreplace") + b"\n")
        if len(self.log) < 4000:
            self.log.append(s)

    def op(self, *parts):
        """Record one human-readable operation (also hashed)."""
        s = " ".join(str(p) for p in parts)
        if self.scratch:
            s = s.replace(self.scratch, "$S")
        if len(self.ops) < 400:
            self.ops.append(s if len(s) < 400 else s[:400] + "...")
        self.event("op", s)

    def probe(self, name, n=1):
        """Count that a rare condition was reached."""
        self.probes[name] = self.probes.get(name, 0) + n

    def hit(self, kind, where=""):
        """Record that a fault fired."""
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.op("FAULT", kind, where, f"t={self.now - self.start_now:.6f}", f"th={cur().tid if cur() else '-'}")

    def fault(self, kind, where="", rate=None):
        """Should fault `kind` fire here?  Draws only when that kind is enabled and budget remains."""
        r = self.fault_rates.get(kind, 0) if rate is None else rate
        if r <= 0 or self.fault_budget <= 0 or self.aborting:
            return False
        if self.d.chance(r):
            self.fault_budget -= 1
            self.hit(kind, where)
            return True
        return False

    def swarm(self, kinds, budget=(0, 3), rates=(0.02, 0.1, 0.3), p=0.5):
        """Pick a random subset of fault kinds with random rates for this run."""
        self.fault_budget = self.d.int(*budget)
        self.fault_rates = {}
        if self.fault_budget:
            for k in kinds:
                if self.d.chance(p):
                    self.fault_rates[k] = self.d.pick(rates)
        return self.fault_rates

    # -- scheduling
    def set_preempt(self, mean):
        """Preempt on average every `mean` points (0: only at blocking operations)."""
        self.preempt_mean = mean
        self._arm()

    def _arm(self):
        self.countdown = self.d.geom(self.preempt_mean, 100000) if self.preempt_mean else 0

    def point(self, why="pt"):
        """A preemption point, called by the running simulated thread."""
        me = _threads.get(_real_get_ident())
        if me is None:
            return
        self.steps += 1
        if self.aborting:
            if self.steps > self.step_cap * 2 + 200000:
                raise SimAbort("abort")
            return
        if self.steps > self.step_cap:
            self._abort(me, "no progress within %d steps" % self.step_cap)
        if self.countdown:
            self.countdown -= 1
            if self.countdown == 0 and not me.nopreempt:
                others = [t for t in self.threads if t.state == "run" and t is not me]
                self._arm()
                if others:
                    nxt = others[self.d.below(len(others))]
                    self.preempts += 1
                    self.sh.update(f"p{me.tid}>{nxt.tid}@{why};".encode())
                    self._switch(me, nxt)

    def _abort(self, me, why):
        if not self.aborting:
            self.aborting = why
        me.abort_seen = True
        if me.tid == 0:
            raise SimAbort(why)
        # hand over to main, which unwinds; this thread is aborted too
        main = self.threads[0]
        main.state = "run"
        raise SimAbort(why)

    def _switch(self, me, nxt):
        self.switches += 1
        nxt.gate.release()
        me.gate.acquire()
        if self.aborting and not me.abort_seen:
            me.abort_seen = True
            raise SimAbort(self.aborting)

    def _next_runnable(self):
        """Pick the next thread when the current one cannot run; advances virtual time if needed."""
        while True:
            run = [t for t in self.threads if t.state == "run"]
            if run:
                i = self.d.below(len(run)) if len(run) > 1 else 0
                return run[i]
            timed = [t for t in self.threads if t.state == "block" and t.wake_at is not None]
            if not timed:
                return None
            wake = min(t.wake_at for t in timed)
            if wake > self.now:
                self.now = wake
            for t in timed:
                if t.wake_at <= self.now:
                    t.state = "run"
                    t.timed_out = True
                    t.wake_at = None

    def block(self, why, timeout=None):
        """Block the running thread until wake() or the (virtual) timeout.  Returns False on timeout."""
        me = cur()
        if self.aborting:
            if not me.abort_seen:
                me.abort_seen = True
            raise SimAbort(self.aborting)
        self.steps += 1
        if self.steps > self.step_cap:
            self._abort(me, "no progress within %d steps" % self.step_cap)
        me.state = "block"
        me.why = why
        me.timed_out = False
        me.wake_at = None if timeout is None else self.now + max(0.0, timeout)
        nxt = self._next_runnable()
        if nxt is None:
            self.aborting = "deadlock: " + ", ".join(
                f"thread{t.tid} waits for {t.why}" for t in self.threads if t.state == "block"
            )
            main = self.threads[0]
            if me is main:
                me.state = "run"
                me.abort_seen = True
                raise SimAbort(self.aborting)
            nxt = main
            main.state = "run"
        if nxt is me:
            me.state = "run"
        else:
            self.sh.update(f"b{me.tid}>{nxt.tid}@{why};".encode())
            self._switch(me, nxt)
        return not me.timed_out

    def wake(self, t):
        """Make a blocked thread runnable."""
        if t.state == "block":
            t.state = "run"
            t.wake_at = None

    def sleep(self, secs):
        """Virtual sleep."""
        self.block("sleep", max(0.0, secs))

    def advance(self, secs):
        """Let virtual time pass."""
        self.now += secs

    def wait_until(self, cond, waiters, why, timeout=None):
        """Block until cond() holds; `waiters` is a list the waker uses with wake_all()."""
        end = None if timeout is None else self.now + timeout
        while not cond():
            me = cur()
            waiters.append(me)
            left = None if end is None else end - self.now
            if left is not None and left <= 0:
                if me in waiters:
                    waiters.remove(me)
                return False
            ok = self.block(why, left)
            if me in waiters:
                waiters.remove(me)
            if not ok and not cond():
                return False
        return True

    def wake_all(self, waiters):
        """Wake every thread parked in `waiters`."""
        for t in list(waiters):
            self.wake(t)

    def spawn_raw(self, func, args=(), kwargs=None):
        """Start a simulated thread."""
        t = SimThread(len(self.threads))
        self.threads.append(t)
        kwargs = kwargs or {}

        def wrapper():
            t.gate.acquire()
            t.ident = _real_get_ident()
            _threads[t.ident] = t
            try:
                if self.aborting:
                    t.abort_seen = True
                    # still run so that Thread bookkeeping completes; first blocking op aborts
                if self.hook_lines:
                    sys.settrace(_tracer)
                func(*args, **kwargs)
            except SimAbort:
                pass
            except BaseException as e:  # noqa: BLE001
                self.event("thread-died", t.tid, type(e).__name__, e)
            finally:
                sys.settrace(None)
                self._finish(t)

        _real_start(wrapper, ())
        return t

    def _finish(self, t):
        if t.sentinel is not None:
            t.sentinel._force_release()
        t.state = "done"
        nxt = None
        if not self.aborting:
            nxt = self._next_runnable()
            if nxt is None:
                self.aborting = "deadlock: " + ", ".join(
                    f"thread{x.tid} waits for {x.why}" for x in self.threads if x.state == "block"
                )
        if nxt is None:
            nxt = self.threads[0]
            nxt.state = "run"
        else:
            self.sh.update(f"e{t.tid}>{nxt.tid};".encode())
        self.switches += 1
        _threads.pop(t.ident, None)
        nxt.gate.release()

    # -- running
    def run(self, fn):
        """Run fn(self) as simulated thread 0.  Returns (violation or None)."""
        global _active
        assert _active is None
        main = SimThread(0)
        self.threads = [main]
        ident = _real_get_ident()
        main.ident = ident
        was_gc = gc.isenabled()
        gc.disable()
        _active = self
        _threads[ident] = main
        viol = None
        try:
            if self.hook_lines:
                sys.settrace(_tracer)
            try:
                fn(self)
            except Violation as v:
                viol = v
            except SimAbort as a:
                if isinstance(a, WallHang):
                    viol = Violation("hang", f"no progress: {a}")
                else:
                    viol = Violation("hang", self.aborting or str(a))
            finally:
                sys.settrace(None)
            if viol is None and self.aborting:
                viol = Violation("hang", self.aborting)
        finally:
            sys.settrace(None)
            self._teardown(main)
            for c in reversed(self.cleanups):
                c()
            _threads.pop(ident, None)
            _threads.clear()
            _active = None
            if was_gc:
                gc.enable()
        if viol is not None:
            self.event("VIOLATION", viol.kind, viol.msg)
        return viol

    def _teardown(self, main):
        """Abort every other thread that is still alive, one at a time."""
        if not self.aborting:
            self.aborting = "teardown"
        main.abort_seen = True
        for t in self.threads[1:]:
            n = 0
            while t.state != "done":
                n += 1
                if n > 2000:
                    self.extra["leaked_threads"] = self.extra.get("leaked_threads", 0) + 1
                    break
                t.state = "run"
                main.state = "run"
                t.gate.release()
                if not main.gate.acquire(True, 5.0):
                    self.extra["leaked_threads"] = self.extra.get("leaked_threads", 0) + 1
                    break


def _tracer(frame, event, arg):
    if frame.f_code.co_filename.startswith(REPO_SRC):
        last = 0

        def line_tracer(frame, event, arg):
            nonlocal last
            # the interpreter reports some lines once or twice, depending on what ran before
            if event == "line" and frame.f_lineno != last:
                last = frame.f_lineno
                s = _active
                if s is not None:
                    s.point("line")
            return line_tracer

        return line_tracer
    return None


# --------------------------------------------------------------------------------------------- locks
class SimLock:
    """threading.Lock whose contention and wake-up order the simulator decides."""

    def __init__(self):
        self._real = _real_allocate()
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        s = _active
        me = _threads.get(_real_get_ident()) if s is not None else None
        if me is None:
            return self._real.acquire(blocking, timeout)
        if blocking:
            s.point("lock")
        if self._real.acquire(False):
            return True
        if not blocking:
            return False
        end = None if timeout is None or timeout < 0 else s.now + timeout
        while True:
            self._waiters.append(me)
            try:
                ok = s.block("lock", None if end is None else max(0.0, end - s.now))
            finally:
                if me in self._waiters:
                    self._waiters.remove(me)
            if self._real.acquire(False):
                return True
            if not ok:
                return False

    def release(self):
        self._real.release()
        self._after_release()

    def _after_release(self):
        s = _active
        if s is not None and _real_get_ident() in _threads:
            for t in self._waiters:
                s.wake(t)
            s.point("unlock")

    def _force_release(self):
        if self._real.locked():
            self._real.release()
        s = _active
        if s is not None:
            for t in self._waiters:
                s.wake(t)

    def locked(self):
        return self._real.locked()

    def _at_fork_reinit(self):
        self._real = _real_allocate()
        self._waiters = []

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock:
    """threading.RLock on top of SimLock."""

    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _real_get_ident()
        if self._owner == me:
            self._count += 1
            return True
        rc = self._block.acquire(blocking, timeout)
        if rc:
            self._owner = me
            self._count = 1
        return rc

    __enter__ = acquire

    def release(self):
        if self._owner != _real_get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __exit__(self, *a):
        self.release()

    def _release_save(self):
        if self._count == 0:
            raise RuntimeError("cannot release un-acquired lock")
        st = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._block.release()
        return st

    def _acquire_restore(self, st):
        self._block.acquire()
        self._count, self._owner = st

    def _is_owned(self):
        return self._owner == _real_get_ident()

    def _recursion_count(self):
        return self._count if self._owner == _real_get_ident() else 0

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner = None
        self._count = 0


def _start_new_thread(func, args, kwargs=None):
    s = sim()
    if s is None:
        return _real_start(func, args, kwargs or {})
    s.spawn_raw(func, args, kwargs)
    s.point("start")
    return 1


def _set_sentinel():
    me = cur()
    if me is None:
        return _real_sentinel()
    lk = SimLock()
    me.sentinel = lk
    return lk


# --------------------------------------------------------------------------------------------- clocks
def _time():
    s = sim()
    return real_time() if s is None else s.now + s.wall_offset


def _time_ns():
    s = sim()
    return int(real_time() * 1e9) if s is None else int((s.now + s.wall_offset) * 1e9)


def _mono():
    s = sim()
    return real_monotonic() if s is None else s.now


def _mono_ns():
    s = sim()
    return int(real_monotonic() * 1e9) if s is None else int(s.now * 1e9)


def _perf():
    s = sim()
    return real_perf() if s is None else s.now


def _of_now(real, at):
    """A time function whose default is the current time (argument number `at`)."""

    def f(*a):
        s = sim()
        if s is not None and (len(a) <= at or a[at] is None):
            now = s.now + s.wall_offset
            a = a[:at] + (now if real in (_real_gmtime, _real_localtime, _real_ctime) else _real_localtime(now),)
        return real(*a)

    return f


_real_gmtime, _real_localtime, _real_ctime = time.gmtime, time.localtime, time.ctime


def _sleep(secs):
    s = sim()
    if s is None:
        return real_sleep(secs)
    if secs < 0:
        raise ValueError("sleep length must be non-negative")
    s.sleep(secs)


_installed = False


def _stable_hash(cls):
    """Address-independent hashes, so that sets of these objects iterate in a repeatable order."""
    real_init = cls.__init__
    ctr = [0]

    def __init__(self, *a, **k):
        s = sim()
        if s is None:
            ctr[0] += 1
            self._dst_seq = ctr[0]
        else:
            s.objseq += 1
            self._dst_seq = s.objseq
        real_init(self, *a, **k)

    def __hash__(self):
        try:
            return self._dst_seq
        except AttributeError:
            return object.__hash__(self)

    cls.__init__ = __init__
    cls.__hash__ = __hash__


def install():
    """Patch the process.  Idempotent."""
    global _installed
    if _installed:
        return
    _installed = True
    for m in ("logging", "queue", "concurrent.futures", "concurrent.futures.thread", "subprocess", "edk2toollib"):
        if m in sys.modules:
            raise HarnessError(f"{m} imported before the simulator was installed")
    threading._start_new_thread = _start_new_thread
    _thread.start_new_thread = _start_new_thread
    threading._set_sentinel = _set_sentinel
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    threading._time = _mono
    _thread.allocate_lock = SimLock
    threading._active_limbo_lock = SimRLock()
    threading._shutdown_locks_lock = SimLock()
    threading.excepthook = lambda args: None
    time.time, time.time_ns, time.monotonic, time.monotonic_ns = _time, _time_ns, _mono, _mono_ns
    time.perf_counter, time.sleep, time.process_time = _perf, _sleep, _perf
    time.strftime, time.asctime = _of_now(time.strftime, 1), _of_now(time.asctime, 0)
    time.gmtime, time.localtime, time.ctime = (_of_now(f, 0) for f in (_real_gmtime, _real_localtime, _real_ctime))
    _stable_hash(threading.Thread)
    import concurrent.futures
    import concurrent.futures.process  # noqa: F401  (import everything lazily loaded now, not inside a run)
    import concurrent.futures.thread  # noqa: F401
    import queue

    _stable_hash(concurrent.futures.Future)
    queue.SimpleQueue = queue._PySimpleQueue
    queue.time = _mono
    import datetime

    real_dt = datetime.datetime

    class _Meta(type):
        def __instancecheck__(cls, obj):
            return isinstance(obj, real_dt)

        def __subclasscheck__(cls, c):
            return issubclass(c, real_dt)

    class datetime_(real_dt, metaclass=_Meta):
        @classmethod
        def now(cls, tz=None):
            s = sim()
            if s is None:
                return super().now(tz)
            # compiled extensions look the class up here and want an instance of it
            return cls.fromtimestamp(s.now + s.wall_offset, tz or datetime.timezone.utc).replace(tzinfo=tz)

        @classmethod
        def utcnow(cls):
            return cls.now()

        @classmethod
        def today(cls):
            return cls.now()

    datetime_.__name__ = "datetime"
    datetime_.__qualname__ = "datetime"
    datetime.datetime = datetime_
    import uuid

    real_uuid4 = uuid.uuid4

    def uuid4():
        s = sim()
        if s is None:
            return real_uuid4()
        if s.uuid_rng is None:
            s.uuid_rng = random.Random(1234567)
        return uuid.UUID(bytes=s.uuid_rng.randbytes(16), version=4)

    uuid.uuid4 = uuid4
