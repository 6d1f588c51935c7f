"""Helpers shared by the property scenarios."""

import io
import logging
import traceback

from . import core
from .core import Violation


def repo_frames(e):
    """Does the traceback of e pass through the code under test?"""
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(core.REPO_SRC):
            return True
        tb = tb.tb_next
    return False


def short(e):
    """One-line rendering of an exception."""
    return f"{type(e).__name__}: {str(e)[:200]}"


def where(e):
    """Innermost code-under-test frame of an exception (for messages only)."""
    out = ""
    for f in traceback.extract_tb(e.__traceback__):
        if f.filename.startswith(core.REPO_SRC):
            out = f"{f.filename[len(core.REPO_SRC):]}:{f.name}"
    return out


def must(kind, fn, *a, **k):
    """Call code under test that must not raise."""
    try:
        return fn(*a, **k)
    except (Violation, core.HarnessError):
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation(kind, f"unexpected {short(e)} in {where(e) or 'harness'}") from e


def attempt(fn, *a, **k):
    """(value, None) or (None, exception)."""
    try:
        return fn(*a, **k), None
    except (Violation, core.HarnessError):
        raise
    except (Exception, Stop) as e:  # noqa: BLE001
        return None, e


def chain(e):
    """e and everything it was raised from."""
    seen = []
    while e is not None and e not in seen:
        seen.append(e)
        e = e.__cause__ or e.__context__
    return seen


def check(cond, kind, msg):
    """Raise a violation unless cond."""
    if not cond:
        raise Violation(kind, msg() if callable(msg) else msg)


class Stop(BaseException):
    """Injected failure that is not an Exception."""


class Sink(io.TextIOBase):
    """Caller-supplied text stream; its writes are preemption points and may fail on command."""

    def __init__(self, sim, name="sink", fail_at=None, exc=None):
        self.sim = sim
        self.chunks = []
        self.fail_at = fail_at
        self.exc = exc
        self.name_ = name
        self.n = 0
        self.failed = False
        self.once = False

    def writable(self):
        return True

    def write(self, t):
        self.sim.point("sink")
        self.n += 1
        if self.fail_at is not None and (self.n == self.fail_at if self.once else self.n >= self.fail_at):
            self.failed = True
            self.sim.hit("sink-write-error", self.name_)
            raise self.exc
        if not isinstance(t, str):
            raise TypeError("text sink got " + type(t).__name__)
        self.chunks.append(t)
        self.sim.point("sink-done")
        return len(t)

    def flush(self):
        self.sim.point("sink-flush")

    def __del__(self):
        """Nothing: the moment a finished thread drops its last reference is not the simulator's."""

    def getvalue(self):
        return "".join(self.chunks)


class ListHandler(logging.Handler):
    """Collects (level, message, thread id)."""

    def __init__(self, sim, fail_at=None, exc=None):
        super().__init__(0)
        self.sim = sim
        self.records = []
        self.fail_at = fail_at
        self.exc = exc
        self.n = 0
        self.failed = False

    def emit(self, rec):
        self.sim.point("log")
        self.n += 1
        if self.fail_at is not None and self.n >= self.fail_at:
            self.failed = True
            self.sim.hit("log-sink-error", "handler")
            raise self.exc
        self.records.append((rec.levelno, rec.getMessage(), core.cur().tid))


class root_logging:
    """Context: install only these handlers on the root logger."""

    def __init__(self, *handlers, level=1):
        self.handlers = handlers
        self.level = level

    def __enter__(self):
        r = logging.getLogger()
        self.old = (r.handlers[:], r.level, logging.raiseExceptions)
        r.handlers[:] = list(self.handlers)
        r.setLevel(self.level)
        logging.raiseExceptions = False
        logging.disable(logging.NOTSET)
        return self

    def __exit__(self, *a):
        r = logging.getLogger()
        r.handlers[:], level, logging.raiseExceptions = self.old
        r.setLevel(level)


UNI = "aZ09 é漢😀\t"


def gen_text_line(d, tok):
    """A unique line with odd content (no newline)."""
    body = "".join(d.pick(UNI) for _ in range(d.int(0, 6)))
    return f"<{tok}>{body}"


def split_chunks(d, data, maxparts):
    """Cut bytes at arbitrary positions."""
    if not data:
        return []
    n = d.int(0, maxparts)
    cuts = sorted(d.below(len(data) + 1) for _ in range(n))
    out, prev = [], 0
    for c in cuts + [len(data)]:
        if c > prev:
            out.append(data[prev:c])
            prev = c
    return out
