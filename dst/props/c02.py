"""C02: running a command never hangs and never hides a failure."""

import logging

import edk2toollib.utility_functions as uf

from .. import simfs, simproc, util
from ..core import Violation
from ..util import check
from .c01 import gen_output

ID = "C02"
HOOK_LINES = True
STEP_CAP = 300000


class SinkError(OSError):
    """Injected failure of a caller-supplied stream."""


class LogError(RuntimeError):
    """Injected failure of a log handler."""


def failure(d, usual):
    """What a caller's stream or handler may raise."""
    return d.weighted(
        [
            (4, usual),
            (1, ValueError("I/O operation on closed file.")),
            (1, BrokenPipeError(32, "injected broken pipe")),
            (1, InterruptedError(4, "injected interrupt")),
            (1, BlockingIOError(11, "injected would-block")),
            (1, OSError(28, "injected full device")),
            (1, UnicodeEncodeError("ascii", "\xe9", 0, 1, "injected")),
            (1, TypeError("injected type error")),
            (1, AttributeError("injected attribute error")),
            (1, StopIteration("injected stop")),
            (1, EOFError("injected end")),
            (1, util.Stop("injected stop")),
        ]
    )


def big(d, tag):
    """Output larger than any pipe of the run."""
    n = d.pick([3, 40, 300])
    return b"".join(b"<%s.%d> %s\n" % (tag.encode(), i, b"z" * d.pick([20, 400])) for i in range(n))


def scenario(s):
    """One to three commands, each with at most one kind of failure armed."""
    d = s.d
    s.fs = simfs.SimFS(s, s.scratch)
    s.set_preempt(d.weighted([(2, 0), (2, 3), (3, 20), (2, 150)]))
    s.fault_budget = 1000
    for i in range(d.int(1, 2)):
        tag = f"f{i}q"
        what = d.weighted(
            [
                (2, "none"),
                (3, "uncaptured"),
                (3, "sink"),
                (3, "decode"),
                (2, "nofile"),
                (3, "disk"),
                (2, "log"),
                (2, "launch"),
                (1, "cwd"),
            ]
        )
        s.fault_rates = {}
        s.fs.capacity = None
        data = big(d, tag)
        if what == "decode":
            pos = d.below(len(data))
            data = data[:pos] + d.pick([b"\xff", b"\xc3(", b"\xe6\xbc\n"]) + data[pos:]
        steps = []
        for ch in util.split_chunks(d, data, d.pick([0, 2, 6])):
            if d.chance(0.2):
                steps.append(("sleep", d.pick([0.01, 3.0])))
            steps.append((d.pick(["out", "err"]), ch))
        rc = d.pick([0, 0, 2])
        child = simproc.Child(steps, rc, ignore_sigpipe=d.chance(0.3))
        child.cap = d.pick([65536, 4096, 512])
        raise_on = d.chance(0.3)
        capture = what != "uncaptured"
        outfile = None
        sink = None
        lh = util.ListHandler(s)
        expect = None
        cwd = d.pick([None, s.scratch])
        use_file = d.chance(0.5)
        if use_file and capture:
            outfile = f"{s.scratch}/o{i}.txt"
        if d.chance(0.5) and capture:
            sink = util.Sink(s, tag)
        if what == "sink":
            expect = failure(d, SinkError(5, "injected sink failure"))
            sink = util.Sink(s, tag, fail_at=d.int(1, 6), exc=expect)
            sink.once = d.chance(0.5)
        elif what == "log":
            expect = failure(d, LogError("injected log failure"))
            lh = util.ListHandler(s, fail_at=None, exc=expect)
            lh.arm = d.int(1, 4)
        elif what == "nofile":
            outfile = f"{s.scratch}/missing/dir/o.txt"
            expect = OSError
        elif what == "disk":
            outfile = f"{s.scratch}/o{i}.txt"
            k = d.pick(["cap", "write-eio", "close-eio", "open-eio"])
            if k == "cap":
                s.fs.capacity = d.below(len(data) + 1)
            else:
                s.fault_rates = {k: 0.5}
            expect = OSError
        elif what == "launch":
            expect = PermissionError(13, "injected launch failure")
        elif what == "cwd":
            cwd = f"{s.scratch}/no-such-dir"
            expect = FileNotFoundError

        def procs(args, kw, what=what, child=child, expect=expect):
            if what == "launch":
                s.hit("launch-failure", "popen")
                raise expect
            return child

        s.procs = procs
        s.op(
            f"cmd {tag} failure={what} bytes={len(data)} chunks={len(steps)} pipe={child.cap} rc={rc} raise={raise_on} file={outfile}"
            f" stream={bool(sink)} ignore_sigpipe={child.ignore_sigpipe} capacity={s.fs.capacity} faults={s.fault_rates}"
        )
        if what == "log":
            # fail only once output lines flow (not on the banner)
            orig = lh.emit

            def emit(rec, lh=lh, orig=orig):
                if f"<{tag}." in rec.getMessage():
                    lh.arm -= 1
                    if lh.arm <= 0:
                        lh.failed = True
                        s.hit("log-sink-error", "handler")
                        raise lh.exc
                orig(rec)

            lh.emit = emit
        base_failed = s.fs.failed_ops
        with util.root_logging(lh):
            ret, exc = util.attempt(
                uf.RunCmd,
                "tool-" + tag,
                "-x",
                capture=capture,
                workingdir=cwd,
                outfile=outfile,
                outstream=sink,
                logging_level=logging.INFO,
                raise_exception_on_nonzero=raise_on,
            )
        s.event("ret", tag, ret, util.short(exc) if exc else None)
        s.fault_rates = {}
        s.fs.capacity = None
        fired = (
            (what == "sink" and sink.failed)
            or (what == "log" and lh.failed)
            or what in ("nofile", "launch", "cwd")
            or what == "decode"
            or (what == "disk" and s.fs.failed_ops > base_failed)
        )
        if what == "uncaptured" and len(data) > child.cap:
            s.probe("uncaptured-larger-than-pipe")
            s.hit("unread-large-output", tag)
        if fired:
            s.probe("failure-" + what)
            if what in ("decode", "nofile", "cwd"):
                s.hit(what, tag)
            check(
                exc is not None,
                "failure-hidden",
                lambda: f"{what} failure but the call returned {ret} as if everything had been delivered",
            )
            if what == "decode":
                good = any(isinstance(e, UnicodeError) for e in util.chain(exc))
            elif isinstance(expect, BaseException):
                good = any(e is expect for e in util.chain(exc))
            else:
                good = any(isinstance(e, OSError) for e in util.chain(exc))
            check(good, "failure-replaced", lambda: f"{what} failure surfaced as {util.short(exc)}")
        elif rc != 0 and raise_on:
            check(exc is not None, "failure-hidden", f"return code {rc} with raise requested returned {ret}")
        else:
            if exc is not None:
                raise Violation("unexpected-exception", f"{what}: {util.short(exc)}")
            check(ret == rc, "wrong-return-code", f"command exited with {rc}, call returned {ret}")
        # bounded liveness once the failure is reported: the next iteration runs a fresh command
    check(not s.fs.open_files, "open-file-left", lambda: f"output files still open after the call: {list(s.fs.open_files.values())}")


MODES = [(1, "failures", scenario)]
_ = gen_output
