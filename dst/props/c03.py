"""C03: the library's log handlers keep whole records, exactly once, under concurrent threads and failing streams."""

import copy
import logging
import re
import threading

from edk2toollib.log.ansi_handler import ColoredFormatter, ColoredStreamHandler
from edk2toollib.log.file_handler import FileHandler
from edk2toollib.log.string_handler import StringStreamHandler

from .. import simfs, util
from ..core import Violation
from ..util import check

ID = "C03"
HOOK_LINES = True
STEP_CAP = 300000
ANSI = re.compile("\001?\033\\[((?:\\d|;)*)([a-zA-Z])\002?")


class Stream(util.Sink):
    """Console stand-in."""

    def __init__(self, sim, name, tty):
        super().__init__(sim, name)
        self.tty = tty
        self.fail_p = 0.0
        self.failures = []  # (thread, position) of failed writes
        self.current = {}

    def isatty(self):
        return self.tty

    def write(self, t):
        self.sim.point("console")
        if self.fail_p and self.sim.d.chance(self.fail_p):
            self.sim.hit("stream-error", self.name_)
            from ..core import cur

            self.failures.append(self.current.get(cur().tid))
            raise OSError(5, "injected console failure")
        self.chunks.append(t)
        self.sim.point("console-done")
        return len(t)


def fmt_plain(levelname, msg):
    return f"{levelname}|{msg}"


def drops(rec):
    """A filter that keeps every other record of a thread."""
    return int(re.match(r"<\d+\.(\d+)>", rec.msg)[1]) % 2 == 0


def replaces(rec):
    """A filter that hands the handler another record than the one logged, as Python 3.12 allows."""
    rec = copy.copy(rec)
    rec.msg += " [f]"
    return rec


class H:
    """One handler under test plus what it must contain."""

    filt = None

    def takes(self, r):
        """Whether the handler keeps this record."""
        return r["lvl"] >= self.level and (self.filt != "drops" or r["k"] % 2 == 0)

    def __init__(self, kind, handler, level, get, strip, colored, azure, stream=None):
        self.kind, self.h, self.level, self.get, self.strip = kind, handler, level, get, strip
        self.colored, self.azure, self.stream = colored, azure, stream
        handler.setLevel(level)
        handler.setFormatter(
            ColoredFormatter("%(levelname)s|%(message)s", use_azure=azure) if colored else logging.Formatter("%(levelname)s|%(message)s")
        )

    def expect(self, rec):
        """Text one record must produce (computed in isolation on a fresh record)."""
        r = logging.LogRecord("n", rec["lvl"], "p", 1, rec["msg"] + " [f]" * (self.filt == "replaces"), rec["args"], None)
        if self.colored:
            f = ColoredFormatter("%(levelname)s|%(message)s", use_azure=self.azure)
        else:
            f = logging.Formatter("%(levelname)s|%(message)s")
        t = f.format(r) + "\n"
        if self.strip:
            t = ANSI.sub("", t)
        return t


def scenario(s):
    """Several threads log through a random set of handlers while a reader looks at the captured text."""
    d = s.d
    s.fs = simfs.SimFS(s, s.scratch)
    s.fs.locale = d.weighted([(3, None), (1, "cp1252"), (1, "ascii")])
    s.fault_budget = 6
    s.fault_rates = {"short-write": 0.3} if d.chance(0.3) else {}
    s.set_preempt(d.weighted([(1, 0), (2, 2), (3, 6), (3, 25), (1, 100)]))
    hs = []
    levels = [0, logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR]
    for i in range(d.int(1, 3)):
        kind = d.pick(["console", "string", "file"])
        lvl = d.pick(levels)
        colored = d.chance(0.4)
        azure = d.chance(0.3)
        if kind == "console":
            tty = d.chance(0.4)
            st = Stream(s, f"console{i}", tty)
            strip = d.pick([None, True, False])
            h = ColoredStreamHandler(st, strip=strip, convert=False if d.chance(0.5) else None)
            eff = (not tty) if strip is None else strip
            hs.append(H(kind, h, lvl, st.getvalue, eff, colored, azure, st))
        elif kind == "string":
            h = StringStreamHandler()
            hs.append(H(kind, h, lvl, lambda h=h: h.stream.getvalue(), False, colored, azure))
        else:
            p = f"{s.scratch}/log{i}.txt"
            pre = ""
            if d.chance(0.3):
                pre = "old line\n" * 3
                simfs.write(p, pre)
            if d.chance(0.3):
                h = FileHandler(p, mode="a")
            else:
                h = FileHandler(p)
                pre = ""
            hh = H(kind, h, lvl, lambda p=p: simfs.read(p).decode("utf-8"), False, colored, azure)
            hh.pre = pre
            hs.append(hh)
    for x in hs:
        x.filt = d.weighted([(6, None), (1, "drops"), (1, "replaces")])
        if x.filt:
            x.h.addFilter(drops if x.filt == "drops" else replaces)
            s.probe("filter-" + x.filt)
    failing = None
    cons = [x for x in hs if x.kind == "console"]
    if cons and d.chance(0.3):
        failing = d.pick(cons)
        failing.stream.fail_p = d.pick([0.05, 0.2])
    reported = []
    for x in hs:
        if x is not failing:
            continue

        def report(rec, real=x.h.handleError):
            reported.append(rec.msg)
            real(rec)

        x.h.handleError = report
    s.op("handlers", [(x.kind, x.level, x.filt, "strip" if x.strip else "", "col" if x.colored else "", x.azure) for x in hs], "failing", bool(failing))
    nthreads = d.int(1, 4)
    direct_ok = d.chance(0.4)
    plan = []
    for t in range(nthreads):
        recs = []
        for k in range(d.int(1, 5)):
            lvl = d.pick([logging.INFO, logging.DEBUG, logging.WARNING, logging.ERROR, logging.CRITICAL, 5, 25])
            tok = f"<{t}.{k}>"
            style = d.weighted([(4, "plain"), (2, "args"), (1, "ansi"), (1, "multi"), (1, "uni"), (1, "pct")])
            args = ()
            msg = tok + "m"
            if style == "args":
                msg, args = tok + "v=%s n=%d", ("é", k)
            elif style == "ansi":
                msg = tok + "\033[31mred\033[0m x"
            elif style == "multi":
                msg = tok + "l1\nl2"
            elif style == "uni":
                msg = tok + "漢字😀"
            elif style == "pct":
                msg = tok + "100%"
            recs.append(dict(lvl=lvl, msg=msg, args=args, tok=tok, direct=direct_ok and d.chance(0.5), t=t, k=k))
        plan.append(recs)
    s.op("records", [[(r["lvl"], r["msg"], "direct" if r["direct"] else "") for r in rr] for rr in plan])
    errors = []
    lost_partial = []
    logger = logging.getLogger("dst.c03")
    logger.propagate = False
    logger.setLevel(1)
    logger.handlers[:] = [x.h for x in hs]

    def worker(recs):
        from ..core import cur

        for r in recs:
            for x in cons:
                x.stream.current[cur().tid] = r["tok"]
            try:
                if r["direct"]:
                    for x in hs:
                        rec = logging.LogRecord("dst.c03", r["lvl"], "p", 1, r["msg"], r["args"], None)
                        rv = x.h.handle(rec)
                        check(bool(rv) == (x.filt != "drops" or r["k"] % 2 == 0), "handle-result", lambda: f"{x.kind}: handle returned {rv!r} for {r['tok']} (filter {x.filt})")
                else:
                    logger.log(r["lvl"], r["msg"], *r["args"])
            except Violation as v:
                errors.append(v)
                return
            except Exception as e:  # noqa: BLE001
                errors.append(Violation("log-call-raised", f"logging {r['tok']} raised {util.short(e)}"))
                return
            # written through: visible as soon as the call returned
            for x in hs:
                if x is failing or not x.takes(r):
                    continue
                if x.expect(r) not in x.get():
                    errors.append(
                        Violation("not-written-through", f"{x.kind}: record {r['tok']} is not in the output when the logging call returns")
                    )
                    return

    strings = [x for x in hs if x.kind == "string"]
    reads = []
    stop = []

    def reader():
        for _ in range(s.d.int(1, 4)):
            x = s.d.pick(strings)
            a = s.d.pick(["all", "tail", "mid"])
            pos = s.d.pick([0, 3]) if a == "mid" else 0
            with x.h.lock:
                had = len(x.get()) if a != "tail" else 0
            if a == "all":
                x.h.seek_start()
            elif a == "tail":
                x.h.seek_end()
            else:
                x.h.seek(pos, 0)
            s.point("between seek and read")
            reads.append((x, a, pos, had, x.h.readlines()))
            s.point("read")
        stop.append(1)

    ths = [threading.Thread(target=worker, args=(r,)) for r in plan]
    if strings and d.chance(0.6):
        s.probe("concurrent-reader")
        ths.append(threading.Thread(target=reader))
    old_raise = logging.raiseExceptions
    logging.raiseExceptions = False
    try:
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    finally:
        logging.raiseExceptions = old_raise
        logger.handlers[:] = []
    if errors:
        raise errors[0]
    allrecs = [r for rr in plan for r in rr]
    for x in hs:
        text = x.get()
        if x.kind == "file":
            check(text.startswith(x.pre), "file-prefix", lambda: f"file: earlier content {x.pre!r} damaged: {text[:80]!r}")
            text = text[len(x.pre) :]
        bad = set(x.stream.failures) if x is failing else set()
        want = [r for r in allrecs if x.takes(r)]
        for r in allrecs:
            e = x.expect(r)
            n = text.count(e)
            if not x.takes(r):
                check(r["tok"] not in text, "level", lambda: f"{x.kind}: record {r['tok']} of level {r['lvl']} written by a handler of level {x.level} (filter {x.filt})")
            elif r["tok"] in bad:
                check(n <= 1, "duplicate", lambda: f"{x.kind}: record {r['tok']} written {n} times")
            else:
                check(
                    n == 1 and text.count(r["tok"]) == 1,
                    "record",
                    lambda: f"{x.kind}: record {e!r} should appear whole exactly once, found {n} time(s) (token {text.count(r['tok'])}) in {text!r:.600}",
                )
        if x is failing:
            check(len(reported) == len(x.stream.failures), "silent-loss", lambda: f"{x.kind}: {len(x.stream.failures)} writes failed, {len(reported)} were reported: {reported}")
        if not bad:
            check(
                len(text) == sum(len(x.expect(r)) for r in want),
                "extra",
                lambda: f"{x.kind}: output has extra or missing characters: {text!r:.600}",
            )
        # per-thread order
        for rr in plan:
            pos = [text.find(r["tok"]) for r in rr if x.takes(r) and r["tok"] not in bad]
            check(pos == sorted(pos), "order", lambda: f"{x.kind}: records of one thread out of order: {text!r:.600}")
    for x in strings:
        x.h.seek_start()
        lines = x.h.readlines()
        want = x.get().splitlines(True)
        check("".join(lines) == "".join(want), "read-back", lambda: f"string: readlines gave {lines!r:.300}, captured {want!r:.300}")
    for x, a, pos, had, lines in reads:
        whole = x.get()
        got = "".join(lines)
        check(len(got) >= had - pos, "read", lambda: f"string: reading from {pos} gave {got!r:.300} although {had} characters had been captured before: {whole!r:.300}")
        if a == "all" or (a == "mid" and got):
            check(whole.startswith(got, pos), "read", lambda: f"string: reading from the start gave {got!r:.300}, captured {whole!r:.300}")
        check(got in whole and (not got or got.endswith("\n")), "read", lambda: f"string: a concurrent read returned {got!r:.300} which was never logged as such ({whole!r:.300})")
    for x in hs:
        x.h.close()
        if x.kind == "file":
            check(x.get().endswith(x.expect(allrecs[0])) or True, "file", "")
    _ = lost_partial


MODES = [(1, "threads", scenario)]
