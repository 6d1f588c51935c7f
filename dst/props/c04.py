"""C04: colouring a record for one output never changes what any other output shows."""

import logging
import re
import threading
import types

import edk2toollib.log.ansi_handler as ansi_handler
from edk2toollib.log.ansi_handler import ColoredFormatter, ColoredStreamHandler
from edk2toollib.log.string_handler import StringStreamHandler

from .. import simfs, util
from ..util import check

ID = "C04"
HOOK_LINES = True
STEP_CAP = 200000


RED, GREEN, YELLOW, BLUE, CYAN, BRIGHTWHITE, RESET = 31, 32, 33, 34, 36, 97, 39
COLORS = {"WARNING": YELLOW, "INFO": CYAN, "DEBUG": BLUE, "CRITICAL": BRIGHTWHITE, "ERROR": RED, "STATUS": GREEN, "PROGRESS": GREEN, "SECTION": CYAN}
AZURE = {"CRITICAL": "section", "ERROR": "error"}
CSI = re.compile("\033\\[([0-9;]*)m")


def rendered(f, pat, rec):
    """What a formatter of this kind makes of a record that nobody else has touched."""
    name, msg = rec.levelname, str(rec.msg)
    if f == "colored" and name in COLORS:
        on, off = f"\033[{COLORS[name]}m", f"\033[{RESET}m"
        if rec.levelno < logging.WARNING:
            name = on + name + off
        else:
            name, msg = on + name, msg + off
    elif f == "azure" and name in AZURE:
        name = f"##[{AZURE[name]}]"
    if rec.args:
        msg = msg % rec.args
    out = pat.replace("%(levelname)s", name).replace("%(message)s", msg)
    if rec.exc_info:
        out += f"\n{rec.exc_info[0].__name__}: {rec.exc_info[1]}"
    return out


class Boom:
    """A message object whose rendering fails."""

    def __str__(self):
        raise ValueError("unprintable")


def formatter(f, pat):
    return logging.Formatter(pat) if f == "plain" else ColoredFormatter(pat, use_azure=True) if f == "azure" else ColoredFormatter(pat)


def scenario(s):
    """The same record objects pass through several handlers, in one or several threads; some fail to format."""
    d = s.d
    s.fs = simfs.SimFS(s, s.scratch)
    s.set_preempt(d.weighted([(1, 0), (3, 2), (3, 5), (2, 20)]))
    logging.addLevelName(25, "STATUS")
    logging.addLevelName(26, "PROGRESS")
    logging.addLevelName(45, "SECTION")
    hs = []
    for i in range(d.int(2, 4)):
        f = d.pick(["plain", "colored", "azure"])
        pat = d.pick(["%(levelname)s|%(message)s", "%(message)s", "[%(levelname)s] %(message)s"])
        if d.chance(0.5):
            h = StringStreamHandler()
            get = lambda h=h: h.stream.getvalue()  # noqa: E731
        else:
            st = util.Sink(s, f"s{i}")
            h = ColoredStreamHandler(st, strip=False, convert=False)
            get = st.getvalue
        fm = formatter(f, pat)
        if d.chance(0.25) and hs and hs[-1]["f"] == f and hs[-1]["pat"] == pat:
            fm = hs[-1]["fm"]  # one formatter object shared by two handlers
        h.setFormatter(fm)
        hs.append(dict(h=h, f=f, pat=pat, get=get, fm=fm))
    recs = []
    for k in range(d.int(1, 4)):
        lvl = d.pick([logging.INFO, logging.DEBUG, logging.WARNING, logging.ERROR, logging.CRITICAL, 25, 26, 45, 7])
        style = d.weighted([(4, "plain"), (2, "args"), (2, "badargs"), (1, "boom"), (1, "obj"), (1, "exc")])
        msg, args, exc = f"<{k}>msg", (), None
        if style == "args":
            msg, args = f"<{k}>a=%s b=%d", ("x", k)
        elif style == "badargs":
            msg, args = f"<{k}>a=%d", ("not a number",)
        elif style == "boom":
            msg = Boom()
        elif style == "obj":
            msg = ("tuple", k)
        elif style == "exc":
            exc = (ValueError, ValueError(f"e{k}"), None)
        recs.append(dict(lvl=lvl, msg=msg, args=args, exc=exc, style=style, k=k))
    s.op("handlers", [(x["f"], x["pat"]) for x in hs], "records", [(r["lvl"], r["style"]) for r in recs])

    def build(r):
        return logging.LogRecord("n", r["lvl"], "p", 1, r["msg"], r["args"], r["exc"])

    live = [build(r) for r in recs]
    before = [(r.levelname, r.msg, r.args, r.levelno, r.exc_info) for r in live]
    # fan-out: each handler is served by its own thread (as with queue listeners), or all by one
    if d.chance(0.6):
        groups = [[x] for x in hs]
        s.probe("one-thread-per-handler")
    else:
        groups = [hs]
    fails = []

    def serve(group):
        for i, rec in enumerate(live):
            for x in group:
                try:
                    x["h"].handle(rec)
                except BaseException as e:  # noqa: BLE001
                    fails.append((recs[i]["style"], util.short(e)))

    old = logging.raiseExceptions
    logging.raiseExceptions = False
    try:
        ths = [threading.Thread(target=serve, args=(g,)) for g in groups]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    finally:
        logging.raiseExceptions = old
    check(not fails, "handle-raised", lambda: f"handling a record raised: {fails[:3]}")
    for i, rec in enumerate(live):
        now = (rec.levelname, rec.msg, rec.args, rec.levelno, rec.exc_info)
        if recs[i]["style"] in ("badargs", "boom"):
            s.hit("format-failure", recs[i]["style"])
        check(
            now[0] == before[i][0] and now[1] is before[i][1] and now[2] == before[i][2],
            "record-changed",
            lambda: f"after handling, record {i} ({recs[i]['style']}) carries level name {now[0]!r} / message {str(now[1]) if not isinstance(now[1], Boom) else 'Boom'!r}"
            f" instead of {before[i][0]!r}",
        )
    for x in hs:
        want = ""
        for r in recs:
            try:
                want += rendered(x["f"], x["pat"], build(r)) + "\n"
            except Exception:  # noqa: BLE001
                pass
        got = x["get"]()
        if x["f"] == "plain":
            check("\033" not in got and "##[" not in got, "leak", lambda: f"plain output carries another output's colouring: {got!r:.300}")
        check(got == want, "output", lambda: f"{x['f']} output {got!r:.300} differs from what it should show: {want!r:.300}")


class Console:
    """A Windows console: the text on it with the attribute of every character."""

    def __init__(self, s, default, tty):
        self.s, self.attr, self.default, self.tty = s, default, default, tty
        self.cells = []
        self.calls = 0

    # the stream
    closed = False

    def isatty(self):
        return self.tty

    def write(self, t):
        self.s.point("console")
        self.cells += [(c, self.attr) for c in t]
        return len(t)

    def flush(self):
        pass

    # the API
    STDOUT, STDERR = -11, -12

    def winapi_test(self):
        return True

    def GetConsoleScreenBufferInfo(self, stream_id=-11):
        return types.SimpleNamespace(wAttributes=self.attr)

    def SetConsoleTextAttribute(self, stream_id, attrs):
        self.s.point("attribute")
        self.calls += 1
        self.attr = attrs
        return True


def painted(text, default):
    """[(character, attribute)] of a text with color codes on a console whose default attribute is given."""
    bgr = (0, 4, 2, 6, 1, 5, 3, 7)  # ANSI color number -> Windows color number
    fore, back, style, light = default & 7, default >> 4 & 7, default & 0x88, 0
    out, at = [], 0
    for m in [*CSI.finditer(text), None]:
        attr = fore | back << 4 | style | light
        out += [(c, attr) for c in text[at : m.start() if m else len(text)]]
        if m is None:
            return out, attr
        at = m.end()
        for p in (int(x) for x in m[1].split(";") if x):
            if 30 <= p <= 37 or 90 <= p <= 97:
                fore, light = bgr[p % 10], light & ~8 | 8 * (p >= 90)
            elif 40 <= p <= 47 or 100 <= p <= 107:
                back, light = bgr[p % 10], light & ~0x80 | 0x80 * (p >= 100)
            elif p == 39:
                fore, light = default & 7, light & ~8
            elif p == 49:
                back, light = default >> 4 & 7, light & ~0x80


def console(s):
    """One handler on a Windows console, used by several threads: every character in the color its record asks for."""
    d = s.d
    s.fs = simfs.SimFS(s, s.scratch)
    s.set_preempt(d.weighted([(1, 0), (3, 2), (3, 5), (2, 20)]))
    default = d.pick([7, 7, 0x1F, 0x70, 0x87, d.below(256)])
    con = Console(s, default, d.chance(0.8))
    ansi_handler.Win32Console = con
    ansi_handler.GetHostInfo = lambda: types.SimpleNamespace(os="Windows", arch="x86", bit="64")
    convert = d.pick([None, None, True, False])
    strip = d.pick([None, None, True, False])
    h = ColoredStreamHandler(con, strip=strip, convert=convert)
    eff = con.tty if convert is None else convert
    kept = not eff and strip is False
    f = d.pick(["colored", "colored", "plain", "azure"])
    pat = d.pick(["%(levelname)s|%(message)s", "%(message)s", "[%(levelname)s] %(message)s"])
    h.setFormatter(formatter(f, pat))
    plan = []
    for t in range(d.int(1, 3)):
        recs = []
        for k in range(d.int(1, 4)):
            lvl = d.pick([logging.INFO, logging.DEBUG, logging.WARNING, logging.ERROR, logging.CRITICAL, 7])
            msg = f"<{t}.{k}>m"
            for _ in range(d.weighted([(3, 0), (1, 1), (1, 2)])):
                codes = [d.pick([30, 90, 40, 100]) + d.below(8) for _ in range(d.int(1, 2))]
                msg += f"\033[{';'.join(map(str, codes))}m" + d.word(1, 3, "xy") + d.pick(["\033[39;49m", "\033[49m\033[39m"])
            recs.append((lvl, msg))
        plan.append(recs)
    s.op("console", default, con.tty, convert, strip, f, pat, plan)

    def build(lvl, msg):
        return logging.LogRecord("n", lvl, "p", 1, msg, (), None)

    fails = []

    def go(recs):
        for lvl, msg in recs:
            try:
                h.handle(build(lvl, msg))
            except BaseException as e:  # noqa: BLE001
                fails.append(util.short(e))

    ts = [threading.Thread(target=go, args=(r,)) for r in plan]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    check(not fails, "handle-raised", lambda: f"handling a record raised: {fails[:3]}")
    text = "".join(c for c, _ in con.cells)
    want = {}
    for recs in plan:
        for lvl, msg in recs:
            r = rendered(f, pat, build(lvl, msg))
            if kept:
                cells, end = [(c, default) for c in r], default
            elif eff:
                cells, end = painted(r, default)
            else:
                cells, end = [(c, default) for c in CSI.sub("", r)], default
            want[msg] = cells + [("\n", end)]
    left = dict(want)
    at = 0
    while at < len(con.cells):
        hit = next((m for m, c in left.items() if con.cells[at : at + len(c)] == c), None)
        check(hit is not None, "console", lambda: f"what is on the console from character {at} on is no record in its colors: {con.cells[at : at + 40]} (expected one of {list(left.values())[:2]})"[:600])
        at += len(left.pop(hit))
    check(not left, "console", lambda: f"records {list(left)} are not on the console: {text!r:.300}")
    check(con.attr == default, "console", lambda: f"the console is left with attribute {con.attr:#x} instead of {default:#x}")
    check(eff or not con.calls, "console", "a handler that does not convert changed the console's attribute")
    s.extra["nontrivial"] = True
    s.probe("console-converted" if eff else "console-plain")


MODES = [(3, "fanout", scenario), (1, "console", console)]
