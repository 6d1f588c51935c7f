"""C15: a JUnit report is well-formed, complete and truthful whatever was logged and whatever the clock did."""

import re
import threading
import xml.etree.ElementTree as ET

from .. import boot, simfs  # noqa: F401
from ..core import Violation
from ..util import attempt, check, short

from edk2toollib.log.junit_report_format import JunitReportTestCase, JunitTestReport

ID = "C15"
HOOK_LINES = True
STEP_CAP = 100000
BITS = ["a", "Z9", "<", ">", "&", '"', "'", "]]>", "&lt;", "é", "漢", "😀", " ", "\t", "\n", "\r\n", "<!--", "</testcase>", "=", "/", "%s", "{0}"]
BITS += [".", ",", ";", "#", "@", "\\", "`", "|", "$", "0", "-1", "None", "\x7f", "\x85", "\u2028", "\ufffd", "\U0010ffff", "&amp;", "&#60;", "<![CDATA[", "--", "?>", "  "]
ILLEGAL = ["\x00", "\x08", "\x1b[31m", "\x0b", "\ud800", "\ufffe", "\x1f"]
KEEP = re.compile(r"[^A-Za-z0-9<>&\"'\]!=/%{}é漢😀-]")


def text(d, n=5, illegal=False):
    out = "".join(d.pick(ILLEGAL) if illegal and d.chance(0.2) else d.pick(BITS) for _ in range(d.int(0, n)))
    return out


def norm(t, raw=False):
    """Visible characters only."""
    if raw:
        for x in ("\x1b[31m",):
            t = t.replace(x, "[31m")
    t = t.replace("[31m", "")
    return KEEP.sub("", t)


BAD = re.compile("[\x00-\x08\x0b\x0c\x0e-\x1f\ud800-\udfff\ufffe\uffff]")


def same(got, want):
    """Is `want` what the report holds? White space may differ in amount; what XML cannot hold may be replaced."""
    if BAD.search(want):
        return norm(got) == norm(want, True)
    return got.split() == want.split()


class Case:
    """Reference test case."""

    def __init__(self, s, suite, name, cls):
        self.s = s
        self.name, self.cls = name, cls
        self.born = s.now
        self.tc = suite.create_new_testcase(name, cls)
        self.alive = s.now
        self.status = None
        self.took = (0, 0)
        self.info = None
        self.out, self.err = "", ""


def step(s, c, illegal):
    """One action on a case."""
    d = s.d
    k = d.weighted([(3, "out"), (2, "err"), (4, "finish"), (2, "wait")])
    if k == "wait":
        s.advance(d.pick([0.5, 3.25, 3600.0, 0.00001, 86400.0 * 3]))
        if d.chance(0.4):
            j = d.pick([-7200.0, -1.0, 86400.0])
            s.wall_offset += j
            s.hit("clock-jump", j)
    elif k == "out":
        t = text(d, 6, illegal)
        if d.chance(0.04):  # a build log
            t = (t + "x<&>") * (d.geom(20000, 200000) // (len(t) + 4) + 1)
            s.probe("large-log")
        c.tc.LogStdOut(t)
        c.out += t + "\n"
    elif k == "err":
        t = text(d, 6, illegal)
        if d.chance(0.04):
            t = (t + "y\n&") * (d.geom(20000, 200000) // (len(t) + 4) + 1)
            s.probe("large-log")
        c.tc.LogStdError(t)
        c.err += t + "\n"
    else:
        how = d.pick(["success", "skipped", "failed", "error"])
        msg, typ = text(d, 5, illegal), text(d, 3, illegal)
        if d.chance(0.06):
            msg *= d.geom(400, 4000)
        fn = {"success": c.tc.SetSuccess, "skipped": c.tc.SetSkipped, "failed": c.tc.SetFailed, "error": c.tc.SetError}[how]
        args = (msg, typ) if how in ("failed", "error") else ()
        t0 = s.now
        _, err = attempt(fn, *args)
        if c.status is None:
            check(err is None, "set-fails", lambda: f"setting {how} raised {short(err)}")
            c.status, c.took, c.info = how, (t0 - c.alive, s.now - c.born), args
        else:
            check(err is not None, "set-twice", lambda: f"a {c.status} case was set to {how}")


def compare(s, path, suites):
    raw = simfs.read(path)
    s.event("report", raw[:1000])
    try:
        root = ET.fromstring(raw)
    except ET.ParseError as e:
        raise Violation("not-well-formed", f"{e}: {raw[:300]!r}") from None
    check(root.tag == "testsuites" and len(root) == len(suites), "suites", lambda: f"{len(root)} suites, expected {len(suites)}")
    check(len({x.get("id") for x in root}) == len(suites), "suite-ids", lambda: f"suite ids {[x.get('id') for x in root]}")
    for x, (name, pkg, cases) in zip(root, suites):
        check(same(x.get("name"), name) and same(x.get("package"), pkg), "suite-name", lambda: f"{x.attrib} for {name!r} {pkg!r}")
        n = {k: sum(1 for c in cases if c.status == k) for k in ("error", "failed", "skipped")}
        got = tuple(x.get(k) for k in ("tests", "errors", "failures", "skipped"))
        want = tuple(str(v) for v in (len(cases), n["error"], n["failed"], n["skipped"]))
        check(got == want, "counts", lambda: f"tests/errors/failures/skipped {got}, expected {want}")
        check(len(x) == len(cases), "cases", lambda: f"{len(x)} cases, expected {len(cases)}")
        left = list(x)
        for c in cases:
            e = left.pop(0)
            check(same(e.get("name"), c.name) and same(e.get("classname"), c.cls), "case-name", lambda: f"{e.attrib} for {c.name!r} {c.cls!r}")
            t = float(e.get("time"))
            check(c.took[0] - 1e-6 < t < c.took[1] + 1e-6, "time", lambda: f"a case that took {c.took[0]} s is reported with {t} s")
            kids = {k.tag for k in e}
            want = {"success": set(), "failed": {"failure"}, "error": {"error"}, "skipped": {"skipped"}}[c.status]
            check(kids == want | {"system-out", "system-err"}, "status", lambda: f"a {c.status} case is reported as {kids}")
            if c.info:
                k = e.find("failure" if c.status == "failed" else "error")
                check(same(k.get("message"), c.info[0]) and same(k.get("type"), c.info[1]), "message", lambda: f"{k.attrib} for {c.info}")
            k = e.find("skipped")
            if k is not None:
                check(same(k.text or "", c.out) or not (k.text or "").strip(), "log", lambda: f"skipped holds {k.text!r}, logged {c.out!r}")
            for tag, t in (("system-out", c.out), ("system-err", c.err)):
                check(same(e.find(tag).text or "", t), "log", lambda: f"{tag} holds {e.find(tag).text!r}, logged {t!r}")
            s.probe("case-" + c.status)


def run(s, faults, threads):
    d = s.d
    simfs.real["mkdir"](s.scratch + "/r")
    s.fs = simfs.SimFS(s, s.scratch + "/r")
    s.fs.locale = d.weighted([(3, None), (1, "cp1252"), (1, "ascii"), (1, "utf-16")])
    s.set_preempt(d.pick([3, 15]) if threads else 0)
    illegal = d.chance(0.3)
    rep = JunitTestReport()
    suites = []
    handles = []
    fails = []

    def fill(suite, cases, tag):
        try:
            last = None
            for i in range(d.int(0, 3) if d.chance(0.9) else d.int(4, 14)):
                name, cls = text(d, 3, illegal) + (f"n{tag}{i}" if d.chance(0.7) else ""), text(d, 3, illegal) * (1 if d.chance(0.97) else d.int(20, 300))
                if last and d.chance(0.2):
                    name, cls = last[0], last[1] if d.chance(0.6) else cls
                    s.probe("same-name")
                last = name, cls
                c = Case(s, suite, name, cls)
                with lock:
                    cases.append(c)
                for _ in range(d.int(0, 5)):
                    step(s, c, illegal)
                if c.status is None and d.chance(0.93):
                    t0 = s.now
                    c.tc.SetSuccess()
                    c.status, c.took = "success", (t0 - c.alive, s.now - c.born)
        except Violation as v:
            fails.append(v)

    lock = threading.Lock()
    path = s.scratch + "/r/report.xml"
    for phase in range(d.weighted([(2, 1), (1, 2), (1, 3)])):
        s.fault_rates = {}
        s.fs.capacity = None
        if phase:  # the session goes on after a report was written
            s.probe("report-continued")
            for (_, _, cases), su in zip(suites, handles):
                for c in cases:
                    if c.status is None and d.chance(0.7):
                        t0 = s.now
                        c.tc.SetSuccess()
                        c.status, c.took = "success", (t0 - c.alive, s.now - c.born)
                if d.chance(0.4):
                    fill(su, cases, f"p{phase}")
        ts = []
        for k in range(d.int(0, 3) if d.chance(0.95) else d.int(9, 14)):
            name, pkg = text(d, 4, illegal), text(d, 4, illegal)
            if suites and d.chance(0.15):
                name = suites[-1][0]
            cases = []
            su = rep.create_new_testsuite(name, pkg)
            suites.append((name, pkg, cases))
            handles.append(su)
            if threads:
                t = threading.Thread(target=fill, args=(su, cases, k))
                t.start()
                ts.append(t)
            else:
                fill(su, cases, k)
        for t in ts:
            t.join()
        if fails:
            raise fails[0]
        if faults:
            s.swarm(["open-eacces", "write-eio", "enospc", "close-eio"], (1, 1), (0.3, 1.0), 0.7)
            if d.chance(0.4):
                s.fs.capacity = d.geom(300, 3000)
        if d.chance(0.3):
            s.fault_rates["short-write"] = 0.3
        unfinished = any(c.status is None for x in suites for c in x[2])
        for _ in range(d.int(1, 2)):
            if d.chance(0.3):
                path = s.scratch + "/r/other.xml"
            f0 = s.fs.failed_ops
            _, err = attempt(rep.Output, path)
            check(not s.fs.open_files, "left-open", lambda: f"the report file is still open after {short(err) if err else 'success'}")
            if unfinished:
                check(err is not None, "unfinished", "a report with an unfinished case was written")
            elif err is not None:
                check(s.fs.failed_ops > f0, "raises", lambda: f"Output raised {short(err)}")
                check(isinstance(err, OSError), "raises", lambda: f"Output raised {short(err)}")
                s.fault_rates = {}
                s.fs.capacity = None
                _, err = attempt(rep.Output, path)
                check(err is None, "recover", lambda: f"writing again raised {short(err)}")
                compare(s, path, suites)
            else:
                check(s.fs.failed_ops == f0, "failure-hidden", "Output returned normally although writing failed")
                compare(s, path, suites)
    check(not s.fs.escapes, "escape", lambda: f"{s.fs.escapes[0]}")
    s.extra["nontrivial"] = True


MODES = [
    (4, "serial", lambda s: run(s, False, False)),
    (3, "faults", lambda s: run(s, True, False)),
    (2, "threads", lambda s: run(s, False, True)),
]
_ = JunitReportTestCase
