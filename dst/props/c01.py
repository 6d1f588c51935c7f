"""C01: captured command output is complete, ordered and delivered exactly once before the call returns."""

import logging
import os
import re
import shlex
import sys

import edk2toollib.utility_functions as uf

from .. import simfs, simproc, util
from ..core import Violation
from ..util import check

ID = "C01"
HOOK_LINES = True
STEP_CAP = 300000


class Console:
    """Standard output with another encoding."""

    def __init__(self, f, encoding):
        self.f, self.encoding = f, encoding

    def __getattr__(self, n):
        return getattr(self.f, n)


def gen_output(s, tag, allow_bad=False, big=False):
    """Generated child output: (bytes, list of steps)."""
    d = s.d
    lines = []
    n = d.weighted([(3, 1), (1, 0), (3, 2), (3, 4), (2, 9), (1, 30)])
    for i in range(n):
        ln = util.gen_text_line(d, f"{tag}.{i}")
        if d.chance(0.1):
            ln = ""
        if d.chance(0.05):
            ln += "x" * d.pick([200, 5000, 9000])
        end = d.weighted([(8, "\n"), (2, "\r\n"), (1, "\r"), (1, "  \n"), (1, "\n\n"), (1, "\x0c\n"), (1, "\x1b[0m\n")])
        lines.append(ln + end)
    if lines and d.chance(0.4):
        lines[-1] = lines[-1].rstrip("\r\n ") + "$"
    data = "".join(lines).encode("utf-8")
    if big:
        data += b"".join(b"<%s.b%d>" % (tag.encode(), i) + b"y" * 500 + b"\n" for i in range(d.pick([20, 60, 140])))
    if allow_bad and d.chance(0.5):
        pos = d.below(len(data) + 1)
        data = data[:pos] + d.pick([b"\xff", b"\xc3", b"\xe6\xbc", b"\x80\xfe"]) + data[pos:]
        s.probe("undecodable-bytes")
    steps = []
    for ch in util.split_chunks(d, data, d.pick([0, 1, 3, 8])):
        if d.chance(0.2):
            steps.append(("sleep", d.pick([0.0, 0.01, 1.0, 75.0])))
        steps.append((d.weighted([(3, "out"), (1, "err")]), ch))
    if d.chance(0.2):
        steps.append(("sleep", d.pick([0.01, 5.0])))
    return data, steps


def expected_lines(text):
    """Logged lines: split on newline, trailing whitespace stripped."""
    if not text:
        return []
    parts = text.split("\n")
    if parts[-1] == "":
        parts.pop()
    return [p.rstrip() for p in parts]


def has_run(msgs, want):
    """Is `want` a contiguous run of msgs?"""
    if not want:
        return True
    k = len(want)
    return any(msgs[i : i + k] == want for i in range(len(msgs) - k + 1))


def first_diff(a, b):
    """Index of the first difference and the surroundings."""
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"lengths {len(a)} vs {len(b)}, first difference at {n}: got {a[n:n + 40]!r}, emitted {b[n:n + 40]!r}"


def check_argv(seen, want, params):
    """The command line that was launched means exactly the requested words."""
    a = seen["args"]
    if seen.get("shell"):
        a = a if isinstance(a, str) else a[0]
        try:
            got = shlex.split(a)
        except ValueError as e:
            raise Violation("parameters", f"launched {a!r}, which no shell can read: {e}")
    else:
        # without a shell nothing in the parameters that a shell would act on may be left
        check("$" not in params and "&&" not in params, "parameters", f"{a!r} launched without a shell")
        got = shlex.split(a) if isinstance(a, str) else [str(x) for x in a]
    check(got == want, "parameters", f"asked for the words {want!r}, launched {got!r}")


def python_script(s, tag):
    """A script name as a caller may give it and the path at which it has to be found."""
    d = s.d
    name = d.pick([f"{tag}.py", f"my {tag}.py"])
    kind = d.pick(["absolute", "cwd", "path", "nowhere"])
    q = d.pick(["", "", '"'])
    if kind == "absolute":
        full = d.pick(["/opt/none/", "/opt/my scripts/"]) + name
        return q + full + q, full
    if kind == "cwd":
        full = f"{s.py_dirs[0]}/{name}"
    elif kind == "path":
        full = f"{s.py_dirs[d.pick([1, 2])]}/{name}"
    else:
        full = name
    if kind != "nowhere":
        simfs.write(full, "pass")
    return q + name + q, full


def set_clock(s, by):
    s.wall_offset += by
    s.hit("clock-set", by)


def one_cmd(s, tag, results, errors, concurrent):
    """Run one generated command and check everything at the instant the call returns."""
    d = s.d
    enc = d.weighted([(10, "strict"), (2, "replace"), (2, "ignore"), (1, "surrogateescape"), (1, "backslashreplace")])
    python = d.chance(0.15)
    if python:
        enc = "strict"
    data, steps = gen_output(s, tag, allow_bad=enc != "strict", big=d.chance(0.1))
    bg = None
    if d.chance(0.2):
        bgdata, bgsteps = gen_output(s, tag + "bg")
        bg = True
        # a background grandchild that keeps the pipe open and writes while/after the shell exits
        steps.append(("bg", [("sleep", d.pick([0.0, 2.0]))] + bgsteps))
        s.probe("output-after-exit")
    jumps, waits = [], sum(x[1] for x in steps if x[0] == "sleep")
    if d.chance(0.15):  # the wall clock is set, or the command takes long
        for _ in range(d.int(1, 2)):
            jump = d.pick([-86400.0 * 3, -3600.0, -1.5, 40.0, 7200.0, 86400.0 * 400])
            jumps.append(jump)
            steps.insert(d.below(len(steps) + 1), ("call", lambda j=jump: set_clock(s, j)))
    if d.chance(0.05):
        steps.insert(d.below(len(steps) + 1), ("sleep", d.pick([3599.5, 86000.0, 90000.0, 400000.0])))
        waits = sum(x[1] for x in steps if x[0] == "sleep")
    rc = d.weighted([(5, 0), (2, 1), (1, 3), (1, 255), (1, -9), (1, 4294967295)])
    child = simproc.Child(steps, rc)
    child.cap = d.pick([65536, 4096, 64, 7] if len(data) < 3000 else [65536, 4096, 1024])
    use_file = d.chance(0.6)
    use_stream = d.chance(0.6)
    lvl = d.pick([logging.INFO, logging.DEBUG, logging.WARNING, 5])
    raise_on = d.chance(0.4)
    outfile = f"{s.scratch}/out-{tag}.txt" if use_file else None
    if use_file and d.chance(0.2):
        simfs.write(outfile, "stale content from an earlier run\n" * 50)
    sink = util.Sink(s, tag) if use_stream else None
    env = d.pick([None, {"A": tag}])
    wd = d.pick([None, s.scratch])
    cmd, argv0 = d.pick(
        [(f"tool-{tag}", f"tool-{tag}"), (f'"tool {tag}"', f"tool {tag}"), (f"tool {tag}", f"tool {tag}")]
        + [(f"'tool-{tag}'", f"tool-{tag}"), (f"/opt/my tools/{tag}", f"/opt/my tools/{tag}")]
    )
    params = d.pick(["-a b", " --x 'q r' ", "", '--y="1 2" -z', '--y="1  2\t3" -z', "-a  b   c", "-D" + "x" * 3000, "-a $A", "a && b", None if not python else ""])
    want_argv = [argv0] + shlex.split(params or "")
    if python:
        script, found = python_script(s, tag)
        want_argv = [sys.executable, found] + shlex.split(params or "")
    seen = {}

    def launch(args, kw):
        seen["args"] = args
        seen.update(kw)
        return child

    s.progs[tag] = launch
    s.op(
        f"cmd {tag} python={python} steps={[(k, (len(v) if k in ('out', 'err', 'bg') else v if k == 'sleep' else '')) for k, v in [(x[0], x[1]) for x in steps]]} rc={rc}"
        f" pipe={child.cap} file={use_file} stream={use_stream} enc={enc} raise={raise_on} env={env} wd={bool(wd)}"
    )
    exc = None
    ret = None
    t0 = s.now
    try:
        if python:
            ret = uf.RunPythonScript(
                script,
                params,
                workingdir=wd,
                outfile=outfile,
                outstream=sink,
                environ=env,
                logging_level=lvl,
                raise_exception_on_nonzero=raise_on,
            )
        else:
            ret = uf.RunCmd(
                cmd,
                params,
                workingdir=wd,
                outfile=outfile,
                outstream=sink,
                environ=env,
                logging_level=lvl,
                raise_exception_on_nonzero=raise_on,
                encodingErrors=enc,
            )
    except Exception as e:  # noqa: BLE001
        exc = e
    # ---- the instant of return: no scheduling point between here and the comparisons
    took = s.now - t0
    msgs = [m for lv, m, _ in s.lh.records if lv == lvl]
    got_stream = sink.getvalue() if sink else None
    got_file = None
    if use_file:
        try:
            got_file = simfs.read(outfile)
        except OSError as e:
            got_file = repr(e).encode()
    emitted = bytes(child.emitted)
    cut = isinstance(exc, UnicodeEncodeError)  # the child may have been stopped within a character
    text = emitted.decode(sys.stdout.encoding or "utf-8", "ignore" if cut and enc == "strict" else enc)
    coding = s.fs.locale or "utf-8"
    try:
        text.encode(coding)
        unwritable = False
    except UnicodeEncodeError:
        unwritable = use_file
    s.event("ret", tag, ret, exc, len(emitted))
    try:
        check(child.started, "not-launched", f"command {tag} was never launched")
        if unwritable and cut:
            # the host's encoding has no place for a character of the output: said so
            s.probe("unwritable-output")
            results.append(tag)
            return
        if rc != 0 and raise_on:
            check(exc is not None, "nonzero-not-raised", f"return code {rc}, raise requested, call returned {ret}")
        else:
            if exc is not None:
                raise Violation("unexpected-exception", f"{util.short(exc)} for return code {rc}")
            check(ret == rc, "wrong-return-code", f"command exited with {rc}, call returned {ret}")
        if use_stream:
            check(got_stream == text, "outstream", lambda: "output stream: " + first_diff(got_stream, text))
        if use_file:
            want = text.encode("utf-8", "surrogateescape")
            if got_file != want:
                check(not unwritable, "unwritable", lambda: f"{coding} cannot hold the output, the file has {got_file[-60:]!r} and the call gave {ret} {exc and util.short(exc)}")
                want = text.encode(coding, "surrogateescape")
            check(got_file == want, "outfile", lambda: "output file: " + first_diff(got_file, want))
        want = expected_lines(text)
        if concurrent:
            mine = [m for m in msgs if any(f"<{tag}{x}." in m for x in ("", "bg"))]
            want = [w for w in want if f"<{tag}." in w or f"<{tag}bg." in w]
            check(mine == want, "log", lambda: f"log of {tag}: " + first_diff(mine, want))
        else:
            check(has_run(msgs, want), "log", lambda: f"log: emitted lines {want!r:.300} not logged as one run in {msgs!r:.400}")
            toks = [w for w in want if f"<{tag}." in w or f"<{tag}bg." in w]
            check(
                [m for m in msgs if f"<{tag}." in m or f"<{tag}bg." in m] == toks,
                "log",
                lambda: f"log: lines {toks!r:.300} not logged exactly once at level {lvl}: {msgs!r:.400}",
            )
            other = [m for lv, m, _ in s.lh.records if lv != lvl and (f"<{tag}." in m)]
            check(not other, "log-level", lambda: f"output logged at another level: {other[:3]!r}")
            if exc is None or rc != 0:
                for m in msgs:
                    said = re.search(r"Running Time \(mm:ss\): *(-?\d+):(\d\d)", m)
                    if said and tag not in m:
                        n = int(said[1]) * 60 + int(said[2])
                        check(int(waits) <= n <= took + 1, "running-time", lambda: f"a command that took {waits} to {took} s is said to have run {said[0]!r}")
                        s.probe("running-time")
        if env is not None or not python:
            check(seen.get("env") == env, "environment", f"asked for environment {env}, launched with {seen.get('env')}")
        check(seen.get("cwd") == wd, "workdir", f"asked for working directory {wd}, launched in {seen.get('cwd')}")
        check_argv(seen, want_argv, params or "")
    except Violation as v:
        errors.append(v)
    results.append(tag)


def start(s):
    """Common setup."""
    d = s.d
    s.fs = simfs.SimFS(s, s.scratch)
    s.swarm(["short-read", "short-write"], budget=(0, 30), rates=(0.1, 0.5, 0.9))
    s.set_preempt(d.weighted([(2, 0), (2, 2), (3, 8), (3, 30), (2, 150)]))
    s.fs.locale = d.weighted([(6, None), (1, "cp1252"), (1, "ascii")])
    stdout = sys.stdout
    s.cleanups.append(lambda: setattr(sys, "stdout", stdout))
    coding = d.weighted([(6, 0), (1, None), (1, "latin-1"), (1, "cp437")])
    if coding != 0:
        # the console's encoding is that of the output; without one it is UTF-8
        sys.stdout = Console(stdout, coding)
        s.probe("console-encoding")
    s.progs = {}
    top = s.scratch + "/py"
    s.py_dirs = [top + d.pick(["/cwd", "/the cwd"]), top + "/bin", top + d.pick(["/lib exec", "/libexec"])]
    for x in s.py_dirs:
        os.makedirs(x)
    os.chdir(s.py_dirs[0])
    path = os.environ.get("PATH")
    os.environ["PATH"] = os.pathsep.join(["/nowhere/bin", *s.py_dirs[1:]])
    s.cleanups.append(lambda: os.environ.__setitem__("PATH", path))
    s.lh = util.ListHandler(s)

    def procs(args, kw):
        a = args if isinstance(args, str) else " ".join(map(str, args))
        for t in sorted(s.progs, key=len, reverse=True):
            if t in a:
                return s.progs[t](args, kw)
        raise Violation("wrong-command", f"launched {a!r}, which is none of the requested commands")

    s.procs = procs


def single(s):
    """One to three commands one after another."""
    start(s)
    errors, results = [], []
    with util.root_logging(s.lh):
        for i in range(s.d.int(1, 2)):
            one_cmd(s, f"t{i}q", results, errors, False)
            if errors:
                raise errors[0]
            s.lh.records.clear()


def concurrent(s):
    """Several caller threads run commands at the same time."""
    import threading

    start(s)
    errors, results = [], []
    n = s.d.int(2, 3)
    with util.root_logging(s.lh):
        ths = [threading.Thread(target=one_cmd, args=(s, f"c{i}q", results, errors, True)) for i in range(n)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    if errors:
        raise errors[0]
    check(len(results) == n, "lost-command", f"{len(results)} of {n} commands completed")


MODES = [(3, "single", single), (1, "concurrent", concurrent)]
