"""C05: each table generator is all-or-nothing whatever interrupts it; a retry recovers."""

import errno
import os

from .. import boot  # noqa: F401
from .. import dbscen, dbsim, simfs, wsgen
from ..core import Violation
from ..util import check, short

ID = "C05"
setup_worker = dbscen.setup_worker


def _start(s):
    w = dbscen.World(s, small=True, git_rate=0.08, stats=False)
    s.dbopts = {"spill": s.d.chance(0.5)}
    s.joblib_opts = {"shuffle": True}
    w.open()
    for _ in range(s.d.int(0, 1)):
        w.expect_success(w.gen_env(), "setup parse")
    return w


def _finish(s, w, env):
    """Faults stop: the same call must now succeed and describe the workspace."""
    dbsim.disarm(s)
    s.joblib_opts = {"shuffle": True}
    if s.d.chance(0.5):
        w.open(w.order)
    w.expect_success(env, "retry after failure")


def _check_failed(w, s, err, steps, commit_done):
    """State after a failed parse."""
    lo = max(0, w.entered - 1)
    hi = w.returned
    if err is not None and not commit_done:
        # the failing generator's own work must not be there
        hi = min(hi, w.entered - 1) if w.entered == w.returned else hi
    hi = max(hi, lo)
    k = w.classify(steps, lo, hi, f"parse stopped by {type(err).__name__} in generator {w.entered} of {len(w.order)}")
    if 0 < k < len(w.order):
        s.probe("failed-mid-parse")
    return k


def db_error(s):
    """A statement or commit fails."""
    d = s.d
    w = _start(s)
    env = w.gen_env()
    kind = d.pick(["locked", "ioerr", "full", "interrupt"])
    on = d.pick(["write", "stmt", "commit"])
    at = 1 + d.geom({"write": 12, "stmt": 25, "commit": 2}[on], 120)
    p = dbsim.arm(s, kind, at, on)
    err, steps = w.parse(env)
    if not p.fired:
        s.probe("fault-beyond-end")
        check(err is None, "parse-fails", lambda: f"no fault fired but {short(err)}")
        w.model = steps[-1]
        w.compare("parse")
        return
    if err is None:
        raise Violation("error-swallowed", f"parse returned normally although a {on} failed with {kind}")
    _check_failed(w, s, err, steps, False)
    _finish(s, w, env)


def crash(s):
    """The process dies; only what is on disk survives."""
    d = s.d
    w = _start(s)
    env = w.gen_env()
    on = d.pick(["write", "stmt", "commit", "committed"])
    at = 1 + d.geom({"write": 12, "stmt": 25, "commit": 2, "committed": 2}[on], 120)
    p = dbsim.arm(s, "crash", at, on)
    err, steps = w.parse(env)
    if not p.fired:
        s.probe("fault-beyond-end")
        return
    dbsim.disarm(s)
    if os.path.exists(w.db_path + ".crash-journal"):
        s.probe("hot-journal")
    order = w.order
    w.close()
    dbsim.recover(w.db_path)
    k = w.classify(
        steps, max(0, w.entered - 1), w.entered if on == "committed" else w.entered - 1, f"crash in generator {w.entered}"
    )
    if on == "committed":
        check(k == w.entered, "durability", f"generator {w.entered} was committed but is gone after the crash")
    w.open(order)
    _finish(s, w, env)


def io_error(s):
    """A file cannot be opened or read while a generator runs."""
    d = s.d
    w = _start(s)
    env = w.gen_env()
    s.fs.match = lambda p: p.endswith((".inf", ".dsc", ".fdf") + wsgen.SRC_EXT)
    kind = d.pick(["open-eio", "open-eacces", "read-eio"])
    s.fault_rates = {kind: d.pick([0.03, 0.1, 0.4])}
    s.fault_budget = 1
    n0 = s.faults.get(kind, 0)
    err, steps = w.parse(env)
    fired = s.faults.get(kind, 0) > n0
    s.fault_rates = {}
    if not fired:
        check(err is None, "parse-fails", lambda: f"no fault fired but {short(err)}")
        w.model = steps[-1]
        w.compare("parse")
        return
    if err is None:
        raise Violation("error-swallowed", f"parse returned normally although a file failed with {kind}")
    _check_failed(w, s, err, steps, False)
    _finish(s, w, env)


def worker_dies(s):
    """A pool worker dies."""
    d = s.d
    w = _start(s)
    env = w.gen_env()
    s.joblib_opts = {"shuffle": True, "die_at": d.below(8)}
    n0 = s.faults.get("worker-died", 0)
    err, steps = w.parse(env)
    if s.faults.get("worker-died", 0) == n0:
        check(err is None, "parse-fails", lambda: f"no fault fired but {short(err)}")
        return
    if err is None:
        raise Violation("error-swallowed", "parse returned normally although a worker died")
    _check_failed(w, s, err, steps, False)
    _finish(s, w, env)


def bad_input(s):
    """A file the build needs is missing or truncated when a generator reads it; then it is repaired."""
    d = s.d
    w = _start(s)
    env = w.gen_env()
    mods = [e[1] for e in w.ws.entries] or w.ws.comps
    m = d.pick(mods)
    victim = d.pick([f"{w.root}/{w.ws.dsc_path}", f"{w.root}/{w.ws.fdf_path}", f"{w.root}/{m.path}"])
    good = simfs.read(victim)
    how = d.pick(["gone", "undecodable"])
    if how == "gone":
        simfs.real["unlink"](victim)
    else:
        simfs.write(victim, good + b"\xff\xfe\x81[")
    s.hit("input-" + how, os.path.basename(victim))
    bad_ws = w.ws
    err, steps = w.parse(env)
    if err is None:
        s.probe("bad-input-not-needed")
        simfs.write(victim, good)
        return
    # generators before the failing one see the same files except the victim, which only they that read it fail on
    lo = max(0, w.entered - 1)
    if how == "gone" and m in bad_ws.comps + bad_ws.libs and victim.endswith(m.path) and "InfTable" in w.order[:lo]:
        s.probe("inf-table-without-victim")
        simfs.write(victim, good)
        return
    k = w.classify(steps, lo, lo, f"parse of a workspace with a broken file ({how})")
    if 0 < k < len(w.order):
        s.probe("failed-mid-parse")
    simfs.write(victim, good)
    _finish(s, w, env)


def reader(s):
    """Another process looks at the database while a parse runs: it sees whole generators only."""
    d = s.d
    w = _start(s)
    env = w.gen_env()
    looks = sorted({1 + d.geom(30, 200) for _ in range(2)})
    seen = []

    real_point = s.point

    def hook(why="pt"):
        if why == "db" and w.entered:
            s.extra["n_db"] = s.extra.get("n_db", 0) + 1
            if looks and s.extra["n_db"] >= looks[0]:
                looks.pop(0)
                dbsim.snapshot(w.db_path, w.db_path + ".look")
                dump = dbsim.dump(w.db_path + ".look")
                seen.append((w.entered, w.returned, dump))
                s.hit("concurrent-reader", f"gen {w.entered}")
        return real_point(why)

    s.point = hook
    try:
        err, steps = w.parse(env)
    finally:
        del s.point
    check(err is None, "parse-fails", lambda: f"{short(err)}")
    for entered, returned, dump in seen:
        diffs = []
        for k in range(max(0, entered - 1), returned + 1):
            df = steps[k].diff(dump)
            if df is None:
                break
            diffs.append(df)
        else:
            raise Violation("partial-update", f"a concurrent reader saw a partial generator {entered}: {diffs[-1]}")
    w.model = steps[-1]
    w.compare("parse")


def full_disk(s):
    """The database file cannot grow (real SQLITE_FULL)."""
    d = s.d
    w = _start(s)
    env = w.gen_env()
    order = w.order
    w.close()
    pages = os.path.getsize(w.db_path) // 512
    s.dbopts["max_pages"] = pages + d.below(12)
    w.open(order)
    err, steps = w.parse(env)
    if err is None:
        w.model = steps[-1]
        w.compare("parse")
        return
    s.hit("db-max-pages", "")
    _check_failed(w, s, err, steps, False)
    s.dbopts["max_pages"] = 1000000
    w.close()
    w.open(order)
    _finish(s, w, env)


MODES = [
    (5, "db-error", db_error),
    (5, "crash", crash),
    (3, "io-error", io_error),
    (2, "worker-dies", worker_dies),
    (2, "bad-input", bad_input),
    (2, "reader", reader),
    (1, "full-disk", full_disk),
]
_ = errno
