"""Runs single simulations, shrinks failing ones, writes and replays replay files."""

import errno
import fcntl
import gc
import importlib
import itertools
import json
import os
import random
import signal
import sys
import traceback

from . import boot, core, fresh, simfs  # noqa: F401,I001
import logging  # noqa: E402  (after the simulator)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, "evidence", "replays")
RUN_WALL = 40
_fresh = None


def load(prop):
    """Import a property module by id."""
    return importlib.import_module("dst.props." + prop.lower())


def grab_scratch(prefer):
    """Exclusive scratch base directory (stable path so that path-dependent hashes repeat)."""
    for k in range(200):
        base = prefer if k == 0 else f"{prefer}x{k}"
        os.makedirs(os.path.dirname(base), exist_ok=True)
        fd = os.open(base + ".lock", os.O_CREAT | os.O_RDWR)
        try:
            fcntl.flock(fd, fcntl.LOCK_EX | fcntl.LOCK_NB)
            if os.fstat(fd).st_ino == os.stat(base + ".lock").st_ino:  # else its last owner removed it just now
                os.makedirs(base, exist_ok=True)
                return base, fd
        except OSError:
            pass
        os.close(fd)
    raise core.HarnessError("no scratch directory available")


class Outcome:
    """Result of one simulated run."""

    __slots__ = ("viol", "hash", "shash", "rec", "sim", "mode", "wall", "harness")


def _alarm(sig, frm):
    raise core.WallHang("wall-clock watchdog")


def _exhausted(e, base):
    """Did the machine, not the simulation, run out of something?"""
    n = getattr(e, "errno", None)
    if n == errno.ENOSPC:
        v = os.statvfs(base)
        return v.f_bavail * v.f_frsize < 1 << 24 or (v.f_files > 0 and v.f_favail < 1000)
    return n in (errno.EMFILE, errno.ENFILE)


def _crash(e, scratch):
    """One line about an exception nobody expected."""
    at = [f"{os.path.basename(f.filename)}:{f.name}" for f in traceback.extract_tb(e.__traceback__)]
    return f"{type(e).__name__}: {e}".replace(scratch, "$S")[:300] + " in " + " < ".join(reversed(at[-3:]))


def run_one(mod, seed, base, replay=None, mode=None):
    """One simulated execution decided entirely by `seed` (or by a recorded choice list)."""
    import tempfile

    # Cyclic garbage is collected here and nowhere else: a collection at an arbitrary allocation would run weakref
    # callbacks (logging's take a lock) in the middle of the simulator's own lock operations.
    if gc.isenabled():
        gc.disable()
        gc.collect()
        gc.freeze()
    gc.collect()
    global _fresh
    if _fresh is None:
        _fresh = fresh.Fresh()
    _fresh.restore()
    scratch = os.path.join(base, "s")
    simfs.wipe(scratch)
    os.makedirs(scratch)
    d = core.Draws(seed, replay)
    s = core.Sim(d, scratch, seed, getattr(mod, "STEP_CAP", 400000), getattr(mod, "HOOK_LINES", False))
    s.fs = None
    s.procs = None
    modes = [(m[0], (m[1], m[2])) for m in mod.MODES]
    o = Outcome()
    o.sim = s
    o.harness = None
    random.seed(12345)
    logging.root.handlers.clear()  # what logging without any handler installs
    logging.root.manager._clear_cache()  # level caches would carry over from the previous run
    tempfile.tempdir = scratch
    tempfile._name_sequence = (f"n{i:06d}" for i in itertools.count())
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(RUN_WALL)
    t0 = core.real_perf()
    try:

        def body(sm):
            name, fn = sm.d.weighted(modes)
            if mode is not None:
                name, fn = next((n, f) for _, n, f in mod.MODES if n == mode)
            o.mode = name
            sm.event("mode", name)
            fn(sm)

        try:
            o.viol = s.run(body)
        except core.WallHang:
            o.viol = core.Violation("hang", "no progress: wall-clock watchdog")
        except (Exception, SystemExit) as e:
            o.viol = None
            if isinstance(e, (core.HarnessError, MemoryError)) or _exhausted(e, base):
                o.harness = "".join(traceback.format_exception(e))
            else:  # neither the code nor the reading of its results gets along with what the code did
                o.viol = core.Violation("crash", _crash(e, scratch))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        tempfile.tempdir = None
    o.wall = core.real_perf() - t0
    o.hash = s.h.hexdigest()
    o.shash = s.sh.hexdigest()
    o.rec = d.rec
    return o


def shrink(mod, o, base, budget_s=20.0, max_runs=1500, log=None):
    """Minimise the choice list of a failing run while the same violation class persists."""
    kind = o.viol.kind
    best = o
    t0 = core.real_perf()
    runs = [0]

    def ok():
        return core.real_perf() - t0 < budget_s and runs[0] < max_runs

    def attempt(cand):
        nonlocal best
        if not ok():
            return False
        runs[0] += 1
        r = run_one(mod, None, base, replay=cand)
        if r.harness is None and r.viol is not None and r.viol.kind == kind:
            rec = r.rec
            while rec and rec[-1] == 0:
                rec = rec[:-1]
            if (len(rec), sum(1 for x in rec if x), sum(rec)) < (
                len(best.rec),
                sum(1 for x in best.rec if x),
                sum(best.rec),
            ):
                r.rec = rec
                best = r
                return True
        return False

    attempt(list(best.rec))
    changed = True
    while changed and ok():
        changed = False
        n = len(best.rec)
        cut = n // 2
        while cut >= 1 and ok():
            if len(best.rec) > cut and attempt(best.rec[: len(best.rec) - cut]):
                changed = True
            else:
                cut //= 2
        for size in (64, 32, 16, 8, 4, 2, 1):
            i = 0
            while i < len(best.rec) and ok():
                c = best.rec[:i] + best.rec[i + size :]
                if attempt(c):
                    changed = True
                else:
                    i += size
        for size in (16, 4, 1):
            i = 0
            while i < len(best.rec) and ok():
                blk = best.rec[i : i + size]
                if any(blk):
                    c = best.rec[:i] + [0] * len(blk) + best.rec[i + size :]
                    if attempt(c):
                        changed = True
                i += size
        i = 0
        while i < len(best.rec) and ok():
            v = best.rec[i]
            for nv in (1, v // 2, v - 1):
                if 0 <= nv < v and i < len(best.rec) and best.rec[i] == v:
                    if attempt(best.rec[:i] + [nv] + best.rec[i + 1 :]):
                        changed = True
                        break
            i += 1
    # a final run from the minimal list so that the hashes belong to it
    fin = run_one(mod, None, base, replay=list(best.rec))
    if fin.viol is not None and fin.viol.kind == kind:
        fin.rec = list(best.rec)
        return fin, runs[0]
    return o, runs[0]


def write_replay(mod, seed, o, base, name, orig_len, shrink_runs):
    """Write the replay file."""
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, name)
    with simfs.real_open(path, "w") as f:
        json.dump(
            {
                "property": mod.ID,
                "seed": seed,
                "mode": o.mode,
                "hashseed": os.environ.get("PYTHONHASHSEED", ""),
                "scratch": base,
                "violation": {"kind": o.viol.kind, "message": o.viol.msg},
                "loghash": o.hash,
                "choices": o.rec,
                "original_choices": orig_len,
                "shrink_runs": shrink_runs,
                "trace": o.sim.ops,
                "log_tail": o.sim.log[-80:],
            },
            f,
            indent=1,
        )
    return path


def replay_file(path):
    """Replay a file in this (fresh) process.  Returns (same, outcome, recorded)."""
    with simfs.real_open(path) as f:
        r = json.load(f)
    mod = load(r["property"])
    base, fd = grab_scratch(r["scratch"])
    try:
        if hasattr(mod, "setup_worker"):
            mod.setup_worker(base)
        o = run_one(mod, None, base, replay=list(r["choices"]))
    finally:
        simfs.wipe(base)
        os.close(fd)
        try:
            simfs.real["unlink"](base + ".lock")
        except OSError:
            pass
    same = (
        o.viol is not None
        and o.viol.kind == r["violation"]["kind"]
        and o.viol.msg == r["violation"]["message"]
        and o.hash == r["loghash"]
    )
    return same, o, r


def main_worker(argv):
    """Worker entry: explore seeds start, start+stride, ... and print JSON lines."""
    prop, vseed, start, stride, count, deadline, tier, base = argv
    start, stride, count = int(start), int(stride), int(count)
    deadline = float(deadline)
    mod = load(prop)
    out = os.fdopen(os.dup(1), "w")

    def emit(**k):
        out.write(json.dumps(k) + "\n")
        out.flush()

    t0 = core.real_perf()
    base, lockfd = grab_scratch(base)
    devnull = os.open("/dev/null", os.O_RDWR)
    os.dup2(devnull, 1)
    if not os.environ.get("DST_STDERR"):
        os.dup2(devnull, 2)
    if hasattr(mod, "setup_worker"):
        mod.setup_worker(base)
    st = {
        "runs": 0,
        "steps": 0,
        "switches": 0,
        "preempts": 0,
        "sim_s": 0.0,
        "faults": {},
        "probes": {},
        "modes": {},
        "mismatch": [],
        "audited": 0,
        "leaked": 0,
        "known": {},
    }
    hashes, scheds = {}, set()
    nontriv = set()
    samples = []
    audit_every = int(os.environ.get("DST_AUDIT", "12"))
    known = load_known(prop)
    want = os.environ.get("DST_ONLY")
    try:
        i = start
        done = 0
        while done < count and core.real_perf() - t0 < deadline:
            seed = f"{vseed}:{prop}:{i}"
            if want is not None:
                seed = want
            o = run_one(mod, seed, base)
            if o.harness is not None:
                emit(harness=o.harness, seed=seed)
                return
            s = o.sim
            st["runs"] += 1
            st["steps"] += s.steps
            st["switches"] += s.switches
            st["preempts"] += s.preempts
            st["sim_s"] += s.now - s.start_now
            st["leaked"] += s.extra.get("leaked_threads", 0)
            for k, v in s.faults.items():
                st["faults"][k] = st["faults"].get(k, 0) + v
            for k, v in s.probes.items():
                st["probes"][k] = st["probes"].get(k, 0) + v
            st["modes"][o.mode] = st["modes"].get(o.mode, 0) + 1
            hashes[seed] = o.hash
            scheds.add(o.shash)
            if s.faults or s.preempts or s.switches or s.extra.get("nontrivial"):
                nontriv.add(o.hash)
            if len(samples) < 2 and (s.faults or s.preempts) and o.viol is None:
                samples.append({"seed": seed, "mode": o.mode, "trace": s.ops[:40]})
            if o.viol is not None:
                kf = match_known(known, o.viol)
                if kf is not None:
                    st["known"][kf] = st["known"].get(kf, 0) + 1
                else:
                    hung = "watchdog" in o.viol.msg or s.extra.get("leaked_threads")
                    n0 = len(o.rec)
                    if hung or os.environ.get("DST_NOSHRINK"):
                        so, nr = o, 0
                    else:
                        so, nr = shrink(mod, o, base, 15.0 if tier == "quick" else 60.0)
                    path = write_replay(mod, seed, so, base, f"{prop}-{i}.json", n0, nr)
                    emit(viol={"kind": so.viol.kind, "msg": so.viol.msg, "seed": seed, "replay": path, "hung": bool(hung)})
                    break
            elif audit_every and done % audit_every == 0:
                st["audited"] += 1
                o2 = run_one(mod, seed, base)
                if o2.hash != o.hash or o2.shash != o.shash:
                    st["mismatch"].append(seed)
            if s.extra.get("leaked_threads", 0):
                emit(note=f"leaked threads in {seed}: restarting worker is advised")
            done += 1
            i += stride
            if done % 20 == 0:
                emit(hb=done)
    finally:
        try:
            simfs.wipe(base)
            simfs.real["unlink"](base + ".lock")
        except OSError:
            pass
    st["wall"] = core.real_perf() - t0
    emit(stats=st, hashes=list(hashes.items())[:400], nscheds=len(scheds), scheds=list(scheds)[:20000], nontriv=list(nontriv), samples=samples)


def known_path():
    """The committed known-findings file."""
    return os.path.join(VERIF, "KNOWN_FINDINGS.json")


def load_known(prop):
    """Recorded findings of one property that are not fixed."""
    try:
        with simfs.real_open(known_path()) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [e for e in data.get("findings", []) if e["property"] == prop]


def match_known(known, viol):
    """Id of the listed finding this violation is, if any."""
    import re

    for e in known:
        if e["kind"] == viol.kind and re.search(e["match"], viol.msg):
            return e["id"]
    return None


if __name__ == "__main__":
    _out = os.fdopen(os.dup(1), "w")
    try:
        main_worker(sys.argv[1:])
    except BaseException:  # noqa: BLE001
        _out.write(json.dumps({"harness": traceback.format_exc(), "seed": "-"}) + "\n")
        _out.flush()
        os._exit(3)
    sys.stdout.flush()
    os._exit(0)
