"""C08: RemoveTree removes the whole tree or reports failure, and never touches anything outside it."""

import errno
import os
import pathlib
import stat
import threading

from .. import boot, core, simfs  # noqa: F401
from ..util import attempt, check, root_logging, short

import edk2toollib.utility_functions as uf

ID = "C08"
HOOK_LINES = True
STEP_CAP = 200000


def build(s, root, outside):
    """A generated tree; returns (number of unreadable dirs, has read-only dirs)."""
    d = s.d
    todo = []
    n = [0]
    locked = [0, 0]
    dirs = [root]
    simfs.real["mkdir"](root)
    for _ in range(d.int(0, 12)):
        parent = d.pick(dirs)
        n[0] += 1
        p = f"{parent}/" + d.pick(["f", "d", "x y", "é", "-r"]) + str(n[0])
        kind = d.weighted([(4, "file"), (3, "dir"), (2, "link-file"), (1, "link-dir"), (1, "link-dead"), (1, "link-in")])
        if kind == "file":
            simfs.write(p, b"x")
            todo.append((p, d.pick([0o644, 0o444, 0o000])))
        elif kind == "dir":
            simfs.real["mkdir"](p)
            dirs.append(p)
            m = d.weighted([(6, 0o755), (1, 0o000), (1, 0o555)])
            if m == 0:
                locked[0] += 1
            if m == 0o555:
                locked[1] += 1
            todo.append((p, m))
        else:
            t = {
                "link-file": d.pick(outside["files"]),
                "link-dir": d.pick(outside["dirs"]),
                "link-dead": "/nonexistent/x",
                "link-in": d.pick(dirs),
            }[kind]
            simfs.real["symlink"](t, p)
    if d.chance(0.08):
        todo.append((root, 0o000))
        locked[0] += 1
    for p, m in reversed(todo):
        simfs.real["chmod"](p, m)
    return locked


def modes(root, skip):
    """{path: (mode, content)} of everything below root except skip."""
    out = {}

    def walk(p):
        if p == skip:
            return
        st = os.lstat(p)
        if stat.S_ISLNK(st.st_mode):
            out[p] = ("link", simfs.real["readlink"](p))
        elif stat.S_ISDIR(st.st_mode):
            out[p] = ("dir", stat.S_IMODE(st.st_mode))
            for n in sorted(simfs.real["listdir"](p)):
                walk(f"{p}/{n}")
        else:
            out[p] = ("file", stat.S_IMODE(st.st_mode), simfs.read(p))

    walk(root)
    return out


class Dac:
    """Permission checks of an ordinary user who owns everything, plus one-shot faults."""

    def __init__(self, s):
        self.s = s
        self.kinds = {}
        self.budget = 0
        self.fired = 0
        self.on = True

    def mode(self, p):
        try:
            st = os.lstat(p)
        except OSError:
            return 0o777
        return st.st_mode if stat.S_ISDIR(st.st_mode) else 0o777

    def __call__(self, op, p):
        if not self.on or core.sim() is not self.s:
            return
        base = op.split(":")[0]
        if self.budget and base in self.kinds and self.s.d.chance(0.15):
            self.budget -= 1
            self.fired += 1
            no = self.s.d.pick(self.kinds[base])
            self.s.hit(f"{base}-{errno.errorcode[no].lower()}", os.path.basename(p))
            raise OSError(no, os.strerror(no), p)
        if base in ("unlink", "remove", "rmdir", "mkdir") and self.mode(os.path.dirname(p)) & 0o300 != 0o300:
            self.s.hit("dac-parent", "")
            raise OSError(errno.EACCES, "Permission denied", p)
        if base in ("os.open", "scandir", "listdir") and self.mode(p) & 0o500 != 0o500:
            self.s.hit("dac-read", "")
            raise OSError(errno.EACCES, "Permission denied", p)


def run(s, rival):
    d = s.d
    top = s.scratch + "/t"
    simfs.real["mkdir"](top)
    s.fs = simfs.SimFS(s, top, permute=True)
    out = {"files": [], "dirs": []}
    for i in range(2):
        p = f"{top}/keep{i}"
        simfs.real["mkdir"](p)
        out["dirs"].append(p)
        for j in range(2):
            simfs.write(f"{p}/k{j}", b"keep %d" % j)
            simfs.real["chmod"](f"{p}/k{j}", d.pick([0o644, 0o400, 0o755]))
            out["files"].append(f"{p}/k{j}")
    root = top + "/victim"
    unread, ro = build(s, root, out)
    what = d.weighted([(10, "dir"), (1, "link"), (1, "file"), (1, "missing")])
    arg = root
    if what == "link":
        arg = top + "/alias"
        simfs.real["symlink"](d.pick(out["dirs"]), arg)
    elif what == "file":
        arg = out["files"][0]
    elif what == "missing":
        arg = top + "/none"
    before = modes(top, root if what == "dir" else None)
    dac = Dac(s)
    s.fs.on_op = dac
    if d.chance(0.6):
        menu = {
            "unlink": [errno.EACCES, errno.EBUSY, errno.EIO],
            "rmdir": [errno.EBUSY, errno.EACCES],
            "os.open": [errno.EMFILE, errno.EACCES],
            "scandir": [errno.EACCES, errno.EIO],
            "chmod": [errno.EPERM],
        }
        dac.kinds = {k: menu[k] for k in d.subset(sorted(menu), 0.6)}
        dac.budget = d.int(1, 5)
    ign = d.chance(0.2)
    form = d.pick(["str", "path", "slash"])
    if what == "link" and form == "slash":
        form = "str"
    v = pathlib.Path(arg) if form == "path" else arg + "/" if form == "slash" else arg
    s.op("remove", what, form, ign, unread, ro)
    rival = rival and what == "dir"
    if rival:
        s.set_preempt(d.pick([3, 10, 40]))
        how = d.pick(["same", "adder", "cleaner"])
        s.probe("rival-" + how)
        stop = []
        added = [0]

        def other():
            if how == "same":
                attempt(uf.RemoveTree, root)
                return
            for _ in range(d.int(1, 12)):
                s.point("rival")
                if stop:
                    return
                ds = [x for x in (root, *(f"{root}/{n}" for n in _names(root))) if os.path.isdir(x) and not os.path.islink(x)]
                if not ds:
                    return
                t = d.pick(ds)
                try:
                    if how == "adder":
                        added[0] += 1
                        with simfs.real_open(f"{t}/new{added[0]}", "x"):
                            pass
                    else:
                        for n in _names(t):
                            if not os.path.isdir(f"{t}/{n}") or os.path.islink(f"{t}/{n}"):
                                simfs.real["unlink"](f"{t}/{n}")
                                break
                except OSError:
                    pass

        th = threading.Thread(target=other)
        th.start()
    with root_logging():
        _, err = attempt(uf.RemoveTree, v, *([True] if ign else []))
    gone_at_return = not os.path.lexists(arg)
    s.event("removed", gone_at_return, type(err).__name__)
    if rival:
        stop.append(1)
        th.join()
    dac.on = False
    s.fs.on_op = None
    check(not s.fs.escapes, "escape", lambda: f"destructive call outside the scratch area: {s.fs.escapes[0]}")
    after = modes(top, root if what == "dir" else None)
    if what in ("file", "link"):
        # not a directory: refusing and removing only the entry itself are both acceptable
        before.pop(arg)
        after.pop(arg, None)
    check(
        after == before,
        "outside",
        lambda: "changed outside the tree: " + str([(k.replace(top, ""), before.get(k), after.get(k)) for k in sorted(set(before) | set(after)) if before.get(k) != after.get(k)][:3]),
    )
    if ign:
        check(err is None, "raises", lambda: f"ignore_errors, but raised {short(err)}")
        if what == "dir" and not (dac.fired or unread or ro or rival):
            check(gone_at_return, "left-over", "the tree is still there")
    elif err is None:
        check(gone_at_return, "left-over", lambda: f"returned normally but {what} is still there")
    else:
        check(type(err) is RuntimeError, "exception", lambda: f"failed with {short(err)} instead of RuntimeError")
        if what == "dir" and not rival and not ro and dac.fired + unread <= 2:
            check(False, "gives-up", lambda: f"gave up after {dac.fired} transient failures and {unread} unreadable directories: {err}")
    s.extra["nontrivial"] = True


def _names(p):
    try:
        return sorted(simfs.real["listdir"](p))
    except OSError:
        return []


MODES = [(3, "alone", lambda s: run(s, False)), (2, "rival", lambda s: run(s, True))]
