"""C09: workspace path answers follow the file system of the moment, for every layout, caller and fault."""

import os
import threading
from pathlib import Path

from .. import boot, simfs  # noqa: F401
from ..core import Violation
from ..util import attempt, check, root_logging, short

from edk2toollib.uefi.edk2.path_utilities import Edk2Path

ID = "C09"
HOOK_LINES = True
STEP_CAP = 60000
SEG = ["P", "Q", "R", "common", "Silicon", "a b", "é"]
FILES = ["x.c", "M.inf", "N.INF", "K.dec", "L.DEC", "y.h", "inf", "z.inf.txt", "T.inf"]


class Model:
    """Reference answers computed from a plain listing of the tree."""

    def __init__(self, ws, pps):
        self.ws, self.pps = ws, pps

    @staticmethod
    def under(p, root):
        return p == root or p.startswith(root.rstrip("/") + "/")

    @staticmethod
    def entries(p):
        try:
            return sorted(simfs.real["listdir"](p))
        except OSError:
            return None

    def rel(self, p):
        best = None
        for r in self.pps:
            if self.under(p, r) and (best is None or len(r) > len(best)):
                best = r
        if best is None and self.under(p, self.ws):
            best = self.ws
        return None if best is None else (p[len(best) :].strip("/") or ".")

    def abs(self, rel):
        for r in [self.ws, *self.pps]:
            q = r if rel in ("", ".") else f"{r}/{rel}"
            if os.path.lexists(q):
                return q
        return None

    def package(self, p):
        if self.under(p, self.ws):
            root = self.ws
        else:
            hit = [r for r in self.pps if self.under(p, r)]
            if not hit:
                return {None}
            root = hit[0]
        cur = p if os.path.isdir(p) else os.path.dirname(p)
        while self.under(cur, root) and cur != root:
            if any(n.lower().endswith(".dec") and not n.startswith(".dec") for n in self.entries(cur) or ()):
                return {os.path.basename(cur)}
            cur = os.path.dirname(cur)
        return {None}

    def modules(self, p):
        roots = {self.ws, *self.pps}
        top = [r for r in roots if not any(self.under(r, o) and o != r for o in roots)]
        if not any(self.under(p, r) for r in top):
            return []
        if os.path.splitext(p)[1].lower() == ".inf":
            return [p]
        cur = os.path.dirname(p)
        while any(self.under(cur, r) for r in top) and cur not in top:
            found = [
                f"{cur}/{n}"
                for n in self.entries(cur) or ()
                if os.path.splitext(n)[1].lower() == ".inf" and os.path.isfile(f"{cur}/{n}")
            ]
            if found:
                return sorted(found)
            cur = os.path.dirname(cur)
        return []


class World:
    """A generated tree with several roots."""

    def __init__(self, s):
        self.s, self.d = s, s.d
        d = s.d
        self.top = s.scratch + "/w"
        simfs.real["mkdir"](self.top)
        self.dirs = [self.top]
        for _ in range(d.int(3, 14)):
            p = f"{d.pick(self.dirs)}/{d.pick(SEG)}"
            if not os.path.lexists(p):
                simfs.real["mkdir"](p)
                self.dirs.append(p)
        for _ in range(d.int(0, 24)):
            self.touch()

    def touch(self):
        d = self.d
        p = f"{d.pick(self.dirs)}/{d.pick(FILES)}"
        if os.path.isdir(os.path.dirname(p)) and not os.path.lexists(p):
            if d.chance(0.1):
                simfs.real["mkdir"](p)  # a directory with a module's or package's name
                self.dirs.append(p)
            else:
                simfs.write(p, b"x")
        return p

    def mutate(self, keep):
        """Add or remove something (now and then a root)."""
        d = self.d
        k = d.pick(["touch", "rm", "rmtree", "mkdir"])
        self.s.op("mutate", k)
        if k == "touch":
            self.touch()
        elif k == "mkdir":
            p = f"{d.pick(self.dirs)}/{d.pick(SEG)}"
            if os.path.isdir(os.path.dirname(p)) and not os.path.lexists(p):
                simfs.real["mkdir"](p)
                self.dirs.append(p)
        else:
            q = d.pick(self.dirs)
            names = sorted(n for n in (Model.entries(q) or ()))
            if not names:
                return
            p = f"{q}/{d.pick(names)}"
            if os.path.isfile(p):
                simfs.real["unlink"](p)
            elif k == "rmtree" and (d.chance(0.3) or not any(Model.under(r, p) for r in keep)):
                if any(Model.under(r, p) for r in keep):
                    self.s.probe("root-removed")
                simfs.rmtree(p)

    def near(self, x):
        """Change what decides the answer for x: package and module files in its directory or above."""
        d = self.d
        up = [p for p in self.dirs if Model.under(x, p) and os.path.isdir(p)]
        if not up:
            return
        q = d.pick(up)
        mine = [n for n in sorted(Model.entries(q) or ()) if n.lower().endswith((".dec", ".inf")) and os.path.isfile(f"{q}/{n}")]
        self.s.op("near")
        if mine and d.chance(0.65):
            simfs.real["unlink"](f"{q}/{d.pick(mine)}")
        else:
            p = f"{q}/{d.pick(FILES[1:5])}"
            if not os.path.lexists(p):
                simfs.write(p, b"x")

    def query_path(self, roots):
        d = self.d
        base = d.weighted([(4, d.pick(self.dirs)), (2, d.pick(roots)), (1, self.top), (1, "/nowhere")])
        n = d.weighted([(4, None), (4, d.pick(FILES)), (1, d.pick(SEG)), (1, d.pick(SEG) + "/" + d.pick(FILES)), (1, "gone/deep/" + d.pick(FILES))])
        return base if n is None else f"{base}/{n}"


def spell(d, p):
    """Another spelling of the same absolute path."""
    k = d.weighted([(5, 0), (1, 1), (1, 2), (1, 3)])
    if k == 1:
        return (p.replace("/", "\\"),)
    if k == 2:
        return (p + "/",)
    if k == 3 and p.count("/") > 2:
        i = p.rindex("/")
        return (p[:i], p[i + 1 :])
    return (p,)


def setup(s, faults):
    d = s.d
    w = World(s)
    s.fs = simfs.SimFS(s, w.top, permute=True)
    ws = d.pick(w.dirs)
    pps, args = [], []
    cwd = d.pick(w.dirs)
    os.chdir(cwd)
    for _ in range(d.int(0, 4)):
        r = d.pick(w.dirs)
        a = r if d.chance(0.8) else r + "/"
        if d.chance(0.5) and Model.under(r, ws) and r != ws:
            a = r[len(ws) + 1 :]
        elif d.chance(0.4):
            a = os.path.relpath(r, cwd)
            if a[0] == "." or os.path.isdir(f"{ws}/{a}"):
                a = r
            else:
                s.probe("cwd-relative")
        args.append(a.replace("/", "\\") if d.chance(0.15) else a)
        pps.append(r)
    bad = d.chance(0.15)
    strict = d.chance(0.5)
    if bad:
        i = d.below(len(args) + 1)
        args.insert(i, d.pick([ws + "/missing", "nope", w.top + "/gone/x"]))
    # a relative entry is taken relative to the workspace first, so its absolute form must be the model's root
    s.op("roots", ws, pps, [a.replace("\\", "/") for a in args])
    if faults:
        s.swarm(["scandir-eacces"], (1, 3), (0.1, 0.4), 1.0)
    s.set_preempt(d.weighted([(2, 0), (1, 9), (1, 50)]))
    ws_arg = ws
    if Model.under(ws, cwd) and ws != cwd and d.chance(0.4):
        ws_arg = os.path.relpath(ws, cwd)
        s.probe("cwd-relative-workspace")
    p, err = attempt(Edk2Path, ws_arg.replace("/", "\\") if d.chance(0.1) else ws_arg, args, *([strict] if not strict or d.chance(0.5) else []))
    if d.chance(0.3):
        os.chdir(d.pick(w.dirs))  # the roots are fixed by now
    if err is not None:
        check(bad and strict and isinstance(err, NotADirectoryError), "construct", lambda: f"constructing failed with {short(err)}")
        s.probe("invalid-pp")
        return None
    check(not (bad and strict), "construct", "an invalid package path was accepted")
    check(p.WorkspacePath == ws, "workspace", lambda: f"WorkspacePath {p.WorkspacePath}")
    check(p.PackagePathList == pps, "package-paths", lambda: f"PackagePathList {p.PackagePathList}, expected {pps}")
    return w, p, Model(ws, pps)


def one(s, w, p, m, again=None):
    """One query compared with the model (None when it raised because of a fault)."""
    d = s.d
    q, x = again or (d.weighted([(3, "rel"), (3, "abs"), (3, "package"), (4, "modules")]), w.query_path([m.ws, *m.pps]))
    asked = (q, x)
    n0 = s.faults.get("scandir-eacces", 0)
    if q == "abs":
        rel = m.rel(x) or "Nope/x.c"
        if d.chance(0.1):
            rel = "missing/" + rel
        want = m.abs(rel)
        arg = d.weighted([(3, (rel,)), (1, (rel.replace("/", "\\"),)), (1, tuple(rel.split("/")))])
        s.op("abs", rel)
        got, err = attempt(p.GetAbsolutePathOnThisSystemFromEdk2RelativePath, *arg, **({"log_errors": False} if d.chance(0.3) else {}))
        x = rel
    elif q == "rel":
        s.op("rel", x)
        want = m.rel(x)
        got, err = attempt(p.GetEdk2RelativePathFromAbsolutePath, *spell(d, x))
    elif q == "package":
        s.op("package", x)
        want = m.package(x)
        got, err = attempt(p.GetContainingPackage, x if d.chance(0.8) else x.replace("/", "\\"))
        if err is None and got in want:
            got = want
    else:
        s.op("modules", x)
        want = m.modules(x)
        got, err = attempt(p.GetContainingModules, x if d.chance(0.8) else x.replace("/", "\\"))
        got = sorted(got) if got is not None else got
    if err is not None:
        check(isinstance(err, OSError) and s.faults.get("scandir-eacces", 0) > n0, "raises", lambda: f"{q}({x}) raised {short(err)}")
        return asked
    check(got == want, q, lambda: f"{q}({x}) gave {got}, expected {want} (workspace {m.ws}, package paths {m.pps})".replace(s.scratch, "$S"))
    if got not in (None, [], {None}):
        s.probe(q + "-found")
    if q == "rel" and got is not None and os.path.exists(x):
        back = p.GetAbsolutePathOnThisSystemFromEdk2RelativePath(got)
        check(back is not None, "round-trip", lambda: f"{x} -> {got} -> nothing")
        check(back == m.abs(got), "round-trip", lambda: f"{x} -> {got} -> {back}")
    return asked


def history(s, faults):
    with root_logging(level=50):
        r = setup(s, faults)
        if r is None:
            return
        w, p, m = r
        last = None
        for _ in range(s.d.int(1, 12)):
            if s.d.chance(0.3):
                w.mutate([m.ws, *m.pps])
            elif last is not None and s.d.chance(0.4):
                w.near(last[1])
                one(s, w, p, m, last)
            else:
                last = one(s, w, p, m)
            check(p.PackagePathList == m.pps and p.WorkspacePath == m.ws, "roots-changed", lambda: f"a query changed the roots to {p.PackagePathList}")
    s.extra["nontrivial"] = True


def concurrent(s):
    with root_logging(level=50):
        r = setup(s, False)
        if r is None:
            return
        w, p, m = r
        s.set_preempt(s.d.pick([3, 12, 60]))
        fails = []

        def go():
            try:
                for _ in range(s.d.int(1, 4)):
                    one(s, w, p, m)
            except Violation as v:
                fails.append(v)

        ts = [threading.Thread(target=go) for _ in range(s.d.int(2, 3))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if fails:
            raise fails[0]
        check(p.PackagePathList == m.pps and p.WorkspacePath == m.ws, "roots-changed", lambda: f"queries changed the roots to {p.PackagePathList}")
    s.extra["nontrivial"] = True


MODES = [
    (4, "history", lambda s: history(s, False)),
    (2, "history-faults", lambda s: history(s, True)),
    (2, "concurrent", concurrent),
]
_ = Path
