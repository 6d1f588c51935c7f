"""Scenario pieces shared by the workspace database properties (C05, C06, C07)."""

import hashlib
import os

from . import core, dbsim, simfs, wsgen
from .core import Violation
from .util import chain, check, short, where

dbsim.install()

from edk2toollib.database import Edk2DB  # noqa: E402
from edk2toollib.database import tables as T  # noqa: E402
from edk2toollib.uefi.edk2.path_utilities import Edk2Path  # noqa: E402

GENS = ["EnvironmentTable", "PackageTable", "InfTable", "SourceTable", "InstancedInfTable", "InstancedFvTable"]
TEMPLATES = []


def setup_worker(base):
    """Prepare git templates once per worker and load everything SQLAlchemy loads lazily."""
    TEMPLATES[:] = wsgen.git_templates(base)
    import logging

    logging.getLogger().addHandler(logging.NullHandler())
    warm(base)


def warm(base):
    """One unsimulated pass so that lazy imports and compiled statement caches do not depend on run order."""
    p = os.path.join(base, "warm.db")
    try:
        simfs.real["unlink"](p)
    except OSError:
        pass
    db = Edk2DB(p)
    with db.session() as s:
        from edk2toollib.database import Environment

        s.query(Environment).all()
    db.engine.dispose()


class Wrap(T.TableGenerator):
    """A registered generator that notes how far the real one got."""

    def __init__(self, world, inner):
        self.w = world
        self.inner = inner

    def parse(self, session, pathobj, id, env):
        self.w.entered += 1
        self.w.env_id = id
        r = self.inner.parse(session, pathobj, id, env)
        self.w.returned += 1
        return r


class World:
    """A workspace, its database and the reference model."""

    def __init__(self, s, git_rate=0.1, small=False, sub=None, stats=True):
        self.s = s
        self.stats = stats
        d = s.d
        top = s.scratch + "/ws"
        self.root = top if sub is None else f"{top}/{sub}"
        git = d.pick(TEMPLATES) if TEMPLATES and d.chance(git_rate) else None
        os.makedirs(self.root)
        s.fs = simfs.SimFS(s, top, permute=True)
        s.allow_real_procs = lambda a, k: None
        self.ws = wsgen.Ws(d, self.root, git, small)
        if git:
            git.place(self.root)
            s.probe("git-workspace")
        self.ws.write_all()
        self.db_path = s.scratch + "/db.sqlite"
        self.model = wsgen.Model()
        self.db = None
        self.gens = None
        self.pathobj = None
        self.entered = self.returned = 0
        self.env_id = None
        self.nparse = 0
        s.cleanups.append(self.close)

    def sibling(self, sub):
        """A second, similar workspace next to this one."""
        x = object.__new__(World)
        x.__dict__.update(self.__dict__)
        x.root = os.path.dirname(self.root) + "/" + sub
        os.makedirs(x.root)
        x.ws = self.ws.sibling(x.root)
        if x.ws.git:
            x.ws.git.place(x.root)
        x.ws.write_all()
        x.model, x.db, x.gens, x.pathobj = wsgen.Model(), None, None, None
        return x

    def close(self):
        """Drop the connection pool and the connections it still holds."""
        if self.db is not None:
            self.db.engine.dispose()
            self.db = None
        for c in getattr(self.s, "conns", []):
            try:
                c.close()
            except Exception:  # noqa: BLE001
                pass
        self.s.conns = []

    def open(self, order=None, keep=False):
        """A fresh Edk2DB on the same file with the chosen generators."""
        d = self.s.d
        self.close()
        if self.pathobj is None:
            self.pathobj = Edk2Path(self.root, list(self.ws.pps))
        self.db = Edk2DB(self.db_path, self.pathobj)
        if order is None:
            order = self.pick_order()
        self.order = order
        nj = d.pick([1, -1, 3])
        kw = {} if nj == -1 else {"n_jobs": nj}
        if not keep:
            self.src = None, False
            if d.chance(0.25):
                self.src = d.subset([f"*{x}" for x in (*wsgen.SRC_EXT, ".txt", ".py")], 0.5), False
            if self.stats and d.chance(0.25):
                self.src = self.src[0], True
        self.model.src = self.src
        if self.src[0] is not None:
            kw["source_extensions"] = list(self.src[0])
        if self.src[1]:
            kw["source_stats"] = True
        mk = {
            "EnvironmentTable": lambda: T.EnvironmentTable(),
            "PackageTable": lambda: T.PackageTable(),
            "InfTable": lambda: T.InfTable(n_jobs=nj) if nj != -1 else T.InfTable(),
            "SourceTable": lambda: T.SourceTable(**kw),
            "InstancedInfTable": lambda: T.InstancedInfTable(),
            "InstancedFvTable": lambda: T.InstancedFvTable(),
        }
        self.gens = [Wrap(self, mk[g]()) for g in order]
        self.db.register(*self.gens)

    def pick_order(self):
        """Registration order: FVs after instances, otherwise free; some tables may be left out."""
        d = self.s.d
        names = list(GENS)
        if d.chance(0.4):
            names = d.shuffle(names)
            i, j = names.index("InstancedInfTable"), names.index("InstancedFvTable")
            if i > j:
                names[i], names[j] = names[j], names[i]
        if d.chance(0.25):
            drop = d.subset(["PackageTable", "InfTable", "SourceTable", "InstancedFvTable"], 0.3)
            names = [n for n in names if n not in drop]
        return names

    def gen_env(self):
        """An environment for one parse."""
        d = self.s.d
        arches = d.pick([["X64"], ["IA32"], ["IA32", "X64"]])
        e = self.ws.env(arches, d.pick(["DEBUG", "RELEASE"]), d.chance(0.5), d.chance(0.9))
        for i in range(d.int(0, 2)):
            e[f"VAR{i}"] = d.word()
        return e

    def parse(self, env):
        """Run one parse; returns the exception (None on success) and the models after each generator."""
        s = self.s
        self.entered = self.returned = 0
        self.env_id = None
        self.nparse += 1
        s.op("parse", self.nparse, env["TARGET_ARCH"], env["TARGET"], ",".join(g[:12] for g in self.order))
        err = None
        try:
            self.db.parse(dict(env))
        except core.SimAbort:
            raise
        except (Violation, core.HarnessError):
            raise
        except BaseException as e:  # noqa: BLE001
            err = e
        steps = [self.model.copy()]
        for g in self.order:
            m = steps[-1].copy()
            m.apply(g, self.ws, self.env_id, env)
            steps.append(m)
        return err, steps

    def state(self):
        """What an independent reader finds in the database now."""
        x = dbsim.dump(self.db_path)
        self.s.event("state", hashlib.sha256(repr(x).encode()).hexdigest()[:16])
        return x

    def expect_success(self, env, what="parse"):
        """A parse with nothing in its way completes and the database equals the model."""
        err, steps = self.parse(env)
        if err is not None:
            raise Violation("parse-fails", f"{what}: {short(err)} in {where(err)}")
        check(
            self.returned == len(self.order),
            "not-all-generators",
            f"{what}: only {self.returned} of {len(self.order)} registered generators ran",
        )
        self.model = steps[-1]
        self.compare(what)

    def compare(self, what):
        """The database must equal the current model."""
        diff = self.model.diff(self.state())
        if diff is not None:
            raise Violation("wrong-contents", f"after {what}: {diff}")

    def classify(self, steps, lo, hi, what):
        """The database must equal one of steps[lo..hi]; adopt it."""
        dump = self.state()
        first = None
        for k in range(hi, lo - 1, -1):
            diff = steps[k].diff(dump)
            if diff is None:
                self.model = steps[k]
                return k
            first = first or diff
        raise Violation("partial-update", f"after {what}: not the state before or after a whole table generator: {first}")


def injected(err, texts):
    """Does the error chain contain one of the injected messages?"""
    return any(any(t in str(e) for t in texts) for e in chain(err))
