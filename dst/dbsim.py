"""Seams of the database layer: the SQLite driver and the joblib worker pool.

Real SQLite runs on a file in the scratch directory; every statement and commit issued by the code under
test passes through SimConnection / SimCursor, where the run may inject an error, an interrupt or a crash
(the database and its rollback journal are copied as they are at that instant and only the copy survives).
"""

import sqlite3
import sqlite3.dbapi2 as dbapi2

from . import core, simfs

_real_connect = dbapi2.connect


class SimCrash(BaseException):
    """The process dies here."""


class DbPlan:
    """What happens to the statements and commits of one phase of a run."""

    KINDS = ("locked", "ioerr", "full", "crash", "interrupt")
    TEXT = {"locked": "database is locked", "ioerr": "disk I/O error", "full": "database or disk is full"}

    def __init__(self, kind, at, on):
        self.kind = kind
        self.at = at  # fires at the at-th matching call
        self.on = on  # "stmt" | "commit" | "committed" (crash only) | "write"
        self.n = 0
        self.fired = False


def arm(s, kind, at, on):
    """Arm one fault; returns the plan."""
    p = DbPlan(kind, at, on)
    s.dbplan = p
    return p


def disarm(s):
    """No more faults."""
    s.dbplan = None


def _hook(conn, on, what):
    s = core.sim()
    if s is None:
        return
    s.point("db")
    s.dbcalls = getattr(s, "dbcalls", 0) + 1
    p = getattr(s, "dbplan", None)
    if p is None or p.fired or p.on != on:
        return
    p.n += 1
    if p.n < p.at:
        return
    p.fired = True
    s.hit(f"db-{p.kind}", f"{on}#{p.n} {what[:40]!r}")
    if p.kind == "crash":
        snapshot(conn.dst_path, conn.dst_path + ".crash")
        raise SimCrash("crash")
    if p.kind == "interrupt":
        raise KeyboardInterrupt("interrupt")
    raise sqlite3.OperationalError(p.TEXT[p.kind])


def _copy(src, dst):
    with simfs.real_open(src, "rb") as f:
        data = f.read()
    with simfs.real_open(dst, "wb") as f:
        f.write(data)


def snapshot(path, dst):
    """What is on disk right now."""
    for suf in ("", "-journal", "-wal", "-shm"):
        try:
            _copy(path + suf, dst + suf)
        except FileNotFoundError:
            try:
                simfs.real["unlink"](dst + suf)
            except OSError:
                pass


def recover(path):
    """Replace the database by the state the crash left behind."""
    for suf in ("", "-journal", "-wal", "-shm"):
        try:
            simfs.real["unlink"](path + suf)
        except OSError:
            pass
        try:
            _copy(path + ".crash" + suf, path + suf)
        except FileNotFoundError:
            pass


_WRITE = ("INSERT", "UPDATE", "DELETE", "REPLACE", "CREATE", "DROP", "ALTER")


class SimCursor(sqlite3.Cursor):
    """Cursor whose statements are fault points."""

    def execute(self, sql, *a):
        _hook(self.connection, "stmt", sql)
        if sql.lstrip()[:7].upper().startswith(_WRITE):
            _hook(self.connection, "write", sql)
        return super().execute(sql, *a)

    def executemany(self, sql, *a):
        _hook(self.connection, "stmt", sql)
        _hook(self.connection, "write", sql)
        return super().executemany(sql, *a)


class SimConnection(sqlite3.Connection):
    """Connection whose commits are fault points."""

    dst_path = ""

    def cursor(self, factory=SimCursor):
        return super().cursor(factory)

    def commit(self):
        if self.in_transaction:
            _hook(self, "commit", "COMMIT")
            super().commit()
            _hook(self, "committed", "COMMIT")
        else:
            super().commit()


def _connect(database, *a, **k):
    s = core.sim()
    if s is None:
        return _real_connect(database, *a, **k)
    k.setdefault("factory", SimConnection)
    k["timeout"] = 0
    c = _real_connect(database, *a, **k)
    if isinstance(c, SimConnection):
        c.dst_path = str(database)
        c.execute("PRAGMA page_size=512")
        c.execute("PRAGMA synchronous=OFF")
        opts = getattr(s, "dbopts", {})
        if opts.get("spill"):
            # dirty pages reach the file before the commit, protected by the rollback journal only
            c.execute("PRAGMA cache_size=2")
            c.execute("PRAGMA cache_spill=1")
        if opts.get("max_pages"):
            c.execute("PRAGMA max_page_count=%d" % opts["max_pages"])
        s.conns = getattr(s, "conns", [])
        s.conns.append(c)
    return c


# ------------------------------------------------------------------------------------------- joblib
class WorkerDied(Exception):
    """Stand-in for joblib's TerminatedWorkerError."""


def _parallel_call(self, iterable):
    """Run joblib tasks in an order, with copies and failures, that the simulation decides."""
    s = core.sim()
    if s is None:
        return _real_parallel_call(self, iterable)
    import cloudpickle

    tasks = list(iterable)
    nj = self.n_jobs
    opts = getattr(s, "joblib_opts", {})
    seq = nj in (1, None)
    order = list(range(len(tasks)))
    s.joblib_calls = getattr(s, "joblib_calls", 0) + 1
    if not seq and opts.get("shuffle"):
        order = s.d.shuffle(order)
    die = opts.get("die_at")
    res = [None] * len(tasks)
    done = []
    for k, i in enumerate(order):
        if die is not None and k == die % max(1, len(order)):
            s.hit("worker-died", f"task {k}")
            raise WorkerDied("A worker process managed by the executor was unexpectedly terminated.")
        fn, a, kw = tasks[i]
        s.point("job")
        if seq:
            res[i] = fn(*a, **kw)
        else:
            fn, a, kw = cloudpickle.loads(cloudpickle.dumps((fn, a, kw)))
            res[i] = cloudpickle.loads(cloudpickle.dumps(fn(*a, **kw)))
        done.append(i)
    ra = getattr(self, "return_generator", False)
    if ra:
        unordered = getattr(self, "return_unordered", False)
        return iter([res[i] for i in done] if unordered else res)
    return res


_real_parallel_call = None
_installed = False


def install():
    """Patch the driver and the worker pool.  Idempotent."""
    global _installed, _real_parallel_call
    if _installed:
        return
    _installed = True
    dbapi2.connect = _connect
    sqlite3.connect = _connect
    import joblib
    import joblib.parallel

    _real_parallel_call = joblib.parallel.Parallel.__call__
    joblib.parallel.Parallel.__call__ = _parallel_call


# --------------------------------------------------------------------------------------------- dump
def dump(path):
    """Everything in the database, by natural keys, as plain data (lists sorted, duplicates kept)."""
    c = _real_connect(path)
    try:
        ok = c.execute("PRAGMA integrity_check").fetchone()[0]
        if ok != "ok":
            return {"corrupt": ok}

        def q(sql):
            return c.execute(sql).fetchall()

        have = {r[0] for r in q("select name from sqlite_master where type='table'")}
        need = {
            "environment", "value", "inf", "instancedinf", "source", "library", "repository", "package", "fv",
            "source_association", "instance_source_association", "fv_association", "library_association",
            "inf_association",
        }  # fmt: skip
        if not need <= have:
            return {"missing": sorted(need - have)}

        def links(tab):
            m = {}
            for a, b in q(f"select left_id, right_id from {tab}"):
                m.setdefault(a, []).append(b)
            return m

        src = {r[0]: r[1] for r in q("select id, path from source")}
        lib = {r[0]: r[1] for r in q("select id, name from library")}
        repo = {r[0]: (r[1], r[2]) for r in q("select id, name, path from repository")}
        pkg = {r[0]: (r[1], r[2]) for r in q("select id, name, path from package")}
        ii = {
            r[0]: (r[1], r[2], r[3], r[4], r[5])
            for r in q("select id, env, path, arch, cls, component from instancedinf")
        }
        out = {}

        def look(d, k, what):
            if k is None:
                return None
            if k not in d:
                out.setdefault("dangling", []).append((what, k))
                return ("?", k)
            return d[k]

        def srt(x):
            return sorted(x, key=repr)

        out["environment"] = srt(q("select id, date, version from environment"))
        out["value"] = srt(q("select env_id, key, value from value"))
        sa, la = links("source_association"), links("library_association")
        out["inf"] = srt(
            (
                p, g, lc, pn, mt,
                tuple(srt(look(src, x, "inf-src") for x in sa.pop(i, []))),
                tuple(srt(look(lib, x, "inf-lib") for x in la.pop(i, []))),
            )
            for i, p, g, lc, pn, mt in q("select id, path, guid, library_class, package_name, module_type from inf")
        )  # fmt: skip
        out["source"] = srt(q("select path, license, total_lines, code_lines, comment_lines, blank_lines from source"))
        out["library"] = srt(lib.values())
        out["repository"] = srt(repo.values())
        out["package"] = srt(
            (n, p, look(repo, r, "pkg-repo")) for n, p, r in q("select name, path, repository_id from package")
        )
        isa, ia = links("instance_source_association"), links("inf_association")
        out["instancedinf"] = srt(
            (
                env, p, arch, n, look(pkg, pk, "ii-pkg"), look(repo, rp, "ii-repo"), dsc, cls, comp,
                tuple(srt(look(src, x, "ii-src") for x in isa.pop(i, []))),
                tuple(srt(look(ii, x, "ii-lib") for x in ia.pop(i, []))),
            )
            for i, env, p, arch, n, pk, rp, dsc, cls, comp in q(
                "select id, env, path, arch, name, package_id, repository_id, dsc, cls, component from instancedinf"
            )
        )  # fmt: skip
        fa = links("fv_association")
        out["fv"] = srt(
            (env, n, f, tuple(srt(look(ii, x, "fv-inf") for x in fa.pop(i, []))))
            for i, env, n, f in q("select id, env, name, fdf from fv")
        )
        for name, left in (("source", sa), ("library", la), ("isource", isa), ("ilib", ia), ("fv", fa)):
            for k in left:
                out.setdefault("dangling", []).append((name, k))
        return out
    finally:
        c.close()
