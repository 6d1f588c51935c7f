"""C06: over any history of parses, edits and failures the database equals the workspace, env by env."""

import os

from .. import boot  # noqa: F401
from .. import dbscen, simfs, wsgen
from ..core import Violation
from ..util import check, short

ID = "C06"
setup_worker = dbscen.setup_worker


# ------------------------------------------------------------------------------------------- edits
def edit(s, w):
    """One change to the workspace between two parses."""
    d = s.d
    ws = w.ws
    kind = d.pick(
        ["edit-source", "new-source", "new-lib", "new-comp", "inf-deps", "dsc", "fdf", "inf-sources", "rm-source", "new-pkg"]
        + ["inf-identity", "rm-comp", "git", "twin-pkg"]
    )
    s.op("edit", kind)
    if kind == "edit-source" and ws.files:
        p = d.pick(sorted(ws.files))
        lic, n, st = ws.files[p]
        ws.files[p] = (d.pick(["MIT", None, "ISC", lic]), d.int(0, 12), st + 1)
        simfs.write(f"{w.root}/{p}", ws.src_text(ws.files[p]))
    elif kind == "new-source":
        p = ws.add_source()
        simfs.write(f"{w.root}/{p}", ws.src_text(ws.files[p]))
    elif kind == "rm-source" and ws.files:
        p = d.pick(sorted(ws.files))
        del ws.files[p]
        simfs.real["unlink"](f"{w.root}/{p}")
    elif kind in ("new-lib", "new-comp"):
        before = set(ws.files)
        m = ws.add_lib(d.pick(ws.classes)) if kind == "new-lib" else ws.add_comp()
        simfs.write(f"{w.root}/{m.path}", ws.inf_text(m))
        for p in sorted(set(ws.files) - before):
            simfs.write(f"{w.root}/{p}", ws.src_text(ws.files[p]))
        if d.chance(0.7):
            ws.gen_dsc()
            ws.gen_fdf()
            ws.write_meta()
    elif kind in ("inf-deps", "inf-sources"):
        m = d.pick(ws.libs + ws.comps)
        before = set(ws.files)
        if kind == "inf-deps":
            k = ws.classes.index(m.cls) + 1 if getattr(m, "cls", None) in ws.classes else 0
            m.deps = ws._deps(ws.classes[k:])
        else:
            m.sources = ws._sources(m.dir)
        simfs.write(f"{w.root}/{m.path}", ws.inf_text(m))
        for p in sorted(set(ws.files) - before):
            simfs.write(f"{w.root}/{p}", ws.src_text(ws.files[p]))
    elif kind == "inf-identity":
        m = d.pick(ws.libs + ws.comps + ws.shadows[:1])
        ws.seq += 1
        m.guid = wsgen.guid(ws.seq)
        if m in ws.comps:
            m.mtype = d.pick(wsgen.PHASES)
        elif getattr(m, "null", False):
            m.cls = d.pick([None, f"Null{ws.seq}Y", m.cls])
        simfs.write(f"{w.root}/{m.path}", ws.inf_text(m))
    elif kind == "rm-comp" and len(ws.comps) > 1:
        m = ws.comps.pop(d.below(len(ws.comps)))
        simfs.real["unlink"](f"{w.root}/{m.path}")
        ws.gen_dsc()
        ws.gen_fdf()
        ws.write_meta()
    elif kind == "git" and ws.git and not any(c.dir.startswith(ws.loose_dir) for c in ws.comps):
        ws.loose = False
        ws.git.remove(w.root)
        ws.git = d.pick(dbscen.TEMPLATES)
        ws.git.place(w.root)
    elif kind == "twin-pkg" and not ws.pps:
        dr = "Moved/" + d.pick(sorted(ws.pkgs))
        if dr not in ws.twins:
            ws.twins.append(dr)
            simfs.write(f"{w.root}/{dr}/{os.path.basename(dr)}.dec", "[Defines]\n")
    elif kind == "dsc":
        ws.gen_dsc()
        ws.write_meta()
    elif kind == "fdf":
        ws.gen_fdf()
        ws.write_meta()
    elif kind == "new-pkg":
        name = f"Extra{len(ws.pkgs)}Pkg"
        ws.pkgs[name] = name
        simfs.write(f"{w.root}/{name}/{name}.dec", "[Defines]\n")


def failing_parse(s, w):
    """A parse that cannot finish, then the history goes on."""
    d = s.d
    victim = f"{w.root}/{w.ws.dsc_path}"
    good = simfs.read(victim)
    simfs.real["unlink"](victim)
    s.hit("dsc-gone", "")
    try:
        err, steps = w.parse(w.gen_env())
    finally:
        simfs.write(victim, good)
    if "InstancedInfTable" in w.order:
        check(err is not None, "error-swallowed", "parse succeeded although the DSC does not exist")
        w.classify(steps, max(0, w.entered - 1), max(0, w.entered - 1), "parse without DSC")
    elif err is None:
        w.model = steps[-1]
    else:
        w.classify(steps, max(0, w.entered - 1), max(0, w.entered - 1), "parse without DSC")
    _ = d


def history(s):
    """Parses, edits, reopen, failures."""
    d = s.d
    w = dbscen.World(s, git_rate=0.15, small=d.chance(0.5))
    s.joblib_opts = {"shuffle": True}
    w.open()
    ids = []
    for _ in range(d.int(2, 5)):
        act = d.weighted([(4, "parse"), (4, "edit"), (1, "reopen"), (1, "fail"), (1, "again")])
        if act == "parse":
            w.expect_success(w.gen_env())
            ids.append(w.env_id)
        elif act == "again":
            e = w.gen_env()
            w.expect_success(e)
            ids.append(w.env_id)
            w.expect_success(e, "the same parse again")
            ids.append(w.env_id)
        elif act == "edit":
            for _ in range(d.int(1, 3)):
                edit(s, w)
        elif act == "reopen":
            s.op("reopen")
            w.open(w.order if d.chance(0.5) else None)
        else:
            failing_parse(s, w)
    w.expect_success(w.gen_env(), "last parse")
    ids.append(w.env_id)
    check(len(set(ids)) == len(ids), "env-id-reused", lambda: f"environment ids {ids}")
    s.extra["nontrivial"] = True


def registry(s):
    """Only registered generators run, in registration order; clear_parsers forgets them; re-registering works."""
    d = s.d
    w = dbscen.World(s, git_rate=0.02, small=True)
    w.open()
    calls = []

    class Gen(dbscen.T.TableGenerator):
        def __init__(self, n):
            self.n = n

        def parse(self, session, pathobj, id, env):
            calls.append((self.n, id, pathobj is w.pathobj, dict(env)))

    for _ in range(d.int(1, 4)):
        regs = [Gen(i) for i in range(d.int(0, 4))]
        calls.clear()
        w.db.clear_parsers()
        for part in range(0, len(regs), 2):
            w.db.register(*regs[part : part + 2])
        env = w.gen_env()
        w.db.parse(env)
        got = [c[0] for c in calls]
        if got != [g.n for g in regs]:
            raise Violation("registry", f"registered {[g.n for g in regs]}, ran {got}")
        check(len({c[1] for c in calls}) <= 1, "registry", "generators of one parse saw different environment ids")
        check(all(c[2] and c[3] == env for c in calls), "registry", "generator got another path object or environment")
    s.extra["nontrivial"] = True


def user_session(s):
    """session(): commits on success, rolls everything back and re-raises on failure."""
    d = s.d
    w = dbscen.World(s, git_rate=0.0, small=True)
    w.open()
    from edk2toollib.database import Library, Source

    for i in range(d.int(1, 4)):
        names = [f"u{i}_{k}" for k in range(d.int(1, 3))]
        fail = d.chance(0.5)
        flush = d.chance(0.5)
        exc = d.pick([ValueError, KeyError, RuntimeError])
        err = None
        try:
            with w.db.session() as ses:
                for n in names:
                    ses.add(Library(name=n))
                    ses.add(Source(path=n + ".c"))
                if flush:
                    ses.flush()
                if fail:
                    raise exc("user failure")
        except Exception as e:  # noqa: BLE001
            err = e
        if fail:
            s.hit("user-exception", "")
            if type(err) is not exc:
                raise Violation("session", f"the exception raised in the session came out as {short(err) if err else None}")
        else:
            check(err is None, "session", lambda: f"unexpected {short(err)}")
            w.model.library.update(names)
            for n in names:
                w.model._src(n + ".c")
        w.compare("session" + (" that failed" if fail else ""))
    s.extra["nontrivial"] = True


MODES = [(10, "history", history), (1, "registry", registry), (1, "user-session", user_session)]
