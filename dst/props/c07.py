"""C07: the database does not depend on parallelism, worker order, enumeration order or concurrent use."""

import threading

from .. import boot  # noqa: F401
from .. import dbscen, dbsim
from ..core import Violation
from ..util import check, short

ID = "C07"
setup_worker = dbscen.setup_worker


def _norm(dump):
    """Dump without ids and dates."""
    out = {}
    m = {}
    for i, _, v in dump["environment"]:
        m.setdefault(i, f"env{len(m)}")

    def r(x):
        if isinstance(x, str):
            return m.get(x, x)
        if isinstance(x, (tuple, list)):
            return tuple(r(y) for y in x)
        return x

    for k, v in dump.items():
        if k == "environment":
            out[k] = [(m[i], ver) for i, _, ver in v]
        else:
            out[k] = sorted((r(x) for x in v), key=repr)
    return out


def differential(s):
    """The same parse on two fresh databases with different worker counts and orders."""
    d = s.d
    w = dbscen.World(s, git_rate=0.06)
    env = w.gen_env()
    order = w.pick_order()
    dumps = []
    for k in range(2):
        w.model = dbscen.wsgen.Model()
        w.db_path = f"{s.scratch}/db{k}.sqlite"
        s.joblib_opts = {"shuffle": d.chance(0.7)}
        w.pathobj = None if d.chance(0.5) else w.pathobj
        w.open(order, keep=k > 0)
        w.expect_success(env, f"parse {k}")
        dumps.append(_norm(w.state()))
    if dumps[0] != dumps[1]:
        t = next(t for t in dumps[0] if dumps[0][t] != dumps[1].get(t))
        raise Violation("depends-on-order", f"table {t} differs between two parses of the same workspace")
    s.extra["nontrivial"] = True


def several(s):
    """Parses of two similar workspaces one after the other in one process."""
    d = s.d
    w = dbscen.World(s, git_rate=0.06, small=True, sub="a")
    pair = [w, w.sibling("b")]
    order = w.pick_order()
    for k in range(d.int(2, 3)):
        x = pair[k % 2]
        x.model = dbscen.wsgen.Model()
        x.db_path = f"{s.scratch}/db{k}.sqlite"
        s.joblib_opts = {"shuffle": d.chance(0.7)}
        x.open(order)
        x.expect_success(x.gen_env(), f"parse {k} of workspace {k % 2}")
        x.close()
    s.extra["nontrivial"] = True


def concurrent(s):
    """Two threads parse the same or similar workspaces into two databases at the same time."""
    d = s.d
    two = d.chance(0.5)
    w = dbscen.World(s, git_rate=0.0, small=True, sub="a")
    s.joblib_opts = {"shuffle": True}
    s.set_preempt(d.pick([3, 10, 40, 150]))
    w.open()
    worlds = []
    for k in range(2):
        if k and two:
            x = w.sibling("b")
            x.db_path = f"{s.scratch}/c{k}.sqlite"
            worlds.append(x)
            s.probe("two-workspaces")
            continue
        x = object.__new__(dbscen.World)
        x.__dict__.update(w.__dict__)
        x.model = dbscen.wsgen.Model()
        x.db = None
        x.db_path = f"{s.scratch}/c{k}.sqlite"
        worlds.append(x)
    envs = [x.gen_env() for x in worlds]
    orders = [w.pick_order() for _ in worlds]
    errs = [None, None]

    def go(k):
        try:
            worlds[k].close = lambda: None
            worlds[k].open(orders[k])
            worlds[k].expect_success(envs[k], f"concurrent parse {k}")
        except Exception as e:  # noqa: BLE001
            errs[k] = e
        finally:
            if worlds[k].db is not None:
                worlds[k].db.engine.dispose()

    ts = [threading.Thread(target=go, args=(k,)) for k in range(2)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for e in errs:
        if isinstance(e, Violation):
            raise e
        check(e is None, "concurrent-parse-fails", lambda: short(e))


MODES = [(5, "differential", differential), (4, "several", several), (3, "concurrent", concurrent)]
_ = dbsim
