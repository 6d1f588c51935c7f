"""C11: UEFI variables through efivarfs: exact get/set/delete/list, one store per set, nothing else touched."""

import struct
import threading
import uuid

from .. import boot, core, efisim, nvsim, simfs, simproc, util  # noqa: F401
from ..core import Violation
from ..util import attempt, check, short

import edk2toollib.os.uefivariablesupport as uv

ID = "C11"
HOOK_LINES = True
STEP_CAP = 200000
NAMES = ["Boot0001", "db", "a-b-c", "with space", "quo'te", "semi;touch x", "$(id)", "back`x`", "Ünï漢", "x", "-flag", "a&b", '"dq"', "tab\tname", "star*", "deadbeef-dead"]
MISSING = 0xCB


def names(d):
    """Some names; some differ by case, blanks or a part only."""
    out = d.sample(NAMES, d.int(1, 6))
    for _ in range(d.weighted([(2, 0), (2, 1), (1, 3)])):
        b = d.pick([*out, *out, d.word(1, 12)])
        n = d.pick([b + " ", " " + b, b + "\t", b + ".", b + "0", "." + b, b.upper(), b.lower(), b[: len(b) // 2] or "y", b + "-" + b, b.replace(" ", "  "), b + "é", b + "%41", b + "\\", "~", "~/x".replace("/", ""), b + "é", b * 15])
        if n not in out and n.rstrip("\0") == n:
            out.append(n)
    return out


def procs(s, dev):
    """subprocess based chattr."""

    def launch(args, kw):
        c = simproc.Child([])
        if kw.get("shell"):
            c.rc = dev.system(args if isinstance(args, str) else args[0]) >> 8
        else:
            c.rc = dev.chattr(args.split() if isinstance(args, str) else args)
        return c

    return launch


def unpack(buf):
    """[(name, guid)] from the packed listing; raises Violation on a malformed chain."""
    raw = bytes(buf)
    out, off = [], 0
    while off < len(raw):
        if len(raw) - off < 20:
            raise Violation("listing", f"entry at {off} of {len(raw)} is cut off")
        (n,) = struct.unpack_from("<I", raw, off)
        if n < 20 or off + n > len(raw):
            raise Violation("listing", f"entry at {off} has offset {n} in {len(raw)} bytes")
        out.append((raw[off + 20 : off + n].decode("utf-16-le"), uuid.UUID(bytes_le=raw[off + 4 : off + 20])))
        off += n
    return out


def run(s, faults, threads):
    d = s.d
    dev = efisim.mount(s)
    s.procs = procs(s, dev)
    s.set_preempt(d.weighted([(2, 0), (2, 5), (1, 25)]) if threads > 1 else 0)
    dev.sticky = d.pick([0.0, 0.5, 1.0])
    guids = [str(uuid.UUID(int=d.below(1 << 32) << 96 | d.below(1 << 32))) for _ in range(2)]
    ident = []
    for n in names(d):
        ident.append((n, d.pick(guids)))
    for n, g in ident:
        if d.chance(0.7):
            attrs = d.pick([7, 7, 3, 0x27])
            dev.add(f"{n}-{g}", struct.pack("=I", attrs) + d.bytes(d.weighted([(20, 1), (20, 2), (20, 40), (20, 5000), (1, (1 << 20) - 4), (1, (1 << 20) + 9)])), d.chance(0.7))
    model = dev.state()
    if faults:
        s.swarm(["write-eio", "enospc", "open-eio", "read-eio", "sudo-denied", "scandir-eacces"], (1, 2), (0.1, 0.4), 0.7)
        dev.sudo_ok = not d.chance(0.15)
    if d.chance(0.4):
        s.fault_rates["short-read"] = 0.3
    var = uv.UefiVariable()
    owners = [ident[k::threads] for k in range(threads)]
    plans = []
    for k in range(threads):
        ops = []
        for _ in range(d.int(1, 6 if threads == 1 else 4)):
            op = d.weighted([(4, "set"), (3, "get"), (2, "delete"), (2, "list")])
            n, g = d.pick(owners[k]) if owners[k] else ("none", guids[0])
            if not owners[k] and op in ("set", "delete"):
                op = "list"
            data = d.bytes(d.weighted([(3, 5), (1, 1), (2, 300), (1, 8188), (1, 8189), (1, 9000), (1, 70000), (1, 0)]))
            attrs = d.weighted([(10, None), (4, 7), (2, 3), (2, 0x27), (1, 0)])
            form = d.pick(["plain", "nul", "upper", "uuid"])
            ops.append((op, n, g, data, attrs, form))
        plans.append(ops)
    s.op("plan", [[(o[0], o[1], len(o[3]), o[4], o[5]) for o in ops] for ops in plans])

    def inv():
        check(not dev.injected, "shell", lambda: f"the shell would interpret part of a variable name: {dev.injected[0]!r}")
        check(not dev.foreign, "shell", lambda: f"command touches something else: {dev.foreign[0]}")
        check(not s.fs.escapes, "escape", lambda: f"file access outside efivarfs: {s.fs.escapes[0]}")

    def one(op, n, g, data, attrs, form):
        k = f"{n}-{g}"
        name = n + "\0" * (1 if form == "nul" else 0)
        guid = g.upper() if form == "upper" else uuid.UUID(g) if form == "uuid" else g
        old = model.get(k)
        f0 = s.injected = sum(s.faults.get(x, 0) for x in ("write-eio", "enospc", "open-eio", "read-eio", "sudo-denied", "scandir-eacces"))

        def failed_by_fault():
            return threads > 1 or not dev.sudo_ok or sum(
                s.faults.get(x, 0) for x in ("write-eio", "enospc", "open-eio", "read-eio", "sudo-denied", "scandir-eacces")
            ) > f0

        w0 = len(dev.writes)
        if op == "get":
            r, err = attempt(var.GetUefiVar, name, guid)
            if err is not None:
                check(faults and failed_by_fault(), "get-fails", lambda: f"GetUefiVar({k!r}) raised {short(err)}")
                return
            want = (MISSING, None) if old is None else (0, old[4:])
            got = (r[0], None if r[1] is None else bytes(r[1]))
            check(got == want, "get", lambda: f"GetUefiVar({k!r}) gave {got[0]:#x}, {got[1] and len(got[1])} bytes; stored {want[1] and len(want[1])} bytes")
        elif op == "set":
            r, err = attempt(var.SetUefiVar, name, guid, data, *([attrs] if attrs is not None else []))
            full = struct.pack("=I", 7 if attrs is None else attrs) + data
            mine = [w[1] for w in dev.writes[w0:] if w[0] == k]
            gone = not data or attrs == 0  # the firmware deletes
            mismatch = old is not None and not gone and old[:4] != full[:4]
            if err is not None or not r:
                check(mismatch or (gone and (old is None or not data)) or (faults and failed_by_fault()), "set-fails", lambda: f"SetUefiVar({k!r}) gave {short(err) if err else r}")
                check(dev.state().get(k) == old, "set-damage", lambda: f"failed SetUefiVar({k!r}) changed the stored variable")
                return
            check(not mismatch, "set-lost", lambda: f"SetUefiVar({k!r}) reported success although the firmware refused it")
            if not gone:
                model[k] = full
            else:
                model.pop(k, None)
            check(dev.state().get(k) == model.get(k), "set-value", lambda: f"after SetUefiVar({k!r}, {len(data)} bytes) the store holds {(dev.state().get(k) or b'')[:20].hex()}")
            check(mine == [full], "set-split", lambda: f"SetUefiVar({k!r}) made {len(mine)} store operations {[m[:8].hex() for m in mine]}")
        elif op == "delete":
            r, err = attempt(var.SetUefiVar, name, guid)
            if old is None:
                check(err is None and r == 0, "delete-missing", lambda: f"deleting a missing variable gave {short(err) if err else r}")
                return
            if err is not None or not r:
                check(faults and failed_by_fault(), "delete-fails", lambda: f"deleting {k!r} gave {short(err) if err else r}")
                check(dev.state().get(k) == old, "delete-damage", "failed delete changed the variable")
                return
            model.pop(k, None)
            check(k not in dev.state(), "delete-value", lambda: f"{k!r} still stored after a successful delete")
        else:
            me = core.cur().tid
            l0 = len(dev.listings)
            stray = threads == 1 and d.chance(0.1)
            if stray:
                dev.extra_entries = ["no-guid-here"]
            if threads == 1 and d.chance(0.1):
                dev.present = False
            r, err = attempt(var.GetUefiAllVarNames)
            there, dev.present, dev.extra_entries = dev.present, True, []
            if not there:
                check(err is None and r[0] == MISSING and r[1] is None, "list-missing", lambda: f"no efivarfs: {short(err) if err else r}")
                return
            if err is not None:
                check(stray or (faults and failed_by_fault()), "list-fails", lambda: f"GetUefiAllVarNames raised {short(err)}")
                return
            check(r[0] == 0, "list", lambda: f"GetUefiAllVarNames gave status {r[0]:#x}")
            snap = [x for t, x in dev.listings[l0:] if t == me]
            got = sorted((a, str(b)) for a, b in unpack(r[1]))
            check(
                any(got == sorted((x[:-37], x[-36:].lower()) for x in y) for y in snap),
                "list",
                lambda: f"listing gave {got}, the file system listed {snap}",
            )

    fails = []

    def worker(ops):
        try:
            for o in ops:
                one(*o)
                inv()
        except Violation as e:
            fails.append(e)
        except BaseException as e:  # noqa: BLE001
            fails.append(e)
            raise

    if threads == 1:
        worker(plans[0])
    else:
        ts = [threading.Thread(target=worker, args=(p,)) for p in plans]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    if fails:
        raise fails[0]
    inv()
    have = dev.state()
    check(have == model, "store", lambda: f"the store holds {sorted(have)}, expected {sorted(model)} (or a value differs)")
    s.extra["nontrivial"] = True


def windows(s, faults, threads):
    """The same class on a Windows host."""
    d = s.d
    s.fs = simfs.SimFS(s, s.scratch)
    nv = nvsim.Nv(s)
    mod = nvsim.module()
    s.set_preempt(d.weighted([(2, 0), (2, 5), (1, 25)]) if threads > 1 else 0)
    guids = [str(uuid.UUID(int=d.below(1 << 32) << 96 | d.below(1 << 32))) for _ in range(2)]
    ident = [(n, d.pick(guids)) for n in names(d)]
    for k in ident:
        if d.chance(0.7):
            nv.vars[k] = (d.pick([7, 7, 3, 0x27]), d.bytes(d.pick([1, 2, 40, 5000])))
    model = dict(nv.vars)
    if faults:
        s.swarm(["nv-get-error", "nv-set-error", "nv-list-error"], (1, 2), (0.1, 0.4), 0.7)
    var = mod.UefiVariable()
    check(nv.privileged, "privilege", f"{nvsim.PRIVILEGE} is not enabled")
    check(not nv.tokens, "privilege", "the process token is left open")
    owners = [ident[k::threads] for k in range(threads)]

    def one(mine):
        me = core.cur().tid
        op = d.weighted([(4, "set"), (3, "get"), (2, "delete"), (2, "list")])
        if not mine and op in ("set", "delete"):
            op = "list"
        k = n, g = d.pick(mine) if mine else ("none", guids[0])
        name = n + "\0" * (1 if d.chance(0.3) else 0)
        guid = d.pick([g, g.upper(), uuid.UUID(g)])
        old = model.get(k)
        f0, s0, l0, g0 = len(nv.failed.get(me, ())), len(nv.stores), len(nv.listed), nv.grown

        def codes():
            return nv.failed.get(me, [])[f0:]

        def stored():
            return [x[1:] for x in nv.stores[s0:] if x[0] == me]

        s.op(op, n, guid, old and len(old[1]))
        if op == "get":
            r, err = attempt(var.GetUefiVar, name, guid)
            check(err is None, "get-fails", lambda: f"GetUefiVar({k}) raised {short(err)}")
            got = (r[0], bytes(r[1] or b""))
            bad = codes()
            want = (bad[-1], b"") if bad else (0, old[1]) if old else (MISSING, b"")
            check(got == want, "get", lambda: f"GetUefiVar({k}) gave {got[0]:#x}, {len(got[1])} bytes; expected {want[0]:#x}, {len(want[1])} bytes")
            check(old is not None or r[0], "get", lambda: f"GetUefiVar({k}) succeeded without such a variable")
        elif op in ("set", "delete"):
            data = d.bytes(d.weighted([(3, 5), (1, 1), (2, 300), (1, 70000)])) if op == "set" else None
            attrs = d.weighted([(10, None), (4, 7), (2, 3), (2, 0x27), (1, 0)])
            args = [data] if op == "set" else d.pick([[], [None]])
            if attrs is not None:
                args = [*(args or [None]), d.pick([attrs, attrs, str(attrs)])]
            r, err = attempt(var.SetUefiVar, name, guid, *args)
            check(err is None, "set-fails", lambda: f"SetUefiVar({k}) raised {short(err)}")
            if codes():
                check(not r, "set-lost", lambda: f"SetUefiVar({k}) gave {r} although Windows refused it with error {codes()[-1]}")
                check(nv.vars.get(k) == old, "set-damage", lambda: f"failed SetUefiVar({k}) changed the variable")
                s.probe("windows-refused")
                return
            check(r, "set-fails", lambda: f"SetUefiVar({k}) gave {r} although it was stored")
            if data and attrs != 0:
                model[k] = (attrs if attrs is not None else old[0] if old else 7, data)
            else:
                model.pop(k, None)
            check(nv.vars.get(k) == model.get(k), "set-value", lambda: f"after SetUefiVar({k}, {attrs}) the store holds {str(nv.vars.get(k))[:60]}")
            check(stored() == [(*k, attrs, data or b"")], "set-split", lambda: f"SetUefiVar({k}) made the store operations {str(stored())[:200]}")
        else:
            r, err = attempt(var.GetUefiAllVarNames)
            check(err is None, "list-fails", lambda: f"GetUefiAllVarNames raised {short(err)}")
            lists = [x for t, x in nv.listed[l0:] if t == me]
            if codes() or not lists:
                check(codes() or nv.grown != g0, "list-fails", lambda: f"GetUefiAllVarNames gave {r[0]:#x} without a reason")
                want = codes()[-1] if codes() else nvsim.STATUS_SMALL
                check(r[0] & 0xFFFFFFFF == want and not r[1], "list", lambda: f"listing failed with {want:#x} and gave {r[0]:#x}")
                s.probe("windows-list-failed")
                return
            got = bytes(r[1])
            check(r[0] == 0 and got.startswith(lists[-1]) and not got[len(lists[-1]) :].strip(b"\0"), "list", lambda: f"listing gave {r[0]:#x} {unpack(got)}, Windows listed {unpack(lists[-1])}")

    fails = []

    def worker(mine):
        try:
            for _ in range(d.int(1, 6 if threads == 1 else 4)):
                one(mine)
        except BaseException as e:  # noqa: BLE001
            fails.append(e)

    with util.root_logging():
        if threads == 1:
            worker(ident)
        else:
            ts = [threading.Thread(target=worker, args=(p,)) for p in owners]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
    if fails:
        raise fails[0]
    check(nv.vars == model, "store", lambda: f"the store holds {sorted(nv.vars)}, expected {sorted(model)} (or a value differs)")
    check(not s.fs.escapes, "escape", lambda: f"file access on a Windows host: {s.fs.escapes[:1]}")
    s.extra["nontrivial"] = True


MODES = [
    (2, "windows", lambda s: windows(s, s.d.chance(0.5), 1)),
    (1, "windows-concurrent", lambda s: windows(s, s.d.chance(0.5), 2)),
    (4, "single", lambda s: run(s, False, 1)),
    (4, "faults", lambda s: run(s, True, 1)),
    (2, "concurrent", lambda s: run(s, False, 2)),
    (1, "concurrent-faults", lambda s: run(s, True, 2)),
]
