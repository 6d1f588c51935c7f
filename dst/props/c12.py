"""C12: editing the variable store of a ROM image changes only the variables, exactly as asked, or nothing."""

import errno
import gc
import mmap
import os
import struct
import threading
import uuid

from .. import boot, core, simfs  # noqa: F401
from ..core import Violation
from ..util import attempt, check, short

import edk2toollib.uefi.edk2.variable_format as VF
import edk2toollib.uefi.edk2.variablestore_manulipulations as VS
from edk2toollib.uefi.pi_firmware_volume import EfiFirmwareVolumeHeader

ID = "C12"
HOOK_LINES = True
STEP_CAP = 300000
_real_mmap = mmap.mmap


class SimMmap(_real_mmap):
    """Memory map whose creation and flush may fail."""

    def __new__(cls, *a, **k):
        s = core.sim()
        if s is not None and s.fault("mmap-enomem"):
            raise OSError(errno.ENOMEM, "Cannot allocate memory")
        return super().__new__(cls, *a, **k)

    def flush(self, *a):
        s = core.sim()
        if s is not None:
            s.point("msync")
            if s.fault("msync-eio"):
                raise OSError(errno.EIO, "Input/output error")
        return super().flush(*a)

    def __setitem__(self, k, v):
        s = core.sim()
        if s is not None:
            s.point("map-write")
        return super().__setitem__(k, v)


mmap.mmap = SimMmap

NV_FV = uuid.UUID("fff12b8d-7696-4c8b-a985-2747075b4f50")
VAR = uuid.UUID("ddcf3616-3275-4164-98b6-fe85707ffe7d")
AUTH = uuid.UUID("aaf32c78-947b-439a-a180-2e144ec37792")
CHARS = "abcXYZ019_é漢😀 \ufeff"


class V:
    """Reference variable."""

    def __init__(self, d):
        self.name = "".join(d.pick(CHARS) for _ in range(d.int(1, 9) if d.chance(0.96) else d.pick([0, 40, 130])))
        self.data = d.bytes(d.weighted([(3, 4), (2, 1), (1, 0), (2, 13), (1, 130)]))
        self.guid = uuid.UUID(bytes=bytes(d.bytes(16)))
        self.attrs = d.pick([7, 3, 0x27, 1])
        self.state = d.pick([0x3F, 0x3F, 0x3D, 0x3C, 0x7F])
        self.count = d.below(1 << 20)
        self.stamp = d.bytes(16)
        self.key = d.below(100)

    def tup(self, auth):
        t = (self.name, self.data, self.guid, self.attrs, self.state)
        return t + ((self.count, self.stamp, self.key) if auth else ())

    def raw(self, auth):
        n = self.name.encode("utf-16-le") + b"\0\0"
        if auth:
            h = struct.pack(
                "<HBBIQ16sIII16s", 0x55AA, self.state, 0, self.attrs, self.count, self.stamp, self.key, len(n), len(self.data), self.guid.bytes_le
            )
        else:
            h = struct.pack("<HBBIII16s", 0x55AA, self.state, 0, self.attrs, len(n), len(self.data), self.guid.bytes_le)
        b = h + n + self.data
        return b + b"\xff" * (-len(b) % 4)


def ref_parse(area, auth):
    """Variables of a store area by an independent reader."""
    fmt = "<HBBIQ16sIII16s" if auth else "<HBBIII16s"
    n = struct.calcsize(fmt)
    out, off = [], 0
    while off + n <= len(area):
        f = struct.unpack_from(fmt, area, off)
        if f[0] != 0x55AA:
            break
        if auth:
            _, st, _, at, cnt, ts, key, ns, ds, g = f
        else:
            _, st, _, at, ns, ds, g = f
        if off + n + ns + ds > len(area):
            return None
        name = area[off + n : off + n + ns].decode("utf-16-le")
        data = area[off + n + ns : off + n + ns + ds]
        t = (name[:-1], data, uuid.UUID(bytes_le=g), at, st)
        if not name.endswith("\0"):
            return None
        out.append(t + ((cnt, ts, key) if auth else ()))
        off += (n + ns + ds + 3) // 4 * 4
    return out


class Region:
    """One NV FV inside the ROM."""

    def __init__(self, d, base):
        self.base = base
        self.auth = d.chance(0.5)
        self.hlen = 72
        self.vars = [V(d) for _ in range(d.int(0, 4))]
        body = b"".join(v.raw(self.auth) for v in self.vars)
        hdr = 60 if self.auth else 32
        slack = d.weighted([(3, 300), (2, hdr), (1, 0), (1, hdr - 4), (1, hdr + 40), (1, 2000)])
        self.tight = slack < hdr
        self.vsize = 28 + len(body) + slack
        tail = d.weighted([(2, 64), (1, 0), (1, 256)])
        self.size = self.hlen + self.vsize + tail
        fvh = struct.pack("<16s16sQ4sIHHHBBQQ", b"\0" * 16, NV_FV.bytes_le, self.size, b"_FVH", 0xFEFF, self.hlen, 0x1234, 0, 0, 2, 0x1000000001, 0)
        vsh = struct.pack("<16sIBBHI", (AUTH if self.auth else VAR).bytes_le, self.vsize, 0x5A, 0xFE, 0, 0)
        rest = d.pick([b"\xff" * slack, b"\xff" * min(slack, hdr) + d.bytes(max(0, slack - hdr))])
        # behind the store: working block data that may look like a variable
        trap = V(d).raw(self.auth)
        after = d.pick([d.bytes(tail), (trap * 8)[:tail], b"\xff" * tail])
        self.blob = fvh + vsh + body + rest + after
        assert len(self.blob) == self.size

    @property
    def area(self):
        a = self.base + self.hlen + 28
        return a, self.base + self.hlen + self.vsize

    @property
    def room(self):
        return self.vsize - 28


def seen(var, auth):
    """A library variable as a tuple."""
    t = (var.Name, bytes(var.Data), var.VendorGuid, var.Attributes, var.State)
    return t + ((var.MonotonicCount, bytes(var.TimeStamp).ljust(16, b"\0"), var.PubKeyIndex) if auth else ())


def make(store, v, auth):
    """A library variable from a reference variable."""
    x = store.get_new_var_class()
    x.set_name(v.name)
    x.set_data(v.data)
    x.VendorGuid, x.Attributes, x.State = v.guid, v.attrs, v.state
    if auth:
        x.MonotonicCount, x.TimeStamp, x.PubKeyIndex = v.count, v.stamp, v.key
    return x


class Editor:
    """A user editing one region."""

    def __init__(self, s, rom, reg, others):
        self.s, self.rom, self.reg, self.others = s, rom, reg, others
        self.model = [v.tup(reg.auth) for v in reg.vars]
        self.store = None
        self.pend = None
        self.flushed = False

    def fault_count(self):
        return sum(self.s.faults.get(k, 0) for k in ("mmap-enomem", "msync-eio", "open-eio", "open-eacces", "read-eio"))

    def open(self, alone):
        s, r = self.s, self.reg
        n0 = self.fault_count()
        self.store, err = attempt(VS.VariableStore, self.rom, store_base=r.base, store_size=r.size)
        if err is not None:
            check(self.fault_count() > n0, "open-fails", lambda: f"opening a valid store raised {short(err)}")
            self.store = None
            return False
        got = [seen(v, r.auth) for v in self.store.variables]
        check(got == self.model, "load", lambda: f"loaded {[(g[0], len(g[1])) for g in got]}, the store holds {[(g[0], len(g[1])) for g in self.model]}")
        self.pend = list(self.model)
        return True

    def edit(self):
        s, d, r, st = self.s, self.s.d, self.reg, self.store
        k = d.weighted([(4, "add"), (2, "remove"), (2, "data"), (1, "name"), (1, "attrs"), (1, "copy")])
        s.op("edit", k)
        if k == "add":
            v = V(d)
            if d.chance(0.2):
                v.data = d.bytes(d.pick([400, 3000]))
            st.add_variable(make(st, v, r.auth))
            self.pend.append(v.tup(r.auth))
        elif self.pend:
            i = d.below(len(self.pend))
            t = list(self.pend[i])
            if k == "remove":
                del st.variables[i], self.pend[i]
                return
            if k == "data":
                t[1] = V(d).data
                st.variables[i].set_data(t[1])
            elif k == "name":
                t[0] = V(d).name
                st.variables[i].set_name(t[0])
            elif k == "attrs":
                t[3], t[4] = V(d).attrs, V(d).state
                st.variables[i].Attributes, st.variables[i].State = t[3], t[4]
            else:
                raw = st.variables[i].serialize(d.chance(0.5))
                x = st.get_new_var_class().load_from_bytes(raw)
                check(seen(x, r.auth) == self.pend[i], "bytes-round-trip", lambda: f"{self.pend[i][0]} comes back as {x.Name}")
                st.variables[i] = x
            self.pend[i] = tuple(t)

    def spoil(self):
        """An edit that cannot be stored."""
        s, d, st = self.s, self.s.d, self.store
        if not st.variables:
            return False
        i = d.below(len(st.variables))
        v = st.variables[i]
        how = d.pick(["none-data", "attrs", "guid", "long-name", "surrogate"])
        self.s.hit("bad-variable", how)
        if how == "none-data":
            v.Data = None
        elif how == "attrs":
            v.Attributes = 1 << 40
        elif how == "guid":
            v.VendorGuid = None
        elif how == "surrogate":  # UTF-16 cannot represent it
            attempt(v.set_name, d.pick(["\ud800", "a\udfffb", v.Name + "\udc00"]))
        else:
            v.Name = v.Name + "longer"
        return True

    def flush(self, bad, exact):
        s, r = self.s, self.reg
        before = simfs.read(self.rom)
        n0 = self.fault_count()
        _, err = attempt(self.store.flush_to_file)
        after = simfs.read(self.rom)
        hdr = 60 if r.auth else 32
        need = sum((hdr + 2 * len(t[0].encode("utf-16-le")) // 2 + 2 + len(t[1]) + 3) // 4 * 4 for t in self.pend)
        fits = need + hdr <= r.room
        if fits and not bad:
            s.probe("flush-fits")
        elif not bad:
            s.probe("too-large")
        a, b = r.area
        if exact:
            check(
                len(before) == len(after) and before[:a] == after[:a] and before[b:] == after[b:],
                "outside",
                lambda: f"flush changed bytes outside the variable area {a:#x}-{b:#x}: first at {next((i for i in range(min(len(before), len(after))) if before[i] != after[i] and not a <= i < b), 'length')}",
            )
        if err is None:
            check(not bad, "bad-stored", "flush accepted a variable it cannot store")
            check(need <= r.room, "overflow", lambda: f"flush of {need} bytes into {r.room} returned normally")
            got = ref_parse(after[a:b], r.auth)
            check(got == self.pend, "stored", lambda: f"ROM holds {got and [(g[0], len(g[1])) for g in got]}, expected {[(g[0], len(g[1])) for g in self.pend]}")
            self.model = list(self.pend)
            return True
        io = self.fault_count() > n0
        check(bad or not fits or io, "flush-fails", lambda: f"flush of {need}+{hdr} bytes into {r.room} raised {short(err)}")
        if io:
            got = ref_parse(after[a:b], r.auth)
            check(got in (self.pend, self.model), "torn", "after a failed flush the store holds neither the old nor the new variables")
            self.model = got
        elif exact:
            check(before == after, "partial-flush", lambda: f"flush raised {short(err)} but changed the ROM at {next(i for i in range(len(before)) if before[i] != after[i]):#x}")
        else:
            check(before[a:b] == after[a:b], "partial-flush", lambda: f"flush raised {short(err)} but changed the variables")
        return False

    def drop(self):
        """Close without flushing; nothing may change the content."""
        before = simfs.read(self.rom)
        self.store = None
        gc.collect(0)
        if len(self.others) == 1:
            check(simfs.read(self.rom) == before, "close-writes", "closing the store changed the ROM")

    def session(self, rounds, faults, exact):
        d = self.s.d
        for _ in range(rounds):
            if not self.open(exact):
                continue
            for _ in range(d.int(0, 3)):
                for _ in range(d.int(0, 3)):
                    self.edit()
                bad = d.chance(0.25) and self.spoil()
                self.flush(bad, exact)
                if bad:
                    break
            self.drop()


def setup(s, n):
    d = s.d
    s.fs = simfs.SimFS(s, s.scratch)
    os.path.isdir(s.scratch + "/rom") or simfs.real["mkdir"](s.scratch + "/rom")
    rom = s.scratch + "/rom/image.bin"
    blob, regs = b"", []
    for _ in range(n):
        blob += d.bytes(d.pick([0, 16, 100, 4096]))
        r = Region(d, len(blob))
        regs.append(r)
        blob += r.blob
    blob += d.bytes(d.pick([0, 16, 700]))
    simfs.write(rom, blob)
    s.op("rom", len(blob), [(r.base, r.size, len(r.vars), r.auth) for r in regs])
    if d.chance(0.3):
        s.fault_rates["short-read"] = 0.3
    return rom, regs


def edit(s, faults):
    rom, regs = setup(s, s.d.int(1, 2))
    if faults:
        s.swarm(["mmap-enomem", "msync-eio", "open-eio", "open-eacces", "read-eio"], (1, 2), (0.1, 0.4), 0.6)
    eds = [Editor(s, rom, r, regs) for r in regs]
    if len(eds) == 1:
        eds[0].session(s.d.int(1, 4), faults, True)
    else:
        s.probe("two-stores")
        for _ in range(s.d.int(2, 4)):
            s.d.pick(eds).session(1, faults, True)
    _final(s, rom, eds)


def _final(s, rom, eds):
    s.fault_rates = {}
    for e in eds:
        check(e.open(True), "reopen", "store cannot be reopened")
        e.drop()
    s.extra["nontrivial"] = True


def concurrent(s):
    """Two users edit two stores of the same image at the same time."""
    rom, regs = setup(s, 2)
    s.set_preempt(s.d.pick([4, 15, 60]))
    eds = [Editor(s, rom, r, regs) for r in regs]
    fails = []

    def go(e):
        try:
            e.session(s.d.int(1, 2), False, False)
        except Violation as v:
            fails.append(v)

    ts = [threading.Thread(target=go, args=(e,)) for e in eds]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if fails:
        raise fails[0]
    _final(s, rom, eds)


def damaged(s):
    """Images that do not hold a usable store are rejected and left alone."""
    d = s.d
    rom, regs = setup(s, 1)
    r = regs[0]
    blob = bytearray(simfs.read(rom))
    base, size = r.base, r.size
    how = d.pick(["sig", "guid", "fvlen", "store-sig", "format", "state", "cut", "cut-var", "wrong-base", "long-var", "missing", "dir"])
    path = rom
    if how == "sig":
        blob[base + 40] ^= 1 + d.below(255)
    elif how == "guid":
        blob[base + 16 + d.below(16)] ^= 1 + d.below(255)
    elif how == "fvlen":
        size += d.pick([-1, 1, 64])
    elif how == "store-sig":
        blob[base + 72 + d.below(16)] ^= 1 + d.below(255)
    elif how == "format":
        blob[base + 72 + 20] ^= 1 + d.below(255)
    elif how == "state":
        blob[base + 72 + 21] ^= 1 + d.below(255)
    elif how == "cut":
        blob = blob[: base + d.below(size)]
    elif how == "wrong-base":
        base += d.pick([1, 8])
    elif how in ("cut-var", "long-var"):
        if not r.vars:
            return
        off = base + 100
        pos = off + (36 + 4 if r.auth else 12)  # DataSize
        struct.pack_into("<I", blob, pos, len(blob) + d.below(1000))
    elif how == "missing":
        path = rom + ".none"
    else:
        path = os.path.dirname(rom)
    s.hit("damage-" + how, "")
    simfs.write(rom, bytes(blob))
    st, err = attempt(VS.VariableStore, path, store_base=base, store_size=size)
    check(err is not None, "accepts-damaged", lambda: f"a damaged image ({how}) was opened with {len(st.variables)} variables")
    err = None
    gc.collect(0)
    check(simfs.read(rom) == bytes(blob), "damage-written", "opening a damaged image changed it")
    s.extra["nontrivial"] = True


MODES = [
    (5, "edit", lambda s: edit(s, False)),
    (3, "edit-faults", lambda s: edit(s, True)),
    (2, "concurrent", concurrent),
    (2, "damaged", damaged),
]
_ = VF, EfiFirmwareVolumeHeader
