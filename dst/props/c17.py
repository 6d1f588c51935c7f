"""C17: firmware structures are read back exactly as stored, or not at all."""

import contextlib
import datetime
import enum
import io
import hashlib
import logging
import struct
import threading
import uuid

from .. import bstream, fwgen, simfs
from ..core import Violation
from ..util import Sink, attempt, check, must, root_logging, short

import edk2toollib.uefi.authenticated_variables_structure_support as av
import edk2toollib.uefi.bmp_object as bo
import edk2toollib.uefi.edk2.fmp_payload_header as ph
import edk2toollib.uefi.edk2.ftw_working_block_format as ftw
import edk2toollib.uefi.edk2.variable_format as vf
import edk2toollib.uefi.edk2.variable_policy as vp
import edk2toollib.uefi.fmp_auth_header as fa
import edk2toollib.uefi.fmp_capsule_header as fc
import edk2toollib.uefi.pi_firmware_file as pff
import edk2toollib.uefi.pi_firmware_volume as pfv
import edk2toollib.uefi.uefi_capsule_header as uc
import edk2toollib.uefi.uefi_multi_phase as ump
import edk2toollib.uefi.wincert as wc
import edk2toollib.windows.policy.firmware_policy as fp

ID = "C17"
HOOK_LINES = True
STEP_CAP = 1000000


class Kind:
    """How one structure is read, written and looked at.

    src: "stream" or "bytes"; pos: where loading leaves the stream ("end", "same" or None);
    tail: may other data follow; exact: encoding returns whatever was read, valid or not.
    """

    def __init__(self, gen, new, redo, enc, src="stream", pos="end", tail=True, exact=False, write=None, show=()):
        self.name = gen.__name__
        self.gen, self.new, self.redo, self.enc = gen, new, redo, enc
        self.src, self.pos, self.tail, self.exact, self.write, self.show = src, pos, tail, exact, write, show


def flash(gen, cls, exact=True):
    enc = (lambda o: o.serialize()) if hasattr(cls, "serialize") else None
    return Kind(gen, lambda f, n: cls().load_from_file(f), lambda o, f, n: o.load_from_file(f), enc, pos="same", exact=exact)


def buf(gen, cls, tail=False, show=()):
    def new(b, n):
        o = cls()
        o.Decode(b)
        return o

    return Kind(gen, new, lambda o, b, n: o.Decode(b), lambda o: o.Encode(), src="bytes", tail=tail, show=show)


def new_policy(f, n):
    o = fp.FirmwarePolicy()
    o.FromFileStream(f, parseByBytes=bool(n & 1))
    return o


def enc_policy(o):
    b = bytearray()
    o.Serialize(output=b)
    return bytes(b)


def new_cert(f, n):
    o = wc.WinCert.factory(f)
    if o is None:
        raise ValueError("unsupported certificate type")
    return o


def new_entry(b, n):
    o = vp.VariablePolicyEntry()
    o.decode(b)
    return o


def enc_bmp(o):
    f = io.BytesIO()
    o.Write(f)
    return f.getvalue()


def filled(o, f):
    o.PopulateFromFileStream(f)
    return o


def plain(o, out):
    o.print(outfs=out)


def compact(o, out):
    o.print(compact=True, outfs=out)


def std(name):
    def show(o, out):
        with contextlib.redirect_stdout(out):
            getattr(o, name)()

    return show


def text(o, out):
    out.write(str(o))


SHOW = (plain, compact)
W = lambda o, f: o.write(f)  # noqa: E731
W2 = lambda o, f: o.Write(f)  # noqa: E731
E = lambda o: o.encode()  # noqa: E731
KINDS = {
    k.name: k
    for k in (
        Kind(lambda d: fwgen.x509_entry(d), lambda f, n: av.EfiSignatureDataEfiCertX509(decodefs=f, decodesize=n), lambda o, f, n: o.decode(f, decodesize=n), E, exact=True, write=W, show=SHOW),
        Kind(fwgen.sha_entry, lambda f, n: av.EfiSignatureDataEfiCertSha256(decodefs=f), lambda o, f, n: o.decode(f), E, exact=True, write=W, show=SHOW),
        Kind(fwgen.siglist, lambda f, n: av.EfiSignatureList(filestream=f), lambda o, f, n: o.decode(f), E, exact=True, write=W, show=SHOW),
        Kind(fwgen.sigdb, lambda f, n: av.EfiSignatureDatabase(filestream=f), lambda o, f, n: o.decode(f), E, tail=False, exact=True, write=W, show=SHOW),
        Kind(fwgen.time, lambda f, n: av.EfiTime(decodefs=f), lambda o, f, n: o.decode(f), E, write=W, show=(plain, text)),
        Kind(fwgen.authvar, lambda f, n: av.EfiVariableAuthentication2(decodefs=f), lambda o, f, n: o.decode(f), E, tail=False, pos=None, write=W),
        Kind(fwgen.attributes, lambda f, n: ump.EfiVariableAttributes(decodefs=f), lambda o, f, n: o.decode(f), E, exact=True, show=(text,)),
        Kind(fwgen.wincert_guid, new_cert, lambda o, f, n: o.decode(f), E, exact=True, write=W),
        Kind(fwgen.wincert_pkcs1, new_cert, lambda o, f, n: o.decode(f), E, exact=True, write=W, show=(lambda o, out: o.print(out),)),
        Kind(fwgen.color, lambda f, n: bo.BmpColorMap(f) if n & 1 else filled(bo.BmpColorMap(), f), lambda o, f, n: o.PopulateFromFileStream(f), enc_bmp, exact=True, write=W2),
        Kind(fwgen.bmp, lambda f, n: bo.BmpObject(f) if n & 1 else filled(bo.BmpObject(), f), lambda o, f, n: o.PopulateFromFileStream(f), enc_bmp, tail=False, write=W2, show=(lambda o, out: o.Print(PrintImageData=True, PrintColorMapData=True),)),
        Kind(fwgen.policy, new_policy, lambda o, f, n: o.FromFileStream(f, parseByBytes=bool(n & 1)), enc_policy, tail=False, pos=None, write=lambda o, f: o.SerializeToStream(f), show=(std("Print"),)),
        Kind(fwgen.policy_shared, new_policy, lambda o, f, n: o.FromFileStream(f, parseByBytes=bool(n & 1)), None, tail=False, pos=None, show=(std("Print"),)),
        flash(fwgen.ffs, pff.EfiFirmwareFileSystemHeader),
        flash(fwgen.fv, pfv.EfiFirmwareVolumeHeader),
        flash(fwgen.fvext, pfv.EfiFirmwareVolumeExtHeader),
        flash(fwgen.ftw_block, ftw.EfiFtwWorkingBlockHeader),
        flash(fwgen.ftw_write, ftw.EfiFtwWriteHeader),
        flash(fwgen.ftw_record, ftw.EfiFtwWriteRecord),
        flash(fwgen.store, vf.VariableStoreHeader),
        flash(fwgen.variable, vf.VariableHeader, False),
        flash(fwgen.auth_variable, vf.AuthenticatedVariableHeader, False),
        buf(fwgen.payload_header, ph.FmpPayloadHeaderClass, show=(std("DumpInfo"),)),
        buf(fwgen.auth_header, fa.FmpAuthHeaderClass),
        buf(fwgen.image_header, fc.FmpCapsuleImageHeaderClass),
        buf(fwgen.fmp_capsule, fc.FmpCapsuleHeaderClass),
        buf(fwgen.capsule, uc.UefiCapsuleHeaderClass),
        Kind(fwgen.variable_policy, new_entry, lambda o, b, n: o.decode(b), None, src="bytes", show=(text,)),
    )
}
KINDS["x509_entry"] = KINDS.pop("<lambda>")
KINDS["x509_entry"].name = "x509_entry"
KINDS["x509_entry"].gen = fwgen.x509_entry
BYTES_TOO = {"wincert_guid": wc.WinCertUefiGuid, "variable": vf.VariableHeader, "auth_variable": vf.AuthenticatedVariableHeader}


# ---- looking at objects
def freeze(v, depth=0):
    """Public content of an object, comparable across instances."""
    if isinstance(v, (str, int, float, bool, type(None), uuid.UUID, datetime.datetime, enum.Enum)):
        return v
    if isinstance(v, (bytes, bytearray, memoryview)):
        return bytes(v)
    if isinstance(v, (list, tuple)):
        return tuple(freeze(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return {k: freeze(x, depth + 1) for k, x in v.items()}
    if isinstance(v, logging.Logger) or not hasattr(v, "__dict__") or depth > 12:
        return type(v).__name__
    return (type(v).__name__, {k: freeze(x, depth + 1) for k, x in vars(v).items() if not k.startswith("_") and not callable(x)})


def field(o, key):
    if key == "nested":
        names = ("FmpCapsuleHeader", "FmpAuthHeader", "FmpPayloadHeader")
        return any(getattr(o, n, None) is not None for n in names)
    if key == "state":
        p = o.LockPolicy
        return p and (p.Namespace, p.Value, p.Name)
    if key == "size":
        return o.get_size()
    if key == "row":
        row = o.csv_row()
        check(len(row) == len(o.csv_header()), "variable_policy", "a row has other columns than the header")
        return row[:8]
    if key == "time":
        return o.get_datetime().timetuple()[:6]
    if key == "rules":
        return [(r.RootKey, r.SubKeyName.String, r.ValueName.String, r.Value.valueType.Get(), r.Value.value.String if r.Value.valueType.Get() == 0 else r.Value.value) for r in o.Rules]
    v = getattr(o, key)
    return bytes(v) if isinstance(v, (bytearray, memoryview)) else v


def judge(k, o, raw, fields, what):
    """The object holds exactly this structure."""
    if k.enc:
        got = must(k.name, k.enc, o)
        check(bytes(got) == raw, k.name, lambda: f"{what}: encodes to {diff(bytes(got), raw)}")
    for key, want in fields.items():
        got = must(k.name, field, o, key)
        check(got == want, k.name, lambda: f"{what}: {key} is {got!r}, expected {want!r}"[:300])


def diff(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"{len(a)} bytes, expected {len(b)}; first difference at {i}: {a[i : i + 12].hex()} / {b[i : i + 12].hex()}"


class Bench:
    """One object that is loaded again and again, and the streams it is loaded from."""

    def __init__(self, s, tag, faults, files):
        self.s, self.tag, self.faults, self.files = s, tag, faults, files
        self.k = KINDS[s.d.pick(sorted(KINDS))]
        self.o = None
        self.now = None

    def load(self, how, data, pos, n, faulty):
        """(error, failed operation?, shrunk?, position afterwards, object)."""
        s, k = self.s, self.k
        if k.src == "bytes":
            b = data[pos:]
            if how == "new":
                o, err = attempt(k.new, b, n)
            else:
                o, (_, err) = self.o, attempt(k.redo, self.o, b, n)
            return err, False, False, None, o
        if self.files and s.d.chance(0.8):
            path = s.scratch + f"/{self.tag}.bin"
            simfs.write(path, data)
            failed0 = s.fs.failed_ops
            if faulty:
                s.swarm(["read-eio", "short-read"], (1, 2), (0.2, 0.6), 0.7)
            o, err, at = self.o, None, None
            try:
                with open(path, "rb") as f:
                    f.seek(pos)
                    try:
                        if how == "new":
                            o = k.new(f, n)
                        else:
                            k.redo(self.o, f, n)
                        s.fault_rates = {}
                        at = f.tell()
                    except Violation:
                        raise
                    except Exception as e:  # noqa: BLE001
                        err = e
            finally:
                s.fault_rates = {}
            return err, s.fs.failed_ops != failed0, False, at, o
        med = bstream.Medium(s, data, pos, "in")
        if faulty:
            s.swarm(["read-eio", "seek-eio", "shrink"], (1, 1), (0.1, 0.5), 0.8)
        if how == "new":
            o, err = attempt(k.new, med, n)
        else:
            o, (_, err) = self.o, attempt(k.redo, self.o, med, n)
        s.fault_rates = {}
        return err, bool(med.failed), bool(med.shrunk), med.pos, o

    def step(self):
        s, d, k = self.s, self.s.d, self.k
        raw, fields, ends = k.gen(d)
        pre = d.bytes(d.pick([0, 0, 1, 7, 33]))
        post = d.bytes(d.pick([0, 1, 5, 40])) if k.tail else b""
        n = len(raw)
        how = "redo" if self.o is not None and d.chance(0.75) else "new"
        harm = d.weighted([(6, "none"), (2, "cut"), (1, "flip")])
        data = pre + raw + post
        if harm == "cut" and n:
            at = d.pick([*ends]) if ends and d.chance(0.3) else d.below(n)
            data = pre + raw[:at]
        elif harm == "flip" and n:
            b = bytearray(raw)
            for _ in range(d.int(1, 2)):
                i = d.below(min(n, 64) if d.chance(0.7) else n)
                b[i] = d.pick([0, 0xFF, b[i] ^ (1 << d.below(8)), d.below(256)])
            data = pre + bytes(b) + post
        else:
            harm = "none"
        faulty = self.faults and harm == "none" and d.chance(0.7)
        s.op("load", k.name, how, harm)
        err, failed, shrunk, at, o = self.load(how, data, len(pre), n, faulty)
        s.probe(harm + ("-error" if err else "-ok"))
        if failed:
            check(err is not None, k.name, "loading hid a failed read")
        elif shrunk:
            if err is None and k.enc:
                got = bytes(must(k.name, k.enc, o))
                check(got == raw or len(got) in ends and got == raw[: len(got)], k.name, lambda: f"loading a shrinking file gave {diff(got, raw)}")
        elif harm == "none":
            check(err is None, k.name, lambda: f"loading a valid structure raised {short(err)}")
        elif harm == "cut":
            cut = len(data) - len(pre)
            if cut in ends:
                check(err is None, k.name, lambda: f"loading a complete structure raised {short(err)}")
                if k.enc:
                    got = bytes(must(k.name, k.enc, o))
                    check(got in (raw[:cut], raw if k.name == "policy" else raw[:cut]), k.name, lambda: f"complete structure: {diff(got, raw[:cut])}")
            else:
                check(err is not None, k.name, lambda: f"loading the first {cut} of {n} bytes was accepted")
        elif err is None and k.enc:
            got, e2 = attempt(k.enc, o)
            if k.exact:
                check(e2 is None, k.name, lambda: f"damaged data was accepted but cannot be encoded: {short(e2)}")
                seen = data[len(pre) :]
                check(seen[: len(got)] == bytes(got), k.name, lambda: f"damaged data was altered: {diff(bytes(got), seen)}")
        if err is not None:
            check(isinstance(err, Exception), k.name, lambda: f"loading raised {short(err)}")
            if d.chance(0.7):
                # the next, healthy load is exact
                raw, fields, ends = k.gen(d)
                pre = d.bytes(d.below(4))
                n = len(raw)
                how = "redo" if self.o is not None and d.chance(0.7) else "new"
                err, _, _, at, o = self.load(how, pre + raw, len(pre), n, False)
                check(err is None, k.name, lambda: f"loading after a failure raised {short(err)}")
                s.probe("recovered")
                harm, failed, shrunk = "none", False, False
            else:
                self.now = None
                return
        if harm != "none" or shrunk or failed:
            self.o, self.now = o if how == "new" else self.o, None
            return
        judge(k, o, raw, fields, how)
        if k.pos == "end" and at is not None:
            check(at == len(pre) + n, k.name, lambda: f"loading left the stream at {at}, the structure ends at {len(pre) + n}")
        if k.pos == "same" and at is not None:
            check(at == len(pre), k.name, lambda: f"loading moved the stream from {len(pre)} to {at}")
        if how == "redo":
            fresh = must(k.name, k.new, raw if k.src == "bytes" else io.BytesIO(raw), n)
            if k.pos is not None and k.name != "policy":
                a, b = freeze(o), freeze(fresh)
                check(a == b, k.name, lambda: f"loading into a used object left {diffs(a, b)}")
            s.probe("reloaded")
        self.o, self.now = o, (raw, fields)
        if k.name in BYTES_TOO and d.chance(0.4):
            self.bytes_too(raw, fields, post)
        self.use()

    def bytes_too(self, raw, fields, post):
        """The same structure from a buffer."""
        k, cls = self.k, BYTES_TOO[self.k.name]
        if k.name == "wincert_guid":
            o = cls()
            rest = must(k.name, o.decode, raw + post)
            check(bytes(rest) == post, k.name, "decode did not return the rest of the buffer")
        else:
            o = must(k.name, cls().load_from_bytes, raw + post)
        judge(k, o, raw, fields, "buffer")
        cut = self.s.d.below(len(raw))
        o, err = attempt(lambda: cls().decode(raw[:cut]) if k.name == "wincert_guid" else cls().load_from_bytes(raw[:cut]))
        check(err is not None, k.name, lambda: f"the first {cut} of {len(raw)} bytes were accepted")

    def use(self):
        """Writing and showing an object reports failures and never changes it."""
        s, d, k, o = self.s, self.s.d, self.k, self.o
        raw, fields = self.now
        if k.write and d.chance(0.7):
            pre = d.bytes(d.below(6))
            med = bstream.Medium(s, pre, len(pre), "out")
            if self.faults:
                s.swarm(["write-eio", "enospc"], (1, 1), (0.2, 1.0), 0.7)
            _, err = attempt(k.write, o, med)
            s.fault_rates = {}
            check((err is not None) == bool(med.failed), k.name, lambda: f"writing {'raised ' + short(err) if err else 'hid a failure'}")
            if err is not None:
                med = bstream.Medium(s, pre, len(pre), "out")
                must(k.name, k.write, o, med)
                s.probe("rewritten")
            check(bytes(med.data) == pre + raw, k.name, lambda: f"written: {diff(bytes(med.data), pre + raw)}")
        for show in k.show:
            if d.chance(0.4):
                if show.__qualname__.startswith("std") and s.extra["threads"]:
                    continue
                out = Sink(s, "console", d.int(1, 6) if self.faults and d.chance(0.5) else None, OSError(28, "no space"))
                _, err = attempt(show, o, out)
                check((err is not None) == out.failed, k.name, lambda: f"showing {'raised ' + short(err) if err else 'hid a failure'}")
        judge(k, o, raw, fields, "after use")


def diffs(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 2 and len(b) == 2 and isinstance(a[1], dict) and isinstance(b[1], dict):
        for key in sorted(set(a[1]) | set(b[1])):
            x, y = a[1].get(key, "(missing)"), b[1].get(key, "(missing)")
            if x != y:
                return f"{key}: {x!r}, a new object has {y!r}"[:300]
    return f"{a!r} / {b!r}"[:300]


# ---- signature lists and databases put together by calls
def entries(raw):
    """[(type, [entry bytes])] of an encoded database."""
    out, at = [], 0
    while at < len(raw):
        check(len(raw) - at >= 28, "sigdb", "incomplete list header")
        t = uuid.UUID(bytes_le=raw[at : at + 16])
        n, h, z = struct.unpack_from("<III", raw, at + 16)
        check(n >= 28 and at + n <= len(raw) and h == 0, "sigdb", lambda: f"list of {n} bytes in {len(raw) - at}")
        check(n == 28 or z and (n - 28) % z == 0, "sigdb", lambda: f"list data of {n - 28} bytes with entries of {z}")
        out.append((t, [raw[i : i + z] for i in range(at + 28, at + n, z or 1)]))
        at += n
    return out


def make_list(s, faults, pool):
    """(list, its expected encoding) built call by call."""
    d = s.d
    typ = d.pick([fwgen.SHA, fwgen.SHA, fwgen.X509])
    owner = fwgen.guid(d)
    lst = av.EfiSignatureList(typeguid=typ)
    items, size = [], 48
    for _ in range(d.weighted([(1, 0), (3, 1), (3, 3)]) if typ == fwgen.SHA else 1):
        content = d.pick(pool)
        pre = d.bytes(d.below(5))
        for retry in range(2):
            med = bstream.Medium(s, pre + content, len(pre), "content")
            if faults and not retry:
                s.swarm(["read-eio", "seek-eio", "shrink"], (1, 1), (0.2, 0.7), 0.7)
            o, err = attempt(av.EfiSignatureDataFactory.create, typ, med, owner)
            s.fault_rates = {}
            if err is None:
                check(not med.failed, "create", "creating signature data hid a failed read")
                if not med.shrunk:
                    break
                if typ == fwgen.X509:
                    check(o.signature_data == content, "create", "signature data of a shrinking file is incomplete")
                    break
                if o.signature_data == hashlib.sha256(content).digest():
                    break
            else:
                check(med.failed or med.shrunk, "create", lambda: f"creating signature data raised {short(err)}")
        raw = owner.bytes_le + (hashlib.sha256(content).digest() if typ == fwgen.SHA else content)
        check(must("create", o.encode) == raw, "create", lambda: f"signature data {o.encode()[:60].hex()}, expected {raw[:60].hex()}")
        size = len(raw)
        items.append((o, raw))
    lst.AddSignatureHeader(None, SigSize=size)
    for o, raw in items:
        must("add", lst.AddSignatureData, o)
    if items and d.chance(0.4):
        bad = av.EfiSignatureDataEfiCertX509(cert=b"x" * (size - 16 + d.int(1, 3)), sigowner=owner)
        _, err = attempt(lst.AddSignatureData, bad)
        check(err is not None, "add", "signature data of another size was accepted")
    return lst, typ.bytes_le + struct.pack("<III", 28 + sum(len(r) for _, r in items), 0, size) + b"".join(r for _, r in items)


def database(s, faults):
    d = s.d
    pool = [d.bytes(d.int(1, 20)) for _ in range(d.int(1, 4))]
    pool32 = [d.bytes(32) for _ in range(d.int(1, 3))]
    lists, want = [], []
    for _ in range(d.int(0, 4)):
        if d.chance(0.4):
            raw = fwgen.siglist(d, pool32 if d.chance(0.5) else None)[0]
            lists.append(must("siglist", av.EfiSignatureList, io.BytesIO(raw)))
            want.append(raw)
        else:
            lst, raw = make_list(s, faults, pool)
            lists.append(lst)
            want.append(raw)
    db = av.EfiSignatureDatabase(esl_list=list(lists))
    raw = b"".join(want)
    check(must("sigdb", db.encode) == raw, "sigdb", lambda: f"database: {diff(db.encode(), raw)}")
    shas = sorted(e for t, es in entries(raw) if t == fwgen.SHA for e in es)
    certs = sorted(e for t, es in entries(raw) if t == fwgen.X509 for e in es)
    last = None
    for _ in range(d.int(1, 3)):
        k = d.below(3)
        if k == 0:
            canon, dupes = must("canonical", db.get_canonical_and_dupes)
        elif k == 1:
            canon, dupes = must("canonical", db.get_canonical), must("canonical", db.get_duplicates)
        else:
            canon, dupes = must("canonical", db.get_duplicates), None
            canon, dupes = must("canonical", db.get_canonical), canon
        craw, draw = must("canonical", canon.encode), must("canonical", dupes.encode)
        check(last in (None, (craw, draw)), "canonical", "the canonical form changes from call to call")
        last = (craw, draw)
        c, e = entries(craw), entries(draw)
        cs = [x for t, es in c if t == fwgen.SHA for x in es]
        check([x[16:] for x in cs] == sorted({x[16:] for x in shas}), "canonical", "the canonical hashes are not the sorted distinct hashes")
        check(sorted(cs + [x for t, es in e if t == fwgen.SHA for x in es]) == shas, "canonical", "hashes were lost or invented")
        xs = [[x[16:] for x in es] for t, es in c if t == fwgen.X509]
        check(all(a < b for a, b in zip(xs, xs[1:])), "canonical", "the certificates of the canonical form are not sorted and distinct")
        check(sorted(x for t, es in c + e if t == fwgen.X509 for x in es) == certs, "canonical", "certificates were lost or invented")
        check(sum(1 for t, _ in c if t == fwgen.SHA) <= 1, "canonical", "several hash lists in the canonical form")
        for what, blob in (("canonical form", craw), ("duplicates", draw)):
            back, err = attempt(av.EfiSignatureDatabase, io.BytesIO(blob))
            check(err is None and back.encode() == blob, "canonical", lambda: f"the {what} cannot be read back: {short(err) if err else 'differs'}")
        check(must("sigdb", db.encode) == raw, "canonical", "computing the canonical form changed the database")
        s.probe("canonical")
    if d.chance(0.5):
        pick = [x for x in lists if x.signature_type == fwgen.SHA]
        if len(pick) > 1:
            before = [x.encode() for x in pick]
            total = av.EfiSignatureList(typeguid=fwgen.SHA)
            for x in pick:
                must("merge", total.MergeSignatureList, x)
            for x, b in zip(pick, before):
                check(x.encode() == b, "merge", "merging changed a list that was merged")
            got = entries(must("merge", total.encode))
            check([e for _, es in got for e in es] == [e for b in before for _, es in entries(b) for e in es], "merge", "the merged list does not hold the entries of its parts in order")
            s.probe("merged")


def wincert(s, data):
    c = wc.WinCertUefiGuid()
    if s.d.chance(0.3):
        must("build", c.add_cert_data, s.d.bytes(s.d.int(0, 30)))  # replaced below
    must("build", c.add_cert_data, data if s.d.chance(0.5) else io.BytesIO(data))
    check(c.get_length() == 24 + len(data), "build", lambda: f"length {c.get_length()} of a certificate with {len(data)} bytes")
    return c, struct.pack("<IHH", 24 + len(data), 0x200, 0x0EF1) + fwgen.PKCS7.bytes_le + data


def capsule(s, faults):
    """A capsule put together from its parts, encoded on the way, read back and taken apart."""
    d = s.d
    images, wants, drivers, cuts = [], [], [], []
    out = io.StringIO()
    for _ in range(d.weighted([(1, 0), (4, 1), (3, 2), (1, 5)])):
        p = ph.FmpPayloadHeaderClass()
        p.FwVersion, p.LowestSupportedVersion, p.Payload = fwgen.u(d, 32), fwgen.u(d, 32), fwgen.blob(d, 0, 30)
        pw = struct.pack("<4sIII", b"MSS1", 16, p.FwVersion, p.LowestSupportedVersion) + p.Payload
        a = fa.FmpAuthHeaderClass()
        a.MonotonicCount = fwgen.u(d, 64)
        a.AuthInfo, cert = wincert(s, fwgen.blob(d, 0, 40))
        if d.chance(0.7):
            a.FmpPayloadHeader = p
        else:
            a.Payload = pw
        aw = struct.pack("<Q", a.MonotonicCount) + cert + pw
        if d.chance(0.5):
            check(must("build", a.Encode) == aw, "build", lambda: f"image: {diff(a.Encode(), aw)}")
        cut = d.below(len(aw) + 1)
        got = must("build", fa.FmpAuthHeaderClass().IsSigned, aw[:cut])
        check(got is (cut >= 8 + len(cert)), "build", lambda: f"IsSigned says {got} for {cut} bytes of an image whose certificate ends at {8 + len(cert)}")
        i = fc.FmpCapsuleImageHeaderClass()
        i.UpdateImageTypeId, i.UpdateImageIndex, i.UpdateHardwareInstance, i.VendorCodeBytes = fwgen.guid(d), d.int(1, 255), fwgen.u(d, 64), d.bytes(d.pick([0, 0, 3, 300]))
        if d.chance(0.7):
            i.FmpAuthHeader = a
        else:
            i.Payload = aw
        images.append(i)
        end = 8 + len(cert)
        bad = [n for n in range(1, len(aw)) if n < end or end < n < end + 16]
        n = d.pick(bad) if d.chance(0.7) else bad[0]
        cuts.append(struct.pack("<I16sB3BIIQ", 2, i.UpdateImageTypeId.bytes_le, i.UpdateImageIndex, 0, 0, 0, n, len(i.VendorCodeBytes), 0) + aw[:n] + i.VendorCodeBytes)
        wants.append(struct.pack("<I16sB3BIIQ", 2, i.UpdateImageTypeId.bytes_le, i.UpdateImageIndex, 0, 0, 0, len(aw), len(i.VendorCodeBytes), i.UpdateHardwareInstance) + aw + i.VendorCodeBytes)
    h = fc.FmpCapsuleHeaderClass()
    u = uc.UefiCapsuleHeaderClass()
    u.OemFlags, u.PersistAcrossReset, u.PopulateSystemTable, u.InitiateReset = fwgen.u(d, 16), d.chance(0.5), d.chance(0.5), d.chance(0.5)
    u.FmpCapsuleHeader = h
    flags = u.OemFlags | u.PersistAcrossReset << 16 | u.PopulateSystemTable << 17 | u.InitiateReset << 18
    todo, have = list(range(len(images))), []
    while True:
        if todo and d.chance(0.8):
            have.append(todo.pop(0))
            must("build", h.AddFmpCapsuleImageHeader, images[have[-1]])
        elif len(drivers) < 3 and d.chance(0.4):
            drivers.append(fwgen.blob(d, 1, 20))
            must("build", h.AddEmbeddedDriver, drivers[-1])
        if todo and d.chance(0.6):
            continue
        items = drivers + [wants[i] for i in have]
        body = struct.pack("<IHH", 1, len(drivers), len(have))
        at = 8 + 8 * len(items)
        for x in items:
            body += struct.pack("<Q", at)
            at += len(x)
        body += b"".join(items)
        raw = fwgen.FMP.bytes_le + struct.pack("<IIII", 32, flags, 32 + len(body), 0) + body
        for _ in range(d.int(1, 2)):
            check(must("build", u.Encode) == raw, "build", lambda: f"capsule: {diff(u.Encode(), raw)}")
        if not todo:
            break
    back = uc.UefiCapsuleHeaderClass()
    must("build", back.Decode, raw)
    for n, x in enumerate(drivers):
        check(bytes(must("build", back.FmpCapsuleHeader.GetEmbeddedDriver, n)) == x, "build", "an embedded driver is read back differently")
    for n, i in enumerate(have):
        x = must("build", back.FmpCapsuleHeader.GetFmpCapsuleImageHeader, n)
        check(x.Encode() == wants[i] and x.FmpAuthHeader.MonotonicCount is not None, "build", "an image is read back differently")
    if not s.extra["threads"]:
        for x in (u, back):
            with contextlib.redirect_stdout(out):
                _, err = attempt(x.FmpCapsuleHeader.DumpInfo) if d.chance(0.2) and not have else (None, None)
            check(err is None, "build", lambda: f"showing raised {short(err)}")
    check(back.Encode() == raw and u.Encode() == raw, "build", "the capsule changed by being read")
    # an image that is cut off inside, while every size around it is right
    if have:
        n = d.pick(have)
        items = drivers + [cuts[i] if i == n else wants[i] for i in have]
        body, at = struct.pack("<IHH", 1, len(drivers), len(have)), 8 + 8 * len(items)
        for x in items:
            body += struct.pack("<Q", at)
            at += len(x)
        body += b"".join(items)
        cut = fwgen.FMP.bytes_le + struct.pack("<IIII", 32, flags, 32 + len(body), 0) + body
        for cls, x in ((fc.FmpCapsuleImageHeaderClass, cuts[n]), (fc.FmpCapsuleHeaderClass, body), (uc.UefiCapsuleHeaderClass, cut)):
            _, err = attempt(cls().Decode, x)
            check(isinstance(err, (ValueError, struct.error)), "build", lambda: f"{cls.__name__} {'raised ' + short(err) if err else 'accepted'} an image that is cut off")
        s.probe("cut-inside")
    # certificates of the other kind, and times
    g, data = fwgen.guid(d), fwgen.blob(d, 1, 40)
    c = wc.WinCertPkcs1()
    if d.chance(0.3):
        _, err = attempt(c.add_cert_data, io.BytesIO(data))
        check(err is not None, "build", "a certificate without hash algorithm was accepted")
    must("build", c.set_hash_algorithm, g)
    for retry in range(2):
        pre = d.bytes(d.below(5))
        med = bstream.Medium(s, pre + data, len(pre), "certificate")
        if faults and not retry:
            s.swarm(["read-eio"], (1, 1), (0.3, 1.0), 0.7)
        _, err = attempt(c.add_cert_data, med)
        s.fault_rates = {}
        check((err is not None) == bool(med.failed), "build", lambda: f"adding certificate data {'raised ' + short(err) if err else 'hid a failure'}")
        if err is None:
            break
    want = struct.pack("<IHH", 24 + len(data), 0x200, 0x0EF0) + g.bytes_le + data
    check(must("build", c.encode) == want, "build", lambda: f"certificate: {diff(c.encode(), want)}")
    raw, fields, _ = fwgen.time(d)
    x = must("build", av.EfiTime.from_binary, raw)
    check(x.encode() == raw and x.get_datetime().timetuple()[:6] == fields["time"], "build", "a time read from bytes differs")
    s.probe("capsule-built")


def a_rule(r):
    key, sub, name, t, v = r
    v = fp.PolicyString(v) if t == 0 else v
    return fp.Rule(key, fp.PolicyString(sub), fp.PolicyString(name), fp.PolicyValue(fp.PolicyValueType(t), v))


def policies(s, faults):
    """A policy put together rule by rule, maybe on top of one that was read."""
    d = s.d
    if d.chance(0.4):
        raw, fields, _ = d.pick([fwgen.policy, fwgen.policy_shared])(d)
        o = must("policy", new_policy, io.BytesIO(raw), d.below(2))
        head, have = raw[:30], list(fields["rules"])
    else:
        o, have = fp.FirmwarePolicy(), []
        head = struct.pack("<HI16sHIH", 2, 1, uuid.UUID("5AE6F808-8384-4EB9-A23A-0CCC1093E3DD").bytes_le, 0, 0, 0)

    def expect(new):
        return not any(new == r for r in have)

    for _ in range(d.int(1, 8)):
        k = d.weighted([(4, "rule"), (2, "target"), (2, "policy"), (3, "write")])
        if k == "rule":
            r = d.pick(have) if have and d.chance(0.4) else fwgen.policy_rule(d)
            if d.chance(0.2):
                r = r[:3] + ((2, r[4] & 0xFFFFFFFF) if r[3] == 5 and r[:3] != (0xEF100000, "UEFI", "Policy") else r[3:])
            new = expect(r)
            got = must("policy", o.AddRule, a_rule(r))
            check(got is new, "policy", lambda: f"AddRule returned {got} for a rule that was {'new' if new else 'there'}: {r}"[:200])
            if new:
                have.append(r)
            else:
                s.probe("rule-again")
        elif k == "target":
            t = {}
            for _ in range(d.int(0, 4)):
                name = d.pick(["Manufacturer", "Product", "SerialNumber", "OEM_01", "OEM_02", "Größe", "Nonce", "nonce"])
                t[name] = fwgen.u(d, 64) if name == "Nonce" else fwgen.word(d, fwgen.WORDS)
            must("policy", o.SetDeviceTarget, t)
            for name, v in t.items():
                r = (0xEF100000, "Target", name, 5 if name == "Nonce" else 0, v)
                if expect(r):
                    have.append(r)
        elif k == "policy":
            v = d.pick([fwgen.u(d, 64), 1, 2, 3])
            must("policy", o.SetDevicePolicy, v)
            if expect((0xEF100000, "UEFI", "Policy", 5, v)):
                have.append((0xEF100000, "UEFI", "Policy", 5, v))
        raw = head + struct.pack("<H", len(have)) + fwgen.policy_body(have)
        if k == "write":
            pre = d.bytes(d.below(6))
            med = bstream.Medium(s, pre, len(pre), "out")
            if faults:
                s.swarm(["write-eio", "enospc"], (1, 1), (0.2, 1.0), 0.7)
            _, err = attempt(o.SerializeToStream, med)
            s.fault_rates = {}
            check((err is not None) == bool(med.failed), "policy", lambda: f"writing {'raised ' + short(err) if err else 'hid a failure'}")
            if err is None:
                check(bytes(med.data) == pre + raw, "policy", lambda: f"written: {diff(bytes(med.data), pre + raw)}")
            s.probe("policy-written")
        else:
            got = must("policy", enc_policy, o)
            check(got == raw, "policy", lambda: f"after {k}: {diff(got, raw)}")
    if len(raw) >= 32:
        again = must("policy", new_policy, io.BytesIO(raw), d.below(2))
        check(field(again, "rules") == have and enc_policy(again) == raw, "policy", "a policy that was put together is read back differently")


def run(s, faults, threads, files):
    d = s.d
    s.extra["threads"] = threads
    s.set_preempt(d.pick([5, 40, 200]) if threads else 0)
    fails = []
    s.fs = simfs.SimFS(s, s.scratch)

    def worker(tag):
        try:
            bs = [Bench(s, f"{tag}{i}", faults, files) for i in range(d.int(1, 3))]
            for _ in range(d.int(2, 8)):
                if not files and d.chance(0.15):
                    d.pick([database, database, policies, capsule])(s, faults)
                else:
                    d.pick(bs).step()
        except Violation as v:
            fails.append(v)

    shared = []

    def reader():
        try:
            for k, o, raw, fields in shared:
                for _ in range(2):
                    judge(k, o, raw, fields, "shared object")
                    if k.write:
                        out = bstream.Medium(s, b"", 0, "out")
                        must(k.name, k.write, o, out)
                        check(bytes(out.data) == raw, k.name, lambda: f"shared object written: {diff(bytes(out.data), raw)}")
        except Violation as v:
            fails.append(v)

    with root_logging(logging.NullHandler()), contextlib.redirect_stdout(io.StringIO()):
        if threads:
            for _ in range(d.int(1, 3)):
                k = KINDS[d.pick(sorted(KINDS))]
                raw, fields, _ = k.gen(d)
                shared.append((k, must(k.name, k.new, raw if k.src == "bytes" else io.BytesIO(raw), len(raw)), raw, fields))
            ts = [threading.Thread(target=worker, args=("A",)), threading.Thread(target=reader), threading.Thread(target=d.pick([reader, lambda: worker("B")]))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        else:
            worker("A")
    if fails:
        raise fails[0]
    s.extra["nontrivial"] = True


MODES = [
    (4, "serial", lambda s: run(s, False, False, False)),
    (4, "faults", lambda s: run(s, True, False, False)),
    (2, "files", lambda s: run(s, True, False, True)),
    (2, "threads", lambda s: run(s, False, True, False)),
]
