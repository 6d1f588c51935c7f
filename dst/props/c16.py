"""C16: an authenticated variable is stamped, sized and signed for exactly the content it carries."""

import datetime
import io
import logging
import struct
import threading
import uuid

from .. import boot, bstream, pki  # noqa: F401
from ..core import Violation
from ..util import Sink, attempt, check, must, root_logging, short

from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import padding
from cryptography.hazmat.primitives.serialization import Encoding, pkcs12

import edk2toollib.uefi.authenticated_variables_structure_support as av

ID = "C16"
HOOK_LINES = True
STEP_CAP = 600000
NAMES = ["db", "PK", "dbx", "x", "Ünï", "漢字", "a😀b", "with space", "N" * 40, "\u0100\u0001"]
HASHES = {"2.16.840.1.101.3.4.2.1": hashes.SHA256, "2.16.840.1.101.3.4.2.2": hashes.SHA384, "2.16.840.1.101.3.4.2.3": hashes.SHA512}
ATTRS = [(0x27, 0x27), ("NV,BS,RT,AT", 0x27), ("EFI_VARIABLE_NON_VOLATILE, EFI_VARIABLE_APPEND_WRITE", 0x41), (0, 0), (0x67, 0x67), ("BS", 2)]
FLAGS = [
    (1, "NV", "NON_VOLATILE"),
    (2, "BS", "BOOTSERVICE_ACCESS"),
    (4, "RT", "RUNTIME_ACCESS"),
    (8, "HW", "HARDWARE_ERROR_RECORD"),
    (0x10, "AW", "AUTHENTICATED_WRITE_ACCESS"),
    (0x20, "AT", "TIME_BASED_AUTHENTICATED_WRITE_ACCESS"),
    (0x40, "AP", "APPEND_WRITE"),
]


def attributes(d):
    """(attributes as given by a caller, their value)."""
    if d.chance(0.3):
        return d.pick(ATTRS)
    fs = d.sample(FLAGS, d.int(1, 7))
    v = sum(f[0] for f in fs)
    if d.chance(0.4):
        return v, v
    if d.chance(0.2):
        fs = fs + [fs[0]]  # named twice
    names = [f[1] if d.chance(0.6) else "EFI_VARIABLE_" + f[2] for f in fs]
    return d.pick([",", ", ", " , "]).join(n.lower() if d.chance(0.1) else n for n in names), v


def some_name(d):
    if d.chance(0.6):
        return d.pick(NAMES)
    if d.chance(0.2):
        return d.pick(["", " ", "\0", "db"]) + d.pick(NAMES) + d.pick(["\0", " ", "\n", "\0\0", "\ufeff", ""])
    return d.word(1, 12, "aAbZ09_- .\t/é漢😀")
PKCS7 = uuid.UUID("4aafd29d-68df-49ee-8aa9-347d375665a7").bytes_le
SHA, X509 = uuid.UUID("c1c41626-504c-4092-aca9-41f936934328"), uuid.UUID("a5c059a1-94e4-4aa7-87b5-ab155c2bf072")


# ---- a small DER reader, independent of the library's
def tlv(b, at):
    """(tag, content start, end) of the element at `at`."""
    check(at + 2 <= len(b), "der", "truncated DER")
    tag, n = b[at], b[at + 1]
    at += 2
    if n & 0x80:
        k = n & 0x7F
        n = int.from_bytes(b[at : at + k], "big")
        at += k
    check(at + n <= len(b), "der", "DER element larger than its container")
    return tag, at, at + n


def kids(b, lo, hi):
    out = []
    while lo < hi:
        t, s, e = tlv(b, lo)
        out.append((t, lo, s, e))
        lo = e
    check(lo == hi, "der", "DER element crosses its container")
    return out


def oid(b):
    out, v = [str(b[0] // 40), str(b[0] % 40)], 0
    for x in b[1:]:
        v = v << 7 | x & 0x7F
        if not x & 0x80:
            out.append(str(v))
            v = 0
    return ".".join(out)


def signed_data(blob, wrapped):
    """(certificates, [(serial, hash oid, signature)]) of a PKCS#7 blob with no embedded content."""
    t, s, e = tlv(blob, 0)
    check(t == 0x30 and e == len(blob), "signature-blob", "the signature is not one DER sequence")
    if wrapped:
        k = kids(blob, s, e)
        check(oid(blob[k[0][2] : k[0][3]]) == "1.2.840.113549.1.7.2", "content-info", "the content info is not signedData")
        t, s, e = tlv(blob, k[1][2])
    k = kids(blob, s, e)
    check(k[0][0] == 2 and k[1][0] == 0x31 and k[2][0] == 0x30, "signed-data", lambda: f"not a SignedData: {[hex(x[0]) for x in k]}")
    check(len(kids(blob, k[2][2], k[2][3])) == 1, "detached", "the signature embeds the content")
    certs = [bytes(blob[c[1] : c[3]]) for x in k if x[0] == 0xA0 for c in kids(blob, x[2], x[3])]
    infos = []
    for si in kids(blob, k[-1][2], k[-1][3]):
        p = kids(blob, si[2], si[3])
        p = [x for x in p if x[0] not in (0xA0, 0xA1)]
        ser = kids(blob, p[1][2], p[1][3])[1]
        alg = kids(blob, p[2][2], p[2][3])[0]
        infos.append((int.from_bytes(blob[ser[2] : ser[3]], "big", signed=True), oid(blob[alg[2] : alg[3]]), bytes(blob[p[4][2] : p[4][3]])))
    return certs, infos


def payload(d):
    k = d.weighted([(2, "empty"), (4, "raw"), (3, "sha"), (2, "x509"), (1, "broken-list"), (1, "big"), (1, "plain"), (0.3, "huge")])
    if k == "empty":
        return b""
    if k == "raw":
        return d.bytes(d.int(1, 60))
    if k == "big":
        return d.bytes(50) * d.int(20, 60)
    if k == "huge":
        return (d.bytes(d.int(1, 50)) * 20000)[: d.pick([4095, 4096, 8193, 32768, 65535, 65536, 70000])]
    if k == "plain":
        return d.pick([b"\0", b"\xff", b" ", b"\n", b"\r\n", b"0", b"\x1a"]) * d.pick([1, 1, 2, 4, 16, 28, 40])
    out = b""
    for _ in range(d.int(1, 3)):
        if k == "x509":
            c = pki.IDS[d.below(3)][0].public_bytes(Encoding.DER)
            out += X509.bytes_le + struct.pack("<III", 28 + 16 + len(c), 0, 16 + len(c)) + d.bytes(16) + c
        else:
            n = d.int(0, 3)
            out += SHA.bytes_le + struct.pack("<III", 28 + 48 * n, 0, 48) + d.bytes(48 * n)
    if k == "broken-list":
        out = out[: d.below(len(out))]
    return out


class Model:
    """One builder and what it should hold."""

    def __init__(self, s, tag):
        d = s.d
        self.s, self.tag = s, tag
        self.name = some_name(d)
        self.guid = uuid.UUID(bytes=d.bytes(16))
        a, self.attrs = attributes(d)
        given = None
        if d.chance(0.5):
            given = datetime.datetime(d.int(1998, 2090) if d.chance(0.8) else d.pick([1900, 1969, 1970, 2000, 2038, 2100, 9999]), d.int(1, 12), d.int(1, 28), d.below(24), d.below(60), d.below(60), d.below(1000000))
        self.signers, self.certs = [], set()
        self.data = payload(d)
        w0 = walls(s)
        b, err = None, None
        g = str(self.guid).upper() if d.chance(0.5) else self.guid
        kw = {"efi_time": given} if given is not None or d.chance(0.3) else {}
        b, err = attempt(av.EfiVariableAuthentication2Builder, self.name, g, a, *([io.BytesIO(self.data)] if d.chance(0.3) else [self.data]), **kw)
        check(err is None, "builder", lambda: f"creating a builder raised {short(err)}")
        if given is not None:
            self.time = stamp(given)
        else:
            self.time = pick_stamp(s, w0, b.authenticated_variable.time.get_datetime(), "builder")
            s.probe("stamped-now")
        self.b = b

    def content(self):
        return self.name.encode("utf-16-le") + self.guid.bytes_le + struct.pack("<I", self.attrs) + self.time + self.data

    def want(self, sig):
        return self.time + struct.pack("<IHH", 24 + len(sig), 0x200, 0x0EF1) + PKCS7 + sig + self.data


def stamp(t):
    return struct.pack("<H6BLh2B", t.year, t.month, t.day, t.hour, t.minute, t.second, 0, 0, 0, 0, 0)


def walls(s):
    return len(s.extra["walls"]) - 1


def clock(s, jump=None, secs=0):
    """Let time pass and remember every clock reading."""
    s.now += secs
    if jump is not None:
        s.wall_offset += jump
        s.hit("clock-jump", jump)
    s.extra["walls"].append(datetime.datetime.now())


def pick_stamp(s, w0, got, what):
    """Encoding of the time `got`, which must be a clock reading made since w0."""
    ok = {stamp(w) for w in s.extra["walls"][w0:]}
    check(stamp(got) in ok, "stamp", lambda: f"{what} is stamped {got} while the clock said {s.extra['walls'][w0:][:3]}")
    return stamp(got)


def who(der):
    return next((f"id{i}" for i, (c, _) in enumerate(pki.IDS) if c.public_bytes(Encoding.DER) == der), der.hex())


def verify(m, var, wrapped, omit=None):
    """The finalized variable carries exactly this content and valid signatures over it."""
    s = m.s
    raw = must("encode", var.encode)
    check(raw[:16] == m.time, "time", lambda: f"variable time {raw[:16].hex()}, expected {m.time.hex()}")
    check(len(raw) >= 40, "header", lambda: f"{len(raw)} bytes")
    size, rev, typ = struct.unpack_from("<IHH", raw, 16)
    check((rev, typ, raw[24:40]) == (0x200, 0x0EF1, PKCS7), "header", lambda: f"revision {rev:x} type {typ:x}")
    check(24 <= size <= len(raw) - 16, "length", lambda: f"dwLength {size} in {len(raw)} bytes")
    sig, data = raw[40 : 16 + size], raw[16 + size :]
    check(data == m.data, "payload", lambda: f"payload {data[:40].hex()} ({len(data)}), expected {m.data[:40].hex()} ({len(m.data)})")
    check(sig == m.b.get_signature(), "signature", "get_signature differs from the variable's certificate data")
    check(m.b.get_digest() == m.content(), "digest", lambda: "get_digest is not name+guid+attributes+time+payload")
    certs, infos = signed_data(sig, wrapped)
    want = {c.public_bytes(Encoding.DER) for c, _, _ in m.signers} | m.certs
    check(set(certs) == want, "certificates", lambda: f"certificates {sorted(map(who, certs))}, expected {sorted(map(who, want))}")
    check(len(infos) == len(m.signers), "signers", lambda: f"{len(infos)} signer infos, expected {len(m.signers)}")
    left = list(m.signers)
    for serial, alg, value in infos:
        c = [x for x in left if x[0].serial_number == serial and isinstance(x[2], HASHES.get(alg, str))]
        check(c, "signers", lambda: f"unexpected signer {serial} {alg}")
        left.remove(c[0])
        try:
            c[0][0].public_key().verify(value, m.content(), padding.PKCS1v15(), c[0][2])
        except InvalidSignature:
            raise Violation("signature", f"signer {serial}: the signature does not verify over the variable's content") from None
    check(var.payload_size == len(m.data), "size", lambda: f"payload_size {var.payload_size}, payload {len(m.data)}")
    s.probe("verified")
    if len(infos) > 1:
        s.probe("several-signers")
    return raw, sig


def use(m, var, raw, sig, faults):
    """Write, print, reload: the bytes stay what they are."""
    s, d = m.s, m.s.d
    for _ in range(d.int(1, 2)):
        pre, post = d.bytes(d.below(8)), b""
        how = d.pick(["write", "print", "Encode"])
        if how == "print" and len(m.data) > 8000:
            how = "write"  # the dump is made byte by byte
        if how == "print":
            out = Sink(s, "console", d.int(1, 8) if faults and d.chance(0.5) else None, OSError(28, "no space"))
            _, err = attempt(var.print, out)
            check((err is not None) == out.failed, "print", lambda: f"printing {'raised ' + short(err) if err else 'hid a failure'}")
        else:
            med = bstream.Medium(s, pre, len(pre), "out")
            if faults:
                s.swarm(["write-eio", "enospc"], (1, 1), (0.5, 1.0), 0.7)
            f = {"write": var.write, "Encode": var.Encode}[how]
            _, err = attempt(f, med)
            s.fault_rates = {}
            check((err is not None) == bool(med.failed), "write", lambda: f"write {'raised ' + short(err) if err else 'hid a failure'}")
            if err:
                check(isinstance(err, OSError), "write", lambda: f"write raised {short(err)}")
                med = bstream.Medium(s, pre, len(pre), "out")
                must("rewrite", f, med)
            check(bytes(med.data) == pre + raw + post, "written", lambda: f"written {bytes(med.data)[:60].hex()}, expected {(pre + raw)[:60].hex()}")
            src = bstream.Medium(s, pre + raw, len(pre), "in")
            if faults:
                s.swarm(["read-eio", "shrink", "seek-eio"], (1, 1), (0.1, 0.3), 0.7)
            other, err = attempt(av.EfiVariableAuthentication2, decodefs=src)
            s.fault_rates = {}
            if err is not None:
                check(src.failed or src.shrunk, "reload", lambda: f"decoding the variable raised {short(err)}")
                s.probe("reload-refused")
                src = bstream.Medium(s, pre + raw, len(pre), "in")
                other = must("reload", av.EfiVariableAuthentication2, decodefs=src)
            else:
                check(not src.failed, "reload", "decoding hid a read failure")
            if src.shrunk:
                got = other.encode()
                check(len(got) >= 40 + len(sig) and got == raw[: len(got)], "reload", lambda: f"decoding a cut-off variable gave {len(got)} bytes {got[:60].hex()} of {len(raw)}")
                s.probe("reload-cut")
            else:
                check(other.encode() == raw and other.payload_size == len(m.data), "reload", lambda: "the reloaded variable differs")
                check(other.sig_list_payload is None or other.sig_list_payload.encode() == m.data, "reload", "signature lists differ from the payload")
                check(stamp(other.time.get_datetime()) == m.time, "reload", lambda: f"reloaded time {other.time.get_datetime()}")
        check(var.encode() == raw, "changed-by-use", lambda: f"{how} changed the variable")


def step(m, faults):
    s, d = m.s, m.s.d
    b = m.b
    k = d.weighted([(3, "update"), (5, "sign"), (5, "finalize"), (2, "wait")])
    s.op("step", m.tag, k)
    if k == "wait":
        clock(s, d.pick([None, -86400.0, 7200.0, 3600 * 24 * 400.0]), d.pick([0.5, 3.0, 86400.0]))
    elif k == "update":
        new = payload(d)
        how = d.weighted([(2, "bytes"), (2, "stream"), (1, "none"), (3, "medium")])
        if how == "none":
            new = b""
            arg = None
        elif how == "bytes":
            arg = new
        else:
            pre = d.bytes(d.below(5))
            arg = io.BytesIO(pre + new) if how == "stream" else bstream.Medium(s, pre + new, len(pre), "payload")
            arg.seek(len(pre))
        if faults and how == "medium":
            s.swarm(["read-eio", "seek-eio"], (1, 1), (0.3, 1.0), 0.8)
        _, err = attempt(b.update_payload, arg)
        s.fault_rates = {}
        if err is not None:
            check(how == "medium" and arg.failed, "update", lambda: f"update_payload raised {short(err)}")
            s.probe("update-failed")
        else:
            check(how != "medium" or not arg.failed, "update", "update_payload hid a read failure")
            m.data = new
            m.signers, m.certs = [], set()
    elif k == "sign":
        cert, key = pki.IDS[d.below(3)]
        h = d.pick([hashes.SHA256, hashes.SHA384, hashes.SHA512])()
        extra = [pki.IDS[i][0] for i in d.subset(range(3), 0.3)]
        if d.chance(0.2):
            extra += [pki.EXTRAS[d.below(len(pki.EXTRAS))] for _ in range(d.int(1, 9))]
        kw = {}
        if not isinstance(h, hashes.SHA256) or d.chance(0.3):
            kw["hash_algorithm"] = h
        if extra or d.chance(0.2):
            kw["additional_certificates"] = [pkcs12.PKCS12Certificate(c, None) for c in extra]
        bad = faults and d.chance(0.4)
        if bad:
            what = d.pick(["hash", "key", "extra"])
            if what == "hash":
                kw["hash_algorithm"] = d.pick([hashes.MD5(), None, "sha256"])
            elif what == "key":
                key = d.pick([None, b"key", pki.IDS[0][0]])
            else:
                kw["additional_certificates"] = kw.get("additional_certificates", []) + [object()]
            s.hit("bad-signer", what)
        _, err = attempt(b.sign, cert, key, **kw)
        check((err is not None) == bad, "sign", lambda: f"sign {'raised ' + short(err) if err else 'accepted an unusable signer'}")
        if err is None:
            m.signers.append((cert, key, h))
            m.certs |= {c.public_bytes(Encoding.DER) for c in extra}
        else:
            s.probe("sign-failed")
    else:
        omit = d.chance(0.6)
        var, err = attempt(b.finalize, *([] if omit and d.chance(0.5) else [omit]))
        if not m.signers:
            check(err is not None, "unsigned", "finalize returned a variable nobody signed")
            s.probe("unsigned-refused")
            return
        check(err is None, "finalize", lambda: f"finalize raised {short(err)}")
        raw, sig = verify(m, var, not omit)
        use(m, var, raw, sig, faults)


def plain(s, faults):
    """Variables and times without a builder."""
    d = s.d
    w0 = walls(s)
    if d.chance(0.4):
        cls = d.pick([av.EfiTime, av.EfiTime])
        t = cls()
        pick_stamp(s, w0, t.get_datetime(), "EfiTime")
        return
    var = d.pick([av.EfiVariableAuthentication2, av.EFiVariableAuthentication2])()
    m = pick_stamp(s, w0, var.time.get_datetime(), "a new variable")
    have = b""
    for _ in range(d.int(1, 3)):
        new = payload(d)
        pre = d.bytes(d.below(5))
        src = bstream.Medium(s, pre + new, len(pre), "payload")
        if faults:
            s.swarm(["read-eio", "seek-eio", "shrink"], (1, 1), (0.3, 0.6), 0.7)
        _, err = attempt(var.set_payload, src)
        s.fault_rates = {}
        if err is None:
            check(not src.failed and not src.shrunk, "set-payload", "set_payload hid a failed or incomplete read")
            have = new
        else:
            check(src.failed or src.shrunk, "set-payload", lambda: f"set_payload raised {short(err)}")
            s.probe("payload-refused")
        raw = var.encode()
        check(raw == m + struct.pack("<IHH", 24, 0x200, 0x0EF1) + PKCS7 + have, "payload", lambda: f"variable {raw[40:80].hex()} ({len(raw) - 40}), expected payload {have[:40].hex()} ({len(have)})")
        check(var.payload_size == len(have), "size", lambda: f"payload_size {var.payload_size} for {len(have)} bytes")
        check(var.sig_list_payload is None or var.sig_list_payload.encode() == have, "sig-list", "signature lists differ from the payload")
        clock(s, None, 1.5)


def run(s, faults, threads):
    d = s.d
    s.set_preempt(d.pick([5, 40, 200]) if threads else 0)
    s.extra["walls"] = []
    s.wall_offset += d.pick([0.0, 86400.0 * 365 * 3, -86400.0 * 200])
    clock(s, None, d.pick([0.0, 0.25, 1e6]))
    fails = []

    def worker(tag):
        try:
            ms = [Model(s, f"{tag}0")]
            for _ in range(d.int(2, 9)):
                if len(ms) < 3 and d.chance(0.2):
                    clock(s, None, d.pick([0.7, 61.0]))
                    ms.append(Model(s, f"{tag}{len(ms)}"))
                if d.chance(0.15):
                    plain(s, faults)
                step(d.pick(ms), faults)
            for m in ms:
                if m.signers and d.chance(0.7):
                    omit = d.chance(0.5)
                    verify(m, must("finalize", m.b.finalize, omit), not omit)
        except Violation as v:
            fails.append(v)

    with root_logging(logging.NullHandler()):
        if threads:
            ts = [threading.Thread(target=worker, args=("ABC"[i],)) for i in range(2)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        else:
            worker("A")
    if fails:
        raise fails[0]
    s.extra["nontrivial"] = True


MODES = [
    (4, "serial", lambda s: run(s, False, False)),
    (3, "faults", lambda s: run(s, True, False)),
    (2, "threads", lambda s: run(s, False, True)),
]
