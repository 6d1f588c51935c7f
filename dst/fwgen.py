"""Firmware structures as the specifications lay them out: generators of valid encodings, independent of the library.

Each generator returns (raw, fields, ends): the encoding, values its attributes must have, and the lengths of
proper prefixes that are complete structures themselves.
"""

import struct
import uuid

from cryptography.hazmat.primitives.serialization import Encoding

from . import pki

SHA = uuid.UUID("c1c41626-504c-4092-aca9-41f936934328")
X509 = uuid.UUID("a5c059a1-94e4-4aa7-87b5-ab155c2bf072")
PKCS7 = uuid.UUID("4aafd29d-68df-49ee-8aa9-347d375665a7")
FMP = uuid.UUID("6DCBD5ED-E82D-4C44-BDA1-7194199AD92A")
WORK = uuid.UUID("9e58292b-7c68-497d-a0ce-6500fd9f1b95")
VAR = uuid.UUID("ddcf3616-3275-4164-98b6-fe85707ffe7d")
AUTHVAR = uuid.UUID("aaf32c78-947b-439a-a180-2e144ec37792")
WORDS = ["", "a", "\n", "end ", "PK", "Größe", "漢字", "a😀b", "with space", "N" * 30, "\ufeffmark", " x "]


def guid(d):
    return uuid.UUID(bytes=d.bytes(16))


def u(d, bits):
    return d.weighted([(3, d.below(1 << min(bits, 30))), (1, 0), (1, (1 << bits) - 1), (1, 1), (1, 1 << (bits - 1))])


def blob(d, lo, hi, p=0.04):
    """lo..hi bytes, now and then a lot more."""
    if d.chance(p):
        n = d.pick([255, 256, 257, 1000, 4095, 4096, 4097]) + d.below(3)
        return (d.bytes(d.int(1, 40)) * n)[:n]
    return d.bytes(d.int(lo, hi))


def word(d, words, p=0.04):
    if d.chance(p):
        return d.pick(["N", "Ab", "é", "漢", "😀"]) * d.pick([64, 127, 128, 129, 256, 300])
    return d.pick(words)


def utf16(t):
    return t.encode("utf-16-le")


# ---- signature data, lists and databases
def sha_entry(d, pool=None):
    owner = guid(d)
    digest = d.pick(pool) if pool else d.bytes(32)
    return owner.bytes_le + digest, {"signature_owner": owner, "signature_data": digest}, ()


def x509_entry(d):
    owner = guid(d)
    cert = d.weighted([(2, pki.IDS[d.below(3)][0].public_bytes(Encoding.DER)), (3, blob(d, 1, 40))])
    return owner.bytes_le + cert, {"signature_owner": owner, "signature_data": cert, "signature_data_size": len(cert)}, ()


def siglist(d, pool=None, typ=None):
    def again(d):
        return guid(d).bytes_le + d.pick(pool), {}, ()

    pool16 = again if pool else None
    typ = typ or d.pick([SHA, SHA, X509])
    if typ == SHA:
        n = d.weighted([(1, 0), (3, 1), (3, 2), (2, 5), (0.3, d.pick([31, 32, 33, 64, 100]))])
        data = [sha_entry(d, pool)[0] for _ in range(n)]
        size = 48 if n or d.chance(0.5) else 0
    else:
        n = d.weighted([(6, 1), (1, 0)])
        data = [(pool16 if pool16 and d.chance(0.5) else x509_entry)(d)[0] for _ in range(n)]
        size = len(data[0]) if n else d.pick([0, 48])
        if n and d.chance(0.15):  # certificates of one size
            data += [guid(d).bytes_le + d.bytes(size - 16) for _ in range(d.int(1, 3))]
    body = b"".join(data)
    raw = typ.bytes_le + struct.pack("<III", 28 + len(body), 0, size) + body
    return raw, {"signature_type": typ, "signature_list_size": len(raw), "signature_header_size": 0, "signature_size": size}, ()


def sigdb(d):
    pool = [d.bytes(32) for _ in range(d.int(1, 4))] if d.chance(0.7) else None
    parts = [siglist(d, pool)[0] for _ in range(d.int(0, 4) if d.chance(0.96) else d.int(9, 20))]
    ends, at = [], 0
    for p in parts:
        ends.append(at)
        at += len(p)
    return b"".join(parts), {}, tuple(ends)


# ---- certificates, times, authenticated variables
def wincert_guid(d):
    data = d.weighted([(1, b""), (4, blob(d, 1, 50))])
    n = 24 + len(data)
    return struct.pack("<IHH", n, 0x200, 0x0EF1) + PKCS7.bytes_le + data, {"Hdr_dwLength": n, "Hdr_wRevision": 0x200, "Hdr_wCertificateType": 0xEF1, "cert_type": PKCS7, "cert_data": data}, ()


def wincert_pkcs1(d):
    data, g = blob(d, 1, 50), guid(d)
    n, rev = 24 + len(data), d.pick([0x200, 0x200, 0x100])
    return struct.pack("<IHH", n, rev, 0x0EF0) + g.bytes_le + data, {"Hdr_dwLength": n, "Hdr_wRevision": rev, "Hdr_wCertificateType": 0xEF0, "hash_algorithm": g, "cert_data": data}, ()


def time(d):
    t = (d.int(1900, 9999), *d.pick([(d.int(1, 12), d.int(1, 28)), (d.pick([1, 12]), 31), (4, 30)]), d.below(24), d.below(60), d.below(60))
    return struct.pack("<H6BLh2B", *t, 0, 0, 0, 0, 0), {"time": t}, ()


def authvar(d):
    head = time(d)[0] + wincert_guid(d)[0]
    k = d.below(4)
    data = [b"", blob(d, 1, 60), sigdb(d)[0], siglist(d)[0]][k]
    raw = head + data
    return raw, {"payload_size": len(data)}, tuple(range(len(head), len(raw)))


def attributes(d):
    a = u(d, 32)
    return struct.pack("<I", a), {"attributes": a}, ()


# ---- bitmaps
def color(d):
    b = d.bytes(4)
    return b, {"Blue": b[0], "Green": b[1], "Red": b[2], "Reserved": b[3]}, ()


def bmp(d):
    bpp = d.weighted([(3, 24), (2, 4), (2, 1), (1, 8), (1, 32)])
    full = {1: 2, 4: 16, 8: 256}.get(bpp, 0)
    colors = full if full == 0 or d.chance(0.5) else d.int(1, full - 1)
    noc = d.pick([0, colors]) if colors == full else colors
    pad = b""
    if full == 0:
        noc = d.pick([0, 7])
    if d.chance(0.4):
        pad = d.bytes(d.int(1, 9))
    if colors == 0 and d.chance(0.5):
        pad = b""
    cmap = d.bytes(4 * colors)
    off = 54 + len(cmap) + len(pad)
    pix = d.weighted([(1, b""), (4, blob(d, 1, 60))])
    size = off + len(pix)
    w, h, planes, comp, isz, xp, yp, imp = (u(d, 32), u(d, 32), u(d, 16), u(d, 32), u(d, 32), u(d, 32), u(d, 32), u(d, 32))
    r1, r2 = u(d, 16), u(d, 16)
    raw = b"BM" + struct.pack("<IHHI", size, r1, r2, off) + struct.pack("<IIIHHIIIIII", 40, w, h, planes, bpp, comp, isz, xp, yp, noc, imp) + cmap + pad + pix
    return raw, {"Size": size, "ImageOffset": off, "PixelWidth": w, "PixelHeight": h, "BitPerPixel": bpp, "NumberOfColors": noc, "ImageData": pix, "CompressionType": comp}, ()


# ---- firmware policies
def policy_rule(d, pool=None):
    """(root key, sub key, value name, type, value)"""
    key = d.pick([0xEF100000, u(d, 32)])
    sub, name = word(d, WORDS + ["UEFI", "Target"]), word(d, WORDS + ["Policy", "Nonce"])
    t = 5 if (key, sub, name) == (0xEF100000, "UEFI", "Policy") else d.pick([0, 2, 5])
    return key, sub, name, t, word(d, WORDS) if t == 0 else u(d, 32 if t == 2 else 64)


def pstring(x):
    return struct.pack("<H", len(utf16(x))) + utf16(x)


def pvalue(t, v):
    return struct.pack("<H", t) + (pstring(v) + b"\0\0" if t == 0 else struct.pack("<I" if t == 2 else "<Q", v))


def policy_body(rules):
    """Canonical layout: the strings and values of the rules follow each other in rule order."""
    out, table = b"", b""
    for key, sub, name, t, v in rules:
        offs = []
        for x in (pstring(sub), pstring(name), pvalue(t, v)):
            offs.append(len(table))
            table += x
        out += struct.pack("<IIII", key, *offs)
    return out + table


def policy_head(d, n):
    ver, flags, pub = u(d, 32), u(d, 32), guid(d)
    fv = d.pick([2, 1, 0])
    return struct.pack("<HI16sHIHH", fv, ver, pub.bytes_le, 0, flags, 0, n), {"FormatVersion": fv, "PolicyVersion": ver, "PolicyPublisher": pub, "OptionFlags": flags, "RulesCount": n}


def policy(d):
    n = d.weighted([(1, 0), (3, 1), (3, 2), (2, 4), (0.3, d.int(8, 20))])
    want = [policy_rule(d) for _ in range(n)]
    head, fields = policy_head(d, n)
    raw = head + policy_body(want)
    # the terminating NUL of the last string is optional
    ends = (len(raw) - 2, len(raw) - 1) if n and want[-1][3] == 0 else ()
    return raw, {**fields, "rules": want}, ends


def policy_shared(d):
    """As servers make them: equal strings are stored once, anywhere in the table."""
    n = d.weighted([(4, 1), (4, 2), (3, 5), (0.5, d.int(8, 20))])
    want = [policy_rule(d) for _ in range(n)]
    items = []
    for _, sub, name, t, v in want:
        for x in (pstring(sub), pstring(name), pvalue(t, v)):
            if x not in items or d.chance(0.1):
                items.append(x)
    d.shuffle(items)
    while items[-1][:2] == b"\0\0":  # ends with something that is needed completely
        items.insert(0, items.pop())
        if all(x[:2] == b"\0\0" for x in items):
            return policy(d)
    where, table = {}, b""
    for x in items:
        if table and d.chance(0.2):
            table += d.bytes(d.int(1, 5))
        where[x] = len(table)
        table += x
    raw = b"".join(struct.pack("<IIII", key, where[pstring(sub)], where[pstring(name)], where[pvalue(t, v)]) for key, sub, name, t, v in want)
    head, fields = policy_head(d, n)
    return head + raw + table, {**fields, "rules": want}, ()


# ---- capsules (bytes)
def payload_header(d):
    v, low, data = u(d, 32), u(d, 32), blob(d, 0, 29)
    n = 16 if d.chance(0.7) else 16 + d.int(1, 40)  # a newer header
    raw = struct.pack("<4sIII", b"MSS1", n, v, low) + d.bytes(n - 16) + data
    return raw, {"HeaderSize": n, "FwVersion": v, "LowestSupportedVersion": low, "Payload": data}, tuple(range(n, len(raw)))


def auth_header(d):
    m, cert = u(d, 64), wincert_guid(d)[0]
    data, f, _ = payload_header(d) if d.chance(0.7) else (b"", {}, ())
    raw = struct.pack("<Q", m) + cert + data
    at = 8 + len(cert)
    ends = ((at,) + tuple(range(at + f["HeaderSize"], len(raw)))) if data else ()
    return raw, {"MonotonicCount": m, "Payload": data, "nested": bool(data)}, ends


def image_header(d):
    g, i, hw = guid(d), d.int(1, 255), u(d, 64)
    body = auth_header(d)[0] if d.chance(0.8) else b""
    vendor = d.bytes(d.pick([0, 0, 1, 9])) if d.chance(0.95) else blob(d, 1, 1, 1)
    ver = d.pick([2, 2, 3])
    raw = struct.pack("<I16sB3BIIQ", ver, g.bytes_le, i, 0, 0, 0, len(body), len(vendor), hw) + body + vendor
    return raw, {"Version": ver, "UpdateImageTypeId": g, "UpdateImageIndex": i, "UpdateImageSize": len(body), "UpdateVendorCodeSize": len(vendor), "UpdateHardwareInstance": hw, "Payload": body, "VendorCodeBytes": vendor, "nested": bool(body)}, ()


def fmp_capsule(d):
    drivers = [d.bytes(d.int(1, 20)) for _ in range(d.weighted([(6, 0), (4, 1), (2, 2), (0.4, d.int(3, 12))]))]
    images = [image_header(d)[0] for _ in range(d.weighted([(2, 0), (6, 1), (4, 2), (0.4, d.int(3, 8))]))]
    items = drivers + images
    at, offs = 8 + 8 * len(items), []
    for x in items:
        offs.append(at)
        at += len(x)
    raw = struct.pack("<IHH", d.pick([1, 2]), len(drivers), len(images)) + b"".join(struct.pack("<Q", o) for o in offs) + b"".join(items)
    ends = tuple(range(offs[-1] + 1, len(raw))) if drivers and not images else ()
    return raw, {"EmbeddedDriverCount": len(drivers), "PayloadItemCount": len(images)}, ends


def capsule(d):
    g = FMP if d.chance(0.7) else guid(d)
    body = b"" if d.chance(0.2) else fmp_capsule(d)[0] if g == FMP else blob(d, 1, 30)
    oem, flags = u(d, 16), d.below(8) << 16
    n = 32 if d.chance(0.7) else 32 + d.int(1, 40)  # extended by the vendor
    raw = g.bytes_le + struct.pack("<IIII", n, oem | flags, n + len(body), 0) + d.bytes(n - 32) + body
    return raw, {"CapsuleGuid": g, "HeaderSize": n, "OemFlags": oem, "PersistAcrossReset": bool(flags & 0x10000), "PopulateSystemTable": bool(flags & 0x20000), "InitiateReset": bool(flags & 0x40000), "CapsuleImageSize": len(raw), "Payload": body, "nested": bool(body) and g == FMP}, ()


def variable_policy(d):
    lock = d.below(4)
    name = word(d, [None, "x", "Größe", "漢", "Boot0001", "\ufeffmark", " x ", "tab\t", "a😀b"])
    body, state = b"", None
    if lock == 3:
        state = (guid(d), d.below(256), word(d, ["a", "State", "Größe", " s ", "\ufeffs", "😀"]))
        body = state[0].bytes_le + bytes([state[1], 0]) + utf16(state[2]) + b"\0\0"
    g, lo, hi, must, cant = guid(d), u(d, 32), u(d, 32), u(d, 32), u(d, 32)
    tail = b"" if name is None else utf16(name) + b"\0\0"
    at = 44 + len(body)
    locks = ["N/A"] * 3 if state is None else [state[0], state[2], state[1]]
    row = [g, name, ["NONE", "NOW", "ON_CREATE", "ON_VAR_STATE"][lock], *locks, "0x%08X" % lo, "0x%08X" % hi]
    raw = struct.pack("<IHH16sIIIIB3s", 0x10000, at + len(tail), at, g.bytes_le, lo, hi, must, cant, lock, b"\0\0\0") + body + tail
    return raw, {"Size": len(raw), "OffsetToName": at, "Namespace": g, "MinSize": lo, "MaxSize": hi, "AttributesMustHave": must, "AttributesCantHave": cant, "LockPolicyType": lock, "Name": name, "state": state, "row": row}, ()


# ---- flash structures (position restored after loading)
def ffs(d):
    g, size = guid(d), d.below(1 << 24)
    c, t, a, st = u(d, 16), d.below(256), d.below(256), d.below(256)
    return g.bytes_le + struct.pack("<HBB3sB", c, t, a, size.to_bytes(3, "little"), st), {"FileSystemGuid": g, "Checksum": c, "Type": t, "Attributes": a, "State": st, "size": size}, ()


def fv(d):
    g, n, hl = guid(d), u(d, 64), u(d, 16)
    zero, b0, b1 = d.bytes(16), u(d, 64), u(d, 64)
    raw = zero + g.bytes_le + struct.pack("<Q4sIHHHBBQQ", n, b"_FVH", u(d, 32), hl, u(d, 16), u(d, 16), 0, d.below(256), b0, b1)
    return raw, {"FileSystemGuid": g, "FvLength": n, "HeaderLength": hl, "ZeroVector": zero, "Blockmap0": b0, "Blockmap1": b1}, ()


def fvext(d):
    g, n = guid(d), u(d, 32)
    return g.bytes_le + struct.pack("<I", n), {"ExtHeaderSize": n}, ()


def ftw_block(d):
    crc, q, v = u(d, 32), u(d, 64), d.below(256)
    return WORK.bytes_le + struct.pack("<IB3BQ", crc, v, d.below(256), d.below(256), d.below(256), q), {"Signature": WORK, "Crc": crc, "WorkingBlockValidFields": v, "WriteQueueSize": q}, ()


def ftw_write(d):
    g, n, p, st = guid(d), u(d, 64), u(d, 64), d.below(256)
    return bytes([st]) + d.bytes(3) + g.bytes_le + struct.pack("<IQQ", u(d, 32), n, p), {"StatusBits": st, "CallerId": g.bytes_le, "NumberOfWrites": n, "PrivateDataSize": p}, ()


def ftw_record(d):
    st, lba, off, n = d.below(256), u(d, 64), u(d, 64), u(d, 64)
    rel = u(d, 64) - (1 << 63)
    return bytes([st]) + d.bytes(3) + struct.pack("<IQQQq", u(d, 32), lba, off, n, rel), {"StatusBits": st, "Lba": lba, "Offset": off, "Length": n, "RelativeOffset": rel}, ()


def store(d):
    g = d.pick([VAR, AUTHVAR])
    n, f, st = u(d, 32), d.below(256), d.below(256)
    return g.bytes_le + struct.pack("<IBBHI", n, f, st, u(d, 16), u(d, 32)), {"Signature": g, "Size": n, "Format": f, "State": st, "Type": "AuthVar" if g == AUTHVAR else "Var"}, ()


def variable(d, auth=False):
    name, data, g = word(d, WORDS), d.bytes(d.pick([0, 1, 7, 40])) if d.chance(0.95) else blob(d, 1, 1, 1), guid(d)
    nb = utf16(name) + b"\0\0"
    st, a = d.below(256), u(d, 32)
    head = struct.pack("<HBBI", 0x55AA, st, 0, a)
    f = {"State": st, "Attributes": a, "NameSize": len(nb), "DataSize": len(data), "VendorGuid": g, "Name": name, "Data": data}
    if auth:
        m, ts, k = u(d, 64), d.bytes(16), u(d, 32)
        head += struct.pack("<Q16sI", m, ts, k)
        f.update(MonotonicCount=m, TimeStamp=ts, PubKeyIndex=k)
    raw = head + struct.pack("<II", len(nb), len(data)) + g.bytes_le + nb + data
    return raw, f, ()


def auth_variable(d):
    return variable(d, True)
