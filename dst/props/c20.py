"""C20: ACPI tables and device paths are decoded exactly as laid out, or refused."""

import base64
import contextlib
import io
import json
import re
import struct
import threading
import uuid
import xml.etree.ElementTree as ET

from .. import simfs
from ..core import HarnessError, Violation
from ..util import Sink, check, must, short

from edk2toollib.acpi.dmar_parser import DMARTable
from edk2toollib.acpi.ivrs_parser import IVRS_TABLE
from edk2toollib.uefi.device_path import DevicePathFactory

ID = "C20"
HOOK_LINES = True
STEP_CAP = 120000


class Bad(Exception):
    """The data does not hold what it claims to hold."""


class NoOpinion(Exception):
    """Legal or not, the property does not say."""


def attempt(fn, *a):
    """(value, None) or (None, exception); giving up by sys.exit is a refusal too."""
    try:
        return fn(*a), None
    except (Violation, HarnessError):
        raise
    except (Exception, SystemExit) as e:  # noqa: BLE001
        return None, e


def take(fmt, data, at=0):
    n = struct.calcsize(fmt)
    if at + n > len(data):
        raise Bad(f"{n} bytes at {at} of {len(data)}")
    return struct.unpack(fmt, data[at : at + n])


def fix_sum(raw):
    """The table with a checksum that adds up."""
    b = bytearray(raw)
    if len(b) > 9:
        b[9] = 0
        b[9] = -sum(b) & 0xFF
    return bytes(b)


def acpi_header(d, sig, n, tail):
    oem = d.word(6, 6, "ABCDEF ").encode(), d.word(8, 8, "GHIJK ").encode()
    return struct.pack("<4sIBB6s8sI4sI", sig, n, d.below(4), 0, *oem, d.below(1 << 32), b"INTL", d.below(1 << 32)) + tail


def big(d, bits):
    return d.pick([0, 1, (1 << bits) - 1, 1 << bits - 1, d.below(1 << bits)])


HEADER = ("Signature", "Length", "Revision", "Checksum", "OEMID", "OEMTableID", "OEMRevision", "CreatorID", "CreatorRevision")


# ---- DMAR
SCOPES = {1: "PCI Endpoint Device", 2: "PCI Sub-hierarchy", 3: "IOAPIC", 4: "MSI_CAPABLE_HPET", 5: "ACPI_NAMESPACE_DEVICE"}
DMAR = {
    0: ("DRHD", "<HHBBHQ", ("Type", "Length", "Flags", "Reserved", "SegmentNumber", "RegisterBaseAddress"), True),
    1: ("RMRR", "<HHHHQQ", ("Type", "Length", "Reserved", "SegmentNumber", "ReservedMemoryBaseAddress", "ReservedMemoryRegionLimitAddress"), True),
    2: ("ASTR", "<HHBBH", ("Type", "Length", "Flags", "Reserved", "SegmentNumber"), True),
    3: ("RHSA", "<HHIQI", ("Type", "Length", "Reserved", "RegisterBaseAddress", "ProximityDomain"), False),
}


def gen_dmar(d):
    body = b""
    for _ in range(d.weighted([(1, 0), (4, 2), (3, 4), (1, 9)])):
        t = d.weighted([(3, 0), (3, 1), (2, 2), (1, 3), (2, 4)])
        if t == 4:
            name = d.bytes(d.int(1, 12))
            body += struct.pack("<HH", 4, 8 + len(name)) + d.bytes(3) + bytes([d.below(256)]) + name
            continue
        scopes = b""
        if DMAR[t][3]:
            for _ in range(d.weighted([(1, 0), (3, 1), (3, 2), (1, 5)])):
                path = d.bytes(2 * d.weighted([(1, 0), (5, 1), (2, 2), (1, 4)]))
                scopes += struct.pack("<BBHBB", d.int(1, 5), 6 + len(path), d.pick([0, d.below(65536)]), d.below(256), d.below(256)) + path
        fmt = DMAR[t][1]
        n = struct.calcsize(fmt) + len(scopes)
        rest = [big(d, {"B": 8, "H": 16, "I": 32, "Q": 64}[c]) for c in fmt[3:]]
        body += struct.pack(fmt, t, n, *rest) + scopes
    return fix_sum(acpi_header(d, b"DMAR", 48 + len(body), bytes([d.below(256), d.below(256)]) + bytes(10)) + body)


def ref_dmar(raw):
    head = take("<4sIBB6s8sI4sIBB10s", raw)
    if not 48 <= head[1] <= len(raw):
        raise Bad("table length")
    data, out, at = raw[: head[1]], [], 48
    while at < len(data):
        t, n = take("<HH", data, at)
        if n < 4 or at + n > len(data) or t > 4:
            raise Bad("struct")
        part = data[at : at + n]
        at += n
        if t == 4:
            if n < 8:
                raise Bad("name")
            out.append(("ANDD", (t, n, int.from_bytes(part[4:7], "little"), part[7], part[8:]), ()))
            continue
        name, fmt, _, scoped = DMAR[t]
        vals, scopes, i = take(fmt, part), [], struct.calcsize(fmt)
        while scoped and i < n:
            st, sn, res, num, bus = take("<BBHBB", part, i)
            if sn < 6 or sn % 2 or i + sn > n or st not in SCOPES:
                raise Bad("scope")
            scopes.append((st, sn, res, num, bus, tuple((part[i + k], part[i + k + 1]) for k in range(6, sn, 2))))
            i += sn
        out.append((name, vals, tuple(scopes)))
    return head[:11], tuple(out)


def one(x):
    return x[0] if isinstance(x, tuple) else x


def scope_view(x):
    check(x.TypeString == SCOPES.get(x.Type), "dmar", lambda: f"a device scope of type {x.Type} is called {x.TypeString}")
    return x.Type, x.Length, x.Reserved, x.EnumerationID, x.StartBusNumber, tuple((one(a), one(b)) for a, b in x.Path)


ANDD = ("Type", "Length", "Reserved", "ACPIDeviceNumber", "ACPIObjectName")
DNAMES = {v[0]: v[2] for v in DMAR.values()} | {"ANDD": ANDD}
DCLASS = {"DRHDStruct": "DRHD", "RMRRStruct": "RMRR", "ATSRStruct": "ASTR", "RHSAStruct": "RHSA", "ANDDStruct": "ANDD"}


def view_dmar(o):
    h = o.dmar_table
    head = tuple(getattr(h, n) for n in (*HEADER, "HostAddressWidth", "Flags"))
    out = []
    for x in h.SubStructs:
        name = DCLASS[type(x).__name__]
        out.append((name, tuple(getattr(x, n) for n in DNAMES[name]), tuple(scope_view(y) for y in getattr(x, "DeviceScope", ()))))
    return head, tuple(out)


def rmrr_path(scopes):
    return ", ".join(f"{s[4]:02d}:" + ":".join(f"{a:02d}.{b}" for a, b in s[5]) for s in scopes)


def scalar(v):
    return "%s" % v if isinstance(v, bytes) else "0x%X" % v


def xml_list(e):
    """[(tag, attributes, children)] without caring about the spelling of tags."""
    return [({k: v for k, v in x.attrib.items()}, xml_list(x)) for x in e]


def well_formed(kind, xml):
    """Written out and read again, the XML shows the same."""
    text = must(kind, ET.tostring, xml)
    back, e = attempt(ET.fromstring, text)
    check(e is None and xml_list(back) == xml_list(xml), kind, lambda: f"the XML of the table cannot be read back: {e!r} {short(text)}"[:400])


def show_dmar(o, ref, kind="dmar"):
    head, subs = ref
    want = [(dict(zip((*HEADER, "HostAddressWidth", "Flags"), map(scalar, head))), [])]
    for name, vals, scopes in subs:
        kids = [(dict(zip(("Type", "Length", "Reserved", "EnumerationID", "StartBusNumber"), map(scalar, s[:5]))), []) for s in scopes]
        want.append((dict(zip(DNAMES[name], map(scalar, vals))), kids))
    for xml in (must(kind, o.toXml), must(kind, getattr, o, "xml")):
        check(xml_list(xml) == want, kind, lambda: f"the XML of the table differs: {xml_list(xml)} / {want}"[:400])
        well_formed(kind, xml)
    vals = list(head)
    for name, v, scopes in subs:
        vals += v
        for s in scopes:
            vals += s[:5]
            vals.append(rmrr_path([s]))
    same_lines(kind, must(kind, str, o), vals)
    check(o.DMARBitEnabled() == bool(head[10] & 4), kind, "DMARBitEnabled is wrong")
    check(o.ANDDCount() == sum(1 for x in subs if x[0] == "ANDD"), kind, "ANDDCount is wrong")
    paths = [x.getPath() for x in o.dmar_table.RMRRlist]
    check(paths == [rmrr_path(x[2]) for x in subs if x[0] == "RMRR"], kind, lambda: f"RMRR paths {paths}")


def same_lines(kind, text, want):
    """The values of all "label : value" lines, in order."""
    got = re.findall(r"^\s*[A-Za-z][\w ]*? *: (.*?)\s*$", text, re.M)
    want = [w if isinstance(w, (int, str)) else w for w in want]
    check(len(got) == len(want), kind, lambda: f"{len(got)} values are shown, expected {len(want)}: {got} / {want}"[:400])
    for g, w in zip(got, want):
        if isinstance(w, int):
            ok = re.fullmatch(r"0x[0-9a-fA-F]+|\d+", g) and int(g, 0 if g.startswith("0x") else 10) == w
        elif isinstance(w, bytes):
            ok = g in (str(w), w.decode("latin-1").strip(), w.decode("latin-1").rstrip())
        else:
            ok = g == w.rstrip() or w == "*"
        check(ok, kind, lambda: f"shown as {g}, the table holds {w!r}")


# ---- IVRS
PLAIN, RANGE, ALIAS, ALIAS_RANGE, EXT, EXT_RANGE, SPECIAL, ACPI = (0, 1, 2), (3,), (66,), (67,), (70,), (71,), (72,), (240,)
DTYPE = {0: "Reserved", 1: "All", 2: "Select", 3: "Range", 66: "Alias Select", 67: "Alias Range", 70: "Extended Select", 71: "Extended Range", 72: "Special Device", 240: "Variable Length ACPI HID Device"}
ATS = {True: "ATS requests blocked", False: "ATS allowed"}


def gen_dte(d):
    t = d.pick([0, 1, 2, 3, 66, 67, 70, 71, 72, 240])
    e = struct.pack("<BHB", t, big(d, 16), d.below(256))
    if t in (66, 67):
        e += struct.pack("<BHB", 0, big(d, 16), 0)
    if t in (70, 71):
        e += struct.pack("<I", big(d, 32))
    if t == 72:
        e += struct.pack("<BHB", d.below(256), big(d, 16), d.pick([1, 2, 0, d.below(256)]))
    if t in (3, 67, 71):
        e += struct.pack("<BHB", 4, big(d, 16), 0)
    if t == 240:
        f = d.below(3)
        uid = b"" if f == 0 else d.bytes(8) if f == 1 else d.word(1, 9).encode() if d.chance(0.9) else b""
        e += d.word(8, 8).encode() + d.word(8, 8).encode() + bytes([f, len(uid)]) + uid
    return e


def gen_ivxd(d):
    if d.chance(0.35):
        return struct.pack("<BBHHHQQQ", d.pick([0x20, 0x21, 0x22]), d.below(256), 32, big(d, 16), big(d, 16), big(d, 64), big(d, 64), big(d, 64))
    t = d.pick([0x10, 0x11, 0x40])
    body = b"" if t == 0x10 else struct.pack("<QQ", big(d, 64), big(d, 64))
    for _ in range(d.weighted([(1, 0), (3, 2), (3, 4), (1, 12)])):
        body += gen_dte(d)
    return struct.pack("<BBHHHQHHI", t, d.below(256), 24 + len(body), big(d, 16), big(d, 16), big(d, 64), big(d, 16), big(d, 16), big(d, 32)) + body


def gen_ivrs(d, n=None):
    body = b"".join(gen_ivxd(d) for _ in range(d.weighted([(1, 0), (4, 2), (3, 4)]) if n is None else n))
    info = d.below(1 << 32) | d.pick([2, 4, 8, 16])
    return fix_sum(acpi_header(d, b"IVRS", 48 + len(body), struct.pack("<IQ", info, d.pick([0, d.below(1 << 64)]))) + body)


def ref_dte(data, at):
    """(values, normalized bytes, bytes used)."""
    t, dev, dte = take("<BHB", data, at)
    v, norm, n = [t, dev, dte], struct.pack("<BHB", t, dev, dte), 4
    if t not in DTYPE:
        raise Bad("entry type")
    if t in (66, 67):
        _, src, _ = take("<BHB", data, at + 4)
        v.append(src)
        norm += struct.pack("<BHB", 0, src, 0)
        n = 8
    if t in (70, 71):
        v += take("<I", data, at + 4)
        norm += struct.pack("<I", v[-1])
        n = 8
    if t == 72:
        v += take("<BHB", data, at + 4)
        norm += data[at + 4 : at + 8]
        n = 8
    if t in (3, 67, 71):
        e, end, _ = take("<BHB", data, at + n)
        if e != 4:
            raise Bad("range")
        v.append(end)
        norm += struct.pack("<BHB", 4, end, 0)
        n += 4
    if t == 240:
        hid, cid, f, z = take("<8s8sBB", data, at + 4)
        uid = data[at + 22 : at + 22 + z]
        if len(uid) < z or f == 0 and z or f == 1 and z != 8:
            raise Bad("uid")
        if f > 2:
            raise NoOpinion
        v += [hid, cid, f, z, None if f == 0 else int.from_bytes(uid, "little") if f == 1 else uid]
        norm = data[at : at + 22 + z]
        n = 22 + z
    return tuple(v), norm, n


def ref_ivxd(data, at):
    t = data[at]
    if t in (0x20, 0x21, 0x22):
        v = take("<BBHHHQQQ", data, at)
        if v[2] != 32:
            raise Bad("ivmd length")
        return (v, None, ()), data[at : at + 32], 32
    if t not in (0x10, 0x11, 0x40):
        raise Bad("struct type")
    v, n = take("<BBHHHQHHI", data, at), 24
    ext = None
    if t != 0x10:
        ext, n = take("<QQ", data, at + 24), 40
    if v[2] < n or at + v[2] > len(data):
        raise Bad("ivhd length")
    norm, dtes, i = data[at : at + n], [], n
    while i < v[2]:
        e, b, z = ref_dte(data[: at + v[2]], at + i)
        dtes.append(e)
        norm += b
        i += z
    return (v, ext, tuple(dtes)), norm, v[2]


def ref_ivrs(raw):
    head = take("<4sIBB6s8sI4sIIQ", raw)
    if sum(raw) & 0xFF:
        raise Bad("checksum")
    if not head[9] & 0x1E:
        raise Bad("IVinfo")
    if head[1] != len(raw):
        raise Bad("table length")
    at, out, norm = 48, [], raw[:48]
    while at < len(raw):
        x, b, n = ref_ivxd(raw, at)
        out.append(x)
        norm += b
        at += n
    norm = fix_sum(norm)
    return (*head[:3], norm[9], *head[4:]), tuple(out), norm


IVHD = ("Type", "Flags", "Length", "DeviceID", "CapabilityOffset", "IOMMUBaseAddress", "SegmentGroup", "IOMMUInfo", "IOMMUFeatureInfo")
IVMD = ("Type", "Flags", "Length", "DeviceID", "AuxiliaryData", "Reserved", "IVMDStartAddress", "IVMDMemoryBlockLength")
DTE = {66: ("SourceDeviceID",), 67: ("SourceDeviceID", "EndDeviceID"), 70: ("ExtendedDTESetting",), 71: ("ExtendedDTESetting", "EndDeviceID"), 72: ("Handle", "SourceDeviceID", "Variety"), 3: ("EndDeviceID",), 240: ("HID", "CID", "UIDFormat", "UIDLength", "UID")}


def view_ivrs(o):
    h = o.acpi_header
    out = []
    for x in o.SubStructs:
        if hasattr(x, "DeviceTableEntries"):
            dtes = tuple(tuple(getattr(e, n) for n in ("Type", "DeviceID", "DTESetting", *DTE.get(e.Type, ()))) for e in x.DeviceTableEntries)
            for e in x.DeviceTableEntries:
                check(e.TypeString == DTYPE[e.Type], "ivrs", lambda: f"an entry of type {e.Type} is called {e.TypeString}")
                check(e.Length == len(e.Encode()), "ivrs", lambda: f"the length of an entry of type {e.Type} is {e.Length}")
            out.append((tuple(getattr(x, n) for n in IVHD), None if x.Type == 0x10 else (x.IOMMUEFRImage, x.Reserved), dtes))
        else:
            out.append((tuple(getattr(x, n) for n in IVMD), None, ()))
    mds = [x for x in o.SubStructs if not hasattr(x, "DeviceTableEntries")]
    check([id(x) for x in o.IVMD_list] == [id(x) for x in mds], "ivrs", "IVMD_list is not the IVMD entries of the table")
    return (*(getattr(h, n) for n in (*HEADER, "IVinfo", "Reserved")),), tuple(out), bytes(o.Encode())


def dte_xml(v):
    t = v[0]
    a = {"Type": scalar(t), "DTESetting": scalar(v[2])}
    x = dict(zip(DTE.get(t, ()), v[3:]))
    if "EndDeviceID" in x:
        a |= {"StartofRange": scalar(v[1]), "EndofRange": scalar(x["EndDeviceID"])}
    else:
        a["DeviceID"] = scalar(v[1])
    if "SourceDeviceID" in x:
        a["SourceDeviceID"] = scalar(x["SourceDeviceID"])
    if "ExtendedDTESetting" in x:
        a["ExtendedDTESetting"] = ATS[bool(x["ExtendedDTESetting"] >> 31)]
    if t == 72:
        a |= {"Handle": scalar(x["Handle"]), "Variety": {1: "IOAPIC", 2: "HPET"}.get(x["Variety"], "Reserved %X" % x["Variety"])}
    if t == 240:
        uid = x["UID"]
        a |= {"HardwareID": str(x["HID"]), "ExtendedDTESetting": str(x["CID"]), "UniqueIDFormat": str(x["UIDFormat"]), "UniqueIDLength": str(x["UIDLength"]), "UniqueID": "None" if uid is None else scalar(uid)}
    return a


def dte_lines(v):
    t, x = v[0], dict(zip(DTE.get(v[0], ()), v[3:]))
    out = [t, v[1]] + ([x["EndDeviceID"]] if "EndDeviceID" in x else []) + [v[2]]
    if "SourceDeviceID" in x:
        out.append(x["SourceDeviceID"])
    if "ExtendedDTESetting" in x:
        out.append(ATS[bool(x["ExtendedDTESetting"] >> 31)])
    if t == 72:
        out += [x["Handle"], {1: "IOAPIC", 2: "HPET"}.get(x["Variety"], "Reserved 0x%02X" % x["Variety"])]
    if t == 240:
        out += [x["HID"], x["CID"], x["UIDFormat"], x["UIDLength"], "None" if x["UID"] is None else x["UID"]]
    return out


def show_ivrs(o, ref, out=None, kind="ivrs"):
    """The XML and, on request, the console dump of a table."""
    head, subs, _ = ref
    want = [(dict(zip((*HEADER, "IVinfo"), map(scalar, head[:10]))), [])]
    lines = list(head[:10])
    for v, ext, dtes in subs:
        if v[0] >= 0x20 and v[0] != 0x40:
            names = list(IVMD)
            if v[0] == 0x22:
                names[4] = "EndofRange"
            want.append((dict(zip(names, map(scalar, v))), []))
            lines += v
            continue
        a = dict(zip(IVHD, map(scalar, v)))
        a["IOMMUDeviceID"] = a.pop("DeviceID")
        if ext:
            a["IOMMUEFRImage"] = scalar(ext[0])
        want.append((a, [(dte_xml(e), []) for e in dtes]))
        lines += v
        for e in dtes:
            lines += dte_lines(e)
    xml = must(kind, o.ToXmlElementTree)
    got = xml_list(xml)
    check(got == want, kind, lambda: f"the XML of the table differs: {got} / {want}"[:400])
    well_formed(kind, xml)
    if out is not None:
        with contextlib.redirect_stdout(out):
            _, err = attempt(o.DumpInfo)
        check((err is not None) == out.failed, kind, lambda: f"dumping {'raised ' + short(err) if err else 'hid a failed write'}")
        if err is None:
            same_lines(kind, out.getvalue(), lines)
    check(o.acpi_header.IVRSBit == head[9] & 2, kind, "IVRSBit is wrong")


# ---- device paths
def names(d=None):
    hw = {1: "PCI", 2: "PCCARD", 3: "Memory Mapped", 4: "Vendor", 5: "Controller", 6: "BMC"}
    msg = {1: "ATAPI", 2: "SCSI", 3: "Fibre Channel", 4: "1394", 5: "USB", 6: "I2O", 9: "InfiniBand", 10: "Vendor", 11: "MAC Address", 12: "IPv4", 13: "IPv6", 14: "UART", 15: "USB Class", 16: "USB WWID", 17: "Device Logical Unit", 18: "SATA", 19: "iSCSI", 20: "VLAN", 23: "NVMe Namespace", 24: "URI", 25: "UFS", 26: "SD"}
    media = {1: "Hard Drive", 2: "CD-ROM", 3: "Vendor", 4: "File Path", 5: "Protocol", 6: "PIWG Firmware File", 7: "PIWG Firmware Volume", 8: "Relative Offset Range"}
    return {1: ("Hardware", hw), 2: ("ACPI", {1: "ACPI HID", 2: "ACPI Extended HID"}), 3: ("Messaging", msg), 4: ("Media", media), 5: ("BIOS Boot Specification", {1: "BIOS Boot Specification"}), 0x7F: ("End of Hardware", {})}


NAMES = names()
DECODED = [(1, 1), (1, 2), (2, 1), (3, 5), (3, 11), (3, 12), (3, 18), (3, 23), (4, 1), (4, 4), (4, 6), (4, 7), (4, 8)]


def payload(d, t, s):
    if (t, s) in ((1, 1), (3, 5)):
        return d.bytes(2)
    if (t, s) == (1, 2):
        return d.bytes(1)
    if (t, s) == (2, 1):
        return struct.pack("<II", big(d, 32), big(d, 32))
    if (t, s) == (3, 11):
        return d.bytes(6) + bytes(26) + d.bytes(1)
    if (t, s) == (3, 12):
        return d.bytes(8) + struct.pack("<HHH", big(d, 16), big(d, 16), big(d, 16)) + bytes([d.below(2)]) + d.bytes(8)
    if (t, s) == (3, 18):
        return struct.pack("<HHH", big(d, 16), big(d, 16), big(d, 16))
    if (t, s) == (3, 23):
        return bytes([d.below(256)]) + d.bytes(16) + d.word(0, 12).encode() + b"\0"
    if (t, s) == (4, 1):
        return struct.pack("<IQQ16sBB", big(d, 32), big(d, 64), big(d, 64), d.bytes(16), d.below(3), d.below(3))
    if (t, s) == (4, 4):
        return ("\\" + d.word(0, 20, "abXY\\.1é漢") + "\0").encode("utf-16-le")
    if (t, s) in ((4, 6), (4, 7)):
        return d.bytes(16)
    if (t, s) == (4, 8):
        return struct.pack("<IQQ", d.below(1 << 32), big(d, 64), big(d, 64))
    return d.bytes(d.pick([0, 1, 4, 16, 40, 300]))


def gen_path(d):
    out = b""
    for _ in range(d.weighted([(1, 0), (3, 2), (3, 4), (1, 8)])):
        k = d.below(10)
        if k < 7:
            t, s = d.pick(DECODED)
        elif k < 9:
            t = d.pick([1, 2, 3, 4, 5])
            s = d.pick(sorted(NAMES[t][1]) + [77, 200])
        else:
            t, s = d.pick([0, 6, 0x60, 0xFE, 0x7F]), d.pick([1, 2, 0x33, 0xFF])
        p = payload(d, t, s) if t != 0x7F else b""
        out += struct.pack("<BBH", t, s, 4 + len(p)) + p
    if d.chance(0.85):
        out += b"\x7f\xff\x04\x00"
    return out


def ip(b):
    return ".".join(str(x) for x in b)


def ref_node(t, s, p):
    def need(n):
        if len(p) < n:
            raise Bad("short node")

    if (t, s) == (1, 1):
        need(2)
        return {"Function": p[0], "Device": p[1]}
    if (t, s) == (1, 2):
        need(1)
        return {"FunctionNumber": p[0]}
    if (t, s) == (2, 1):
        hid, uid = take("<II", p)
        return {"HID": f"{hid:X}", "UID": f"{uid:X}"}
    if (t, s) == (3, 5):
        need(2)
        return {"ParentPortNumber": p[0], "InterfaceNumber": p[1]}
    if (t, s) == (3, 11):
        need(33)
        return {"MacAddress": {"Addr": p[:32].hex(":").upper()}, "IfType": (p[32],)}
    if (t, s) == (3, 12):
        need(14)
        if len(p) < 23:
            raise NoOpinion
        a, b, c = take("<HHH", p, 8)
        return {"LocalIpAddress": ip(p[:4]), "RemoteIpAddress": ip(p[4:8]), "LocalPort": a, "RemotePort": b, "Protocol": c, "StaticIpAddress": bool(p[14]), "GatewayIpAddress": ip(p[15:19]), "SubnetMask": ip(p[19:23])}
    if (t, s) == (3, 18):
        a, b, c = take("<HHH", p)
        return {"HBAPortNumber": a, "PortMultiplierPortNumber": b, "Lun": c}
    if (t, s) == (3, 23):
        need(1)
        try:
            nqn = p[17:].decode()
        except UnicodeDecodeError:
            raise Bad("nqn") from None
        return {"NamespaceIdType": p[0], "NamespaceId": p[1:17].hex().upper(), "SubsystemNqn": nqn.rstrip("\0")}
    if (t, s) == (4, 1):
        need(38)
        if len(p) > 38:
            raise NoOpinion
        v = take("<IQQ16sBB", p)
        return {"PartitionNumber": v[0], "PartitionStart": v[1], "PartitionSize": v[2], "Signature": v[3].hex().upper(), "MBRType": v[4], "SignatureType": v[5]}
    if (t, s) == (4, 4):
        try:
            return {"PathName": p.decode("utf-16-le").rstrip("\0")}
        except UnicodeDecodeError:
            raise Bad("name") from None
    if (t, s) in ((4, 6), (4, 7)):
        need(16)
        return {"FvFileName" if s == 6 else "FvName": str(uuid.UUID(bytes_le=p[:16])).upper()}
    if (t, s) == (4, 8):
        v = take("<IQQ", p)
        return dict(zip(("Reserved", "StartingOffset", "EndingOffset"), v))
    return {"data": base64.b64encode(p).decode()}


def ref_path(raw):
    out, at = [], 0
    while at < len(raw):
        t, s, n = take("<BBH", raw, at)
        if n < 4 or at + n > len(raw):
            raise Bad("node length")
        out.append((t, s, n, None if t == 0x7F else ref_node(t, s, raw[at + 4 : at + n])))
        at += n
    return tuple(out)


def view_path(nodes, ref, known):
    """What the nodes show, in the shape of the reference."""
    out = []
    for i, x in enumerate(nodes):
        t, s = x.dev_type, x.dev_subtype
        full = must("path", x.__dict__)
        text = must("path", str, x)
        check(json.loads(text) == json.loads(json.dumps(full)), "path", lambda: f"the text of a node is not its content: {text[:200]}")
        tn, sn = NAMES.get(t, (None, {}))[0], NAMES.get(t, (None, {}))[1].get(s)
        head = full
        body = None
        if t != 0x7F:
            ((title, rest),) = full.items()
            head = rest["Header"]
            body = {k: v for k, v in rest.items() if k != "Header"}
            check(title == f"{head['type']} / {head['subtype']}", "path", lambda: f"a node is titled {title}")
        for key, want in (("type", tn), ("subtype", sn)):
            check(want is None or head[key] == want, "path", lambda: f"the {key} of node {t}/{s} is shown as {head[key]}")
        want = ref[i][3] if i < len(ref) else None
        if (t, s) == (3, 12) and want and body != want and body == want | {"StaticIpAddress": True}:
            known.append("an IPv4 node without a static address is shown with StaticIpAddress true")
            body = want
        out.append((t, s, head["length"], body))
    return tuple(out)


# ---- scenario
GEN = {"dmar": gen_dmar, "ivrs": gen_ivrs, "path": gen_path}
REF = {"dmar": ref_dmar, "ivrs": ref_ivrs, "path": ref_path}
NEW = {"dmar": DMARTable, "ivrs": IVRS_TABLE, "path": DevicePathFactory.from_binary}


class Bench:
    def __init__(self, s, tag, faults, threads, known):
        self.s, self.tag, self.faults, self.threads, self.known = s, tag, faults, threads, known
        self.ivrs = None
        self.prev = {}

    def view(self, kind, o, ref):
        if kind == "path":
            return view_path(o, ref, self.known)
        return (view_dmar if kind == "dmar" else view_ivrs)(o)

    def harm(self, kind, raw):
        """The bytes a reader gets instead of raw, through its own file."""
        d, s = self.s.d, self.s
        b = bytearray(raw)
        k = d.weighted([(3, "cut"), (2, "zeros"), (1, "ones"), (4, "flip"), (4, "length"), (2, "torn"), (1, "extra"), (3, "short")])
        if k == "cut":
            b = b[: d.below(len(b) + 1)]
        elif k in ("zeros", "ones"):
            if d.chance(0.5):
                b += bytes([0 if k == "zeros" else 0xFF]) * d.pick([1, 3, 4, 8, 64, 200])
            else:
                i = d.below(len(b) + 1)
                b[i:] = bytes([0 if k == "zeros" else 0xFF]) * (len(b) - i)
        elif k == "flip" and b:
            for _ in range(d.int(1, 3)):
                b[d.below(len(b))] ^= 1 << d.below(8)
        elif k == "length" and kind == "ivrs" and len(b) > 40 and d.chance(0.15):
            b[36] &= 0xE1  # no address size of the host
            b[9] = 0
            b[9] = -sum(b) & 0xFF
        elif k == "length" and b:
            # a byte that is likely a length or a type
            at = {"dmar": [4, 5, 48, 50, 51], "ivrs": [4, 48, 50, 51], "path": [0, 2, 3]}[kind]
            small = [i for i in range(len(b)) if 1 < b[i] < 72]
            for _ in range(d.int(1, 2)):
                i = d.pick(at) if d.chance(0.5) or not small else d.pick(small)
                if i < len(b):
                    b[i] = d.pick([0, 1, 2, 3, 5, 7, b[i] ^ 1, (b[i] + 1) & 255, (b[i] - 1) & 255, (b[i] + 8) & 255, 255, d.below(256)])
        elif k == "torn" and self.prev.get(kind):
            o = self.prev[kind]
            i = d.below(min(len(o), len(b)) + 1)
            b = b[:i] + o[i:]
        elif k == "extra":
            b += d.bytes(d.int(1, 12))
        elif k == "short" and kind == "path":
            # a node of an older or newer revision: its length is right, its payload has another size
            cut, at = [], 0
            while at < len(b):
                cut.append(at)
                at += b[at + 2] | b[at + 3] << 8
            if cut:
                at = d.pick(cut)
                n = b[at + 2] | b[at + 3] << 8
                m = d.int(4, n) if d.chance(0.8) else n + d.int(1, 6)
                b[at : at + n] = b[at : at + 2] + struct.pack("<H", m) + (b[at + 4 : at + n] + d.bytes(6))[: m - 4]
        elif k == "short" and len(b) > 48:
            i = d.int(48, len(b) - 1)
            del b[i : i + d.int(1, 8)]
        if kind == "ivrs" and d.chance(0.75):
            b = fix_sum(bytes(b))
            if d.chance(0.5) and len(b) >= 48:
                b = bytearray(b)
                b[4:8] = struct.pack("<I", len(b))
                b = fix_sum(bytes(b))
        if kind == "dmar" and k != "length" and len(b) >= 8 and d.chance(0.4):
            b[4:8] = struct.pack("<I", len(b))
        s.hit("data-" + k)
        return bytes(b)

    def load(self, kind, data, redo):
        if kind == "ivrs" and redo:
            _, err = attempt(self.ivrs.Decode, data)
            return self.ivrs, err
        return attempt(NEW[kind], data)

    def step(self):
        s, d = self.s, self.s.d
        kind = d.pick(sorted(GEN))
        raw = GEN[kind](d)
        ref = REF[kind](raw)
        redo = self.ivrs is not None and d.chance(0.6)
        if self.faults and d.chance(0.65):
            data = self.harm(kind, raw)
            s.op("load", kind, len(data))
            o, err = self.load(kind, data, redo)
            try:
                want = REF[kind](data)
            except Bad as e:
                check(err is not None, kind, lambda: f"damaged data was accepted ({e}): {data[:80].hex()}")
                s.probe("refused")
                want = None
            except NoOpinion:
                want = None
            else:
                if kind == "path" or data == raw:
                    check(err is None, kind, lambda: f"valid data was refused: {short(err)}")
                if err is None:
                    got = must(kind, self.view, kind, o, want)
                    check(got == want, kind, lambda: f"damaged data was decoded as {got}, it holds {want}"[:500])
                    s.probe("damaged-exact")
            check(err is None or isinstance(err, (Exception, SystemExit)), kind, "not an error")
            redo = redo or kind == "ivrs" and self.ivrs is not None
        s.op("load", kind, len(raw))
        o, err = self.load(kind, raw, redo)
        check(err is None, kind, lambda: f"valid data was refused: {short(err)} {raw[:60].hex()}")
        self.prev[kind] = raw
        got = must(kind, self.view, kind, o, ref)
        check(got == ref, kind, lambda: f"decoded as {got}, laid out as {ref}"[:600])
        if redo and kind == "ivrs":
            s.probe("redecoded")
        if kind == "ivrs":
            check(ref[2] == raw, "harness", "not normalized")
            self.ivrs = o
            if d.chance(0.5):
                self.build(o, raw)
            elif d.chance(0.6):
                self.show(o, ref)
        elif kind == "dmar":
            if d.chance(0.6):
                show_dmar(o, ref)
            if d.chance(0.6):
                self.golden(o, ref)
            check(view_dmar(o) == ref, kind, "using the table changed it")

    def show(self, o, ref):
        s, d = self.s, self.s.d
        out = None
        if not self.threads:
            out = Sink(s, "console", d.int(1, 30) if self.faults and d.chance(0.4) else None, OSError(28, "no space"))
        show_ivrs(o, ref, out)
        check(view_ivrs(o) == ref, "ivrs", "showing the table changed it")

    def build(self, o, raw):
        """Entries are added one after the other; the table stays exact in between."""
        s, d = self.s, self.s.d
        for _ in range(d.int(1, 4)):
            b = gen_ivxd(d)
            raw = raw[:4] + struct.pack("<I", len(raw) + len(b)) + raw[8:] + b
            raw = fix_sum(raw)
            if b[0] in (0x20, 0x21, 0x22):
                x = must("ivrs", IVRS_TABLE.IVMD_STRUCT, b)
                if d.chance(0.3):
                    must("ivrs", x.Decode, b)
                must("ivrs", o.addIVMDEntry, x)
            else:
                x = must("ivrs", IVRS_TABLE.IVHD_STRUCT, b)
                if d.chance(0.3):
                    must("ivrs", x.Decode, b)
                elif d.chance(0.4):
                    # entry by entry
                    y = must("ivrs", IVRS_TABLE.IVHD_STRUCT)
                    hdr = 24 if b[0] == 0x10 else 40
                    must("ivrs", y.Decode, b[:2] + struct.pack("<H", hdr) + b[4:hdr])
                    for e in x.DeviceTableEntries:
                        must("ivrs", y.addDTEEntry, e)
                    x = y
                must("ivrs", o.addIVHDEntry, x)
            s.op("add", b[0])
            s.probe("added")
            got = must("ivrs", view_ivrs, o)
            want = ref_ivrs(raw)
            check(got == want, "ivrs", lambda: f"after adding an entry: {got}, expected {want}"[:600])
            if d.chance(0.3):
                self.show(o, want)

    def golden(self, o, ref):
        """CheckRMRRCount says yes only when every RMRR is listed."""
        s, d = self.s, self.s.d
        paths = [rmrr_path(x[2]) for x in ref[1] if x[0] == "RMRR"]
        listed = [p for p in paths if p and d.chance(0.8)] + [f"{d.below(99):02d}:01.{d.below(8)}" for _ in range(d.below(3))]
        d.shuffle(listed)
        xml = "<Golden>" + "".join(f"<RMRR><Path>{p}</Path></RMRR>\n" for p in listed) + "</Golden>\n"
        path = s.scratch + f"/{self.tag}-golden.xml"
        want = all(p in listed for p in paths)
        simfs.write(path, xml.encode())
        k = d.weighted([(6, "ok"), (2, "faults" if self.faults else "ok"), (1, "gone"), (1, "cut")])
        if k == "gone":
            path += ".old"
            want = not paths
        elif k == "cut":
            simfs.write(path, xml.rstrip()[: d.below(len(xml) - 1)].encode())
        failed0 = s.fs.failed_ops
        if k == "faults":
            s.swarm(["open-eacces", "open-eio", "read-eio", "short-read", "open-emfile"], (1, 2), (0.3, 1.0), 0.6)
        with contextlib.redirect_stdout(io.StringIO()) if not self.threads else contextlib.nullcontext():
            got, err = attempt(o.CheckRMRRCount, path)
        s.fault_rates = {}
        s.op("golden", k)
        if k == "cut" or s.fs.failed_ops != failed0:
            check(err is not None, "golden", "a golden file that could not be read was taken for an answer")
            return
        check(err is None, "golden", lambda: f"CheckRMRRCount raised {short(err)}")
        check(got is want, "golden", lambda: f"CheckRMRRCount says {got}: RMRRs {paths}, listed {listed}")
        check(not s.fs.open_files, "golden", "the golden file is still open") if not self.threads else None


def run(s, faults, threads):
    d = s.d
    s.set_preempt(d.pick([5, 40, 200]) if threads else 0)
    s.fs = simfs.SimFS(s, s.scratch)
    fails, known = [], []

    def worker(tag):
        try:
            b = Bench(s, tag, faults, threads, known)
            for _ in range(d.int(2, 7)):
                b.step()
        except Violation as v:
            fails.append(v)

    shared = []

    def reader():
        try:
            for kind, o, ref in shared:
                for _ in range(2):
                    got = view_path(o, ref, known) if kind == "path" else (view_dmar if kind == "dmar" else view_ivrs)(o)
                    check(got == ref, kind, "a table read by several threads differs")
                    if kind != "path":
                        (show_dmar if kind == "dmar" else show_ivrs)(o, ref)
        except Violation as v:
            fails.append(v)

    with contextlib.redirect_stdout(io.StringIO()):
        if threads:
            for _ in range(d.int(1, 3)):
                kind = d.pick(sorted(GEN))
                raw = GEN[kind](d)
                shared.append((kind, must(kind, NEW[kind], raw), REF[kind](raw)))
            ts = [threading.Thread(target=worker, args=("A",)), threading.Thread(target=reader), threading.Thread(target=d.pick([reader, lambda: worker("B")]))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        else:
            worker("A")
    if fails:
        raise fails[0]
    s.extra["nontrivial"] = True
    if known:
        raise Violation("path-known", known[0])


MODES = [
    (3, "serial", lambda s: run(s, False, False)),
    (6, "faults", lambda s: run(s, True, False)),
    (2, "threads", lambda s: run(s, False, True)),
]
