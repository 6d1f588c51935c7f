"""C19: an exported file or listing is complete and exact, or the export fails."""

import contextlib
import datetime
import io
import logging
import os
import re
import sys
import threading
import time
import uuid

from .. import bstream, simfs
from ..core import Violation
from ..util import Sink, attempt, check, must, root_logging, short

import edk2toollib.uefi.edk2.build_objects.dsc as D
import edk2toollib.uefi.edk2.parsers.base_parser as bp
import edk2toollib.utility_functions as uf
import edk2toollib.windows.capsule.inf_generator as g1
import edk2toollib.windows.capsule.inf_generator2 as g2
from edk2toollib.uefi.edk2.build_objects.dsc_translator import DscTranslator

ID = "C19"
HOOK_LINES = True
STEP_CAP = 1000000

OSV = "10.0...17134"
ARCHS = {"amd64": "amd64", "x64": "amd64", "arm": "arm", "arm64": "ARM64", "aarch64": "ARM64", "X64": "amd64", "AARCH64": "ARM64", "Amd64": "amd64"}


# ---- reading exported text back, independently of the library ----


def norm(line):
    """One line without meaningless blanks."""
    line = line.strip()
    m = re.match(r"^([^=\"]*?)\s*(==|=)\s*(.*)$", line)
    if m:
        line = f"{m[1].strip()}{m[2]}{m[3].strip()}"
    return re.sub(r"\s*\|\s*", "|", line)


def inf_sections(text):
    """{section: [lines]} of a Windows INF file; a section must come once."""
    out, cur = {}, None
    for line in text.split("\n"):
        line = line.strip()
        if not line or line.startswith(";"):
            continue
        m = re.match(r"^\[(.*)\]$", line)
        if m:
            cur = m[1]
            check(cur not in out, "inf", lambda: f"section [{cur}] written twice")
            out[cur] = []
            continue
        check(cur is not None, "inf", lambda: f"a line before the first section: {line!r}")
        out[cur].append(norm(line))
    return out


def dsc_sections(text):
    """{section: sorted lines}; components are (path, {subsection: sorted lines})."""
    out, cur, sub, comp = {}, None, None, None
    for line in text.split("\n"):
        line = line.strip()
        if not line or line.startswith("#"):
            continue
        if comp is not None:
            if line == "}":
                cur.append((comp[0], {k: sorted(v) for k, v in comp[1].items()}))
                comp = sub = None
                continue
            m = re.match(r"^<(.*)>$", line)
            if m:
                check(m[1].lower() not in comp[1], "dsc", lambda: f"subsection <{m[1]}> written twice")
                sub = comp[1][m[1].lower()] = []
                continue
            check(sub is not None, "dsc", lambda: f"{line!r} in no subsection")
            sub.append(norm(line))
            continue
        m = re.match(r"^\[(.*)\]$", line)
        if m:
            check(m[1].lower() not in out, "dsc", lambda: f"section [{m[1]}] written twice")
            cur = out[m[1].lower()] = []
            continue
        check(cur is not None, "dsc", lambda: f"a line before the first section: {line!r}")
        if line.endswith("{"):
            comp, sub = (line[:-1].strip(), {}), None
            continue
        cur.append(norm(line))
    check(comp is None, "dsc", "a component is not closed")
    return {k: sorted(v, key=repr) for k, v in out.items()}


def bad_dump(text, data, start, asc, off, sep):
    """What is wrong with a hex dump, or None."""
    lines = text.split("\n")
    if not text.endswith("\n"):
        return "the last line is not ended"
    lines.pop()
    if not data:
        return None if lines in ([], [""]) else f"a dump of nothing: {lines}"
    rows = [data[i : i + 16] for i in range(0, len(data), 16)]
    if len(rows) != len(lines):
        return f"{len(lines)} lines for {len(rows)} rows"
    col = set()
    for i, (row, line) in enumerate(zip(rows, lines)):
        if off:
            m = re.match(r"^(0x[0-9a-f]+) -", line)
            if not m or int(m[1], 16) != start + 16 * i:
                return f"row {i}: offset in {line!r}"
            line = line[m.end() :]
        hexes = "".join(f" 0x{b:02x}" if not (j == 8 and sep) else f" - 0x{b:02x}" for j, b in enumerate(row))
        if not line.startswith(hexes):
            return f"row {i}: {line!r} does not start with {hexes!r}"
        rest = line[len(hexes) :]
        if not asc:
            if rest:
                return f"row {i}: {rest!r} behind the bytes"
            continue
        want = "".join(chr(b) if 0x20 <= b <= 0x7E else "." for b in row)
        if not (rest.endswith(want + " ") and not rest[: -len(want) - 1].strip(" ")):
            return f"row {i}: text {rest!r}, expected {want!r}"
        col.add(len(line) - len(want) - 1)
    return None if len(col) <= 1 else f"text columns {sorted(col)}"


def bad_array(text, data, kw, name):
    """What is wrong with a C array, or None."""
    m = re.match(r"^(\S+) (\w+)\[(\d*)\] = \{\n", text)
    if not m:
        return f"declaration: {text[:60]!r}"
    want = str(len(data)) if kw.get("include_length", True) else ""
    if (m[1], m[2], m[3]) != (kw.get("data_type", "UINT8"), name, want):
        return f"declaration {m[0]!r}, expected length {want!r}"
    body, close, tail = text[m.end() :].partition("\n};\n\n")
    if not close:
        return "the array is not closed"
    per = kw.get("bytes_per_row", 16)
    rows = body.split("\n")
    if len(rows) != -(-len(data) // per):
        return f"{len(rows)} rows of {per} for {len(data)} bytes"
    col = set()
    for i, row in enumerate(rows):
        part = data[i * per : i * per + per]
        last = i == len(rows) - 1
        code, sep, note = row.partition("//")
        indent = kw.get("indent", "    ")
        if not code.startswith(indent + "0x"):
            return f"row {i}: indentation of {row!r}"
        if kw.get("include_ascii", True):
            text_ = "".join(chr(b) if 0x20 <= b <= 0x7E else "." for b in part)
            if note != f" {text_} ":
                return f"row {i}: comment {note!r}, expected {text_!r}"
            col.add(len(code))
        elif sep:
            return f"row {i}: a comment"
        code = code.strip()
        if last == code.endswith(","):
            return f"row {i}: comma at the end of {code!r}"
        vals = [x.strip() for x in code.rstrip(",").split(",")]
        if vals != [f"0x{b:02x}" for b in part]:
            return f"row {i}: {vals}"
    if len(col) > 1:
        return f"comment columns {sorted(col)}"
    lv = kw.get("length_variable_name")
    want = f"{kw.get('length_data_type', 'UINTN')} {lv} = sizeof {name};\n\n" if lv else ""
    return None if tail == want else f"behind the array: {tail!r}"


# ---- things to export ----


def text(d, extra=""):
    """A printable value without line breaks, quotes or outer blanks."""
    s = d.word()
    if d.chance(0.1):
        return d.pick(["", " ", "0", "  " + s, s + " ", s + "  x", "." + s, s + ";"])
    if d.chance(0.4):
        s += d.pick([" and Co", " é", " ß Ω", " {x}", " 100%", " {{0}}", " \\n", " 漢字" + extra])
    return s


class Dsc:
    """A DSC data model built call by call, with what its file must hold."""

    kind = "dsc"

    def __init__(self, s):
        self.s, self.d = s, s.d
        self.o = D.dsc("x.dsc")
        self.want = {"defines": {}, "skuids": {}}
        self.n = 0
        self.bad = None
        for _ in range(self.d.int(1, 12)):
            self.grow()

    def name(self, p):
        self.n += 1
        return f"{p}{self.n}{self.d.word()}"

    def put(self, sec, key, line):
        self.want.setdefault(sec.lower(), {})[key] = line

    def define(self, target, sec, pre=""):
        d = self.d
        local = d.chance(0.4)
        n = self.name("N") if d.chance(0.7) else "SAME"
        v = d.pick(["0x10", "Build/X", "A|B", "$(X)/y", "TRUE", '"q = r"', "a = b", "", "0", "FALSE", "None", d.word(), "x" * 300, "a,b", "é", "[x]", "{y", "a  b"])
        target.add(D.definition(n, v, local))
        return ("d", n), norm(f"{'DEFINE ' if local else ''}{n} = {v}")

    def option(self, target):
        d = self.d
        o = dict(tool_code=d.pick(["CC", "DLINK", "ASM", "*"]), attribute=d.pick(["FLAGS", "PATH", "DPATH"]), data=d.pick(["/D X", "-O2 -DX=1", "", "0", d.word(), "-a  -b", "/D A=B,C==D", '"x y"']),
                 target=d.pick(["*", "DEBUG", "RELEASE", "NOOPT"]), tagname=d.pick(["*", "GCC5", "VS2022"]), arch=d.pick(["*", "X64", "IA32", "AARCH64"]),
                 family=d.pick([None, "MSFT", "GCC", "INTEL"]), replace=d.chance(0.3))  # fmt: skip
        target.add(D.build_option(**o))
        key = tuple(o[k] for k in ("family", "target", "tagname", "arch", "tool_code", "attribute"))
        left = "_".join(key[1:])
        return key, norm(f"{(o['family'] + ':') if o['family'] else ''}{left} {'==' if o['replace'] else '='} {o['data']}")

    def apcd(self, target):
        d = self.d
        ns, n = d.pick(["gA", "gB"]), self.name("Pcd") if d.chance(0.7) else "PcdSame"
        k = d.below(3)
        if k == 0:
            v = d.pick(["TRUE", "0x1", 'L"x y"', "{0x1, 0x2}", "", "0", "FALSE", 'L""', d.word()])
            o, line = D.pcd(ns, n, v), f"{ns}.{n}|{v}"
        elif k == 1:
            size, v, ty = d.pick([0, 0, 1, 16, 255, 65536, "8"]), d.pick(["0x5", "0", '"x"', "{1,2}", d.word()]), d.pick(["UINT8", "UINT16", "UINT32", "UINT64", "BOOLEAN", "VOID*"])
            o = D.pcd_typed(ns, n, v, ty, size)
            line = f"{ns}.{n}|{v}|{ty}" + (f"|{size}" if size else "")
        else:
            dv = d.pick([None, "0", "0x5", "", "FALSE", d.word()])
            at = d.sample(["NV", "BS", "RT", "RO"], d.below(4))
            var, gu, off = d.pick(['L"Var"', f'L"{d.word()}"', 'L"a b"']), d.pick(["gVarGuid", d.word()]), d.pick(["0x0", "0", "0x10", d.word()])
            o = D.pcd_variable(ns, n, var, gu, off, dv, d.pick([", ".join(at), [x.lower() for x in at], at, ",".join(at)]) if at else d.pick([None, []]))
            line = f"{ns}.{n}|{var}|{gu}|{off}"
            if dv is not None or at:
                line += f"|{dv or ''}"
            if at:
                line += "|" + ", ".join(at)
        target.add(o)
        return ("p", ns, n), norm(line)

    def lib(self, target):
        d = self.d
        c = d.pick(["NULL", "PcdLib", self.name("Lib")])
        inf = f"Pkg/{self.name('L')}.inf"
        target.add(D.library_class(c, inf))
        return ("l", c, inf) if c == "NULL" else ("l", c), f"{c}|{inf}"

    def section(self):
        d = self.d
        a, m = d.pick(["common", "common", "X64", "ia32", "AArch64", "EBC"]), d.pick(["common", "common", "PEIM", "DXE_DRIVER", *D.dsc_section_type.dsc_module_types])
        return D.dsc_section_type(a, m), f".{a.upper()}.{m.upper()}"

    def grow(self):
        d, o = self.d, self.o
        k = d.below(10)
        if k == 9:
            # a section with nothing in it yet, or a definition in an unusual place
            j = d.below(5)
            if j == 0:
                key, line = self.define(o.skus, "")
                self.put("skuids", key, line)
            elif j == 1:
                key, line = self.define(o.default_stores, "")
                self.put("DefaultStores", key, line)
            else:
                sec, t = self.section()
                n, where = d.pick([("Libraries", o.libraries), ("Components", o.components), ("LibraryClasses", o.library_classes)])
                box = where[sec]
                self.want.setdefault((n + t).lower(), {})
                if d.chance(0.5):
                    key, line = self.define(box, "")
                    self.put(n + t, key, line)
        elif k == 0:
            key, line = self.define(o.defines, "defines")
            self.put("defines", key, line)
        elif k == 1:
            i, n = d.below(5), f"SKU{d.below(5)}"
            sku = D.sku_id(i, n, d.pick(["DEFAULT", "SKU0", d.word()]))
            o.skus.add(sku)
            box = self.want["skuids"]
            for x in [x for x in box if x[0] == i or x[1] == n]:  # ids and names are unique
                del box[x]
            self.put("skuids", (i, n), f"{i}|{n}|{sku.parent}")
        elif k == 2:
            sec, t = self.section()
            key, line = self.lib(o.library_classes[sec]) if d.chance(0.8) else self.define(o.library_classes[sec], "")
            self.put("LibraryClasses" + t, key, line)
        elif k == 3:
            sec, t = self.section()
            inf = f"Pkg/{self.name('M')}.inf"
            c = D.component(inf)
            subs = {}
            for _ in range(d.below(5)):
                j = d.below(4)
                if j == 0:
                    key, line = self.lib(c.library_classes)
                    # a component has plain sets: the first of two equal items stays
                    subs.setdefault("libraryclasses", {}).setdefault(key, line)
                elif j == 1:
                    key, line = self.define(c.defines, "")
                    subs.setdefault("defines", {}).setdefault(key, line)
                elif j == 2:
                    key, line = self.option(c.build_options)
                    subs.setdefault("buildoptions", {}).setdefault(key, line)
                else:
                    t2 = d.pick(["FeatureFlag", "FixedAtBuild", "DynamicHii"])
                    key, line = self.apcd(c.pcds.setdefault(D.dsc_pcd_component_type(t2), set()))
                    subs.setdefault("pcds" + t2.lower(), {}).setdefault(key, line)
            o.components[sec].add(c)
            subs = {k: sorted(v.values()) for k, v in subs.items()}
            self.put("Components" + t, inf, (inf, subs) if subs else inf)
        elif k == 4:
            ty = d.pick(["FeatureFlag", "FixedAtBuild", "DynamicHii", "Dynamic", "DynamicExHii", "PatchableInModule", "DynamicVpd", "DynamicEx"])
            a, sku = d.pick(["common", "X64", "IA32"]), d.pick(["DEFAULT", "sku1", "SKU2"])
            st = d.pick([None, "Standard", "Other"]) if ty.endswith("Hii") else None
            sec = D.dsc_pcd_section_type(ty, a, sku, st)
            key, line = self.apcd(o.pcds[sec])
            self.put(f"Pcds{ty}.{a}.{sku}" + (f".{st}" if st else ""), key, line)
        elif k == 5:
            a, cb, m = d.pick(["common", "X64", "IA32"]), d.pick(["common", "EDKII", "EDK"]), d.pick(["common", "PEIM", "UEFI_DRIVER"])
            key, line = self.option(o.build_options[D.dsc_buildoption_section_type(a, cb, m)])
            self.put(f"BuildOptions.{a}.{cb}.{m}", key, line)
        elif k == 6:
            i = d.below(3)
            st = D.default_store(d.pick([i, str(i)]), d.pick(["Standard", "Manufacturing", d.word()]))
            o.default_stores.add(st)
            self.put("DefaultStores", i, f"{i}|{st.value}")
        elif k == 7:
            sec, t = self.section()
            inf = f"Pkg/{self.name('E')}.inf"
            o.libraries[sec].add(D.library(inf))
            self.put("Libraries" + t, inf, inf)
        else:
            # a refused addition changes nothing
            tgt, item = d.pick([(o.skus, D.library_class("A", "B")), (o.defines, D.sku_id(9, "X")), (o.default_stores, D.pcd("a", "b", "c"))])
            r, err = attempt(tgt.add, item)
            check(isinstance(err, ValueError), "dsc", lambda: f"adding a {type(item).__name__} gave {err and short(err)}")

    def write(self, path):
        DscTranslator.dsc_to_file(self.o, path)

    def judge(self, t):
        got = dsc_sections(t)
        want = {k: sorted(v.values(), key=repr) for k, v in self.want.items()}
        for k in sorted(set(got) | set(want)):
            a, b = got.get(k, []), want.get(k, [])
            if a != b:
                return f"[{k}]: {a} instead of {b}"
        return None

    def spoil(self):
        """Make it impossible to render; returns the undo."""
        o = D.build_option("CC", "FLAGS", "x", family="GCC")
        sec = D.dsc_buildoption_section_type("ARM")
        self.o.build_options[sec].add(o)
        o.target = None
        return lambda: self.o.build_options.pop(sec)


class Inf1:
    kind = "inf"

    def __init__(self, s):
        d = self.d = s.d
        self.s = s
        self.f = dict(Name=d.pick(["Sys-Fw", "a_b", d.word()]), Provider=text(d), EsrtGuid=str(uuid.UUID(bytes=d.bytes(16))), Arch=d.pick(list(ARCHS)),
                      Description=text(d), VersionString=d.pick(["1.0.0.1", "10.2", "4.15.80", "65535.0.65535.9"]), VersionHex=d.pick(["0x1000001", "17", "0xFFFFFFFF", "0", "0x80000000", str(d.below(1 << 32)), "0b101", "0o17"]))  # fmt: skip
        f = self.f
        before = time.time()
        self.o = g1.InfGenerator(f["Name"], f["Provider"], f["EsrtGuid"], f["Arch"], f["Description"], f["VersionString"], f["VersionHex"])
        after = time.time()
        self.dates = {datetime.datetime.fromtimestamp(x).strftime("%m/%d/%Y") for x in (before, after)}
        self.integrity = ""
        self.man = None
        self.bin = d.pick(["fw.bin", "dir/sub/fw_1.bin", "x.cap"])
        self.rollback = d.chance(0.4)
        for _ in range(d.below(4)):
            self.grow()

    def grow(self):
        d, o, f = self.d, self.o, self.f
        k = d.below(8)
        if k == 0:
            self.man = o.Manufacturer = text(d)
        elif k == 1:
            self.integrity = o.IntegrityFilename = d.pick(["integrity.bin", "i2.dat", d.word() + ".x"])
        elif k == 2:
            o.Date = datetime.date(d.int(1999, 2099), d.int(1, 12), d.int(1, 28))
            self.dates = {f"{o._date.month:02d}/{o._date.day:02d}/{o._date.year}"}
        elif k == 3:
            n, v = d.pick([("Name", "n2"), ("Provider", text(d)), ("Description", text(d)), ("VersionString", "2.2"), ("VersionHex", "0x22"), ("Arch", "ARM64")])
            setattr(o, n, v)
            f[n] = v
        elif k == 4:
            self.bin = d.pick(["other.bin", "q/r.bin", d.word() + ".BIN", "../up.bin", "a/b/c/Fw-1_2.cap"])
        elif k == 5:
            self.rollback = not self.rollback
        else:
            n, v = d.pick([("Name", "a b"), ("Name", "a{b}"), ("EsrtGuid", "not-a-guid"), ("VersionString", "7"), ("VersionString", "1.2.3.4.5"),
                           ("VersionHex", "0x100000000"), ("VersionHex", "zz"), ("VersionHex", "-1"), ("Name", "n\n"), ("Name", "n x\n"), ("VersionString", "1"), ("EsrtGuid", ""), ("Arch", "mips"), ("Date", "01/01/2020")])  # fmt: skip
            r, err = attempt(setattr, o, n, v)
            check(isinstance(err, ValueError), "inf", lambda: f"setting {n} = {v!r} gave {err and short(err)}")

    def write(self, path):
        r = self.o.MakeInf(path, self.bin, self.rollback)
        check(r == 0, "inf", f"MakeInf returned {r}")

    def judge(self, t):
        f, arch = self.f, ARCHS[self.f["Arch"].lower()]
        g = "{" + f["EsrtGuid"] + "}"
        b = os.path.basename(self.bin)
        got = inf_sections(t)
        dv = [x for x in got.get("Version", []) if x.startswith("DriverVer=")]
        if len(dv) != 1 or dv[0] not in {f"DriverVer={x},{f['VersionString']}" for x in self.dates}:
            return f"{dv}, expected one of {self.dates} and {f['VersionString']}"
        files = [b] + ([self.integrity] if self.integrity else [])
        want = {
            "Version": ['Signature="$WINDOWS NT$"', "Class=Firmware", "ClassGuid={f2e7dd72-6468-4e36-b6f1-6488f42c1b52}", "Provider=%Provider%", dv[0], "PnpLockdown=1", f"CatalogFile={f['Name']}.cat"],
            "Manufacturer": [f"%MfgName%=Firmware,NT{arch}.{OSV}"],
            f"Firmware.NT{arch}.{OSV}": [f"%FirmwareDesc%=Firmware_Install,UEFI\\RES_{g}"],
            "Firmware_Install.NT": ["CopyFiles=Firmware_CopyFiles"],
            "Firmware_CopyFiles": files,
            "Firmware_Install.NT.Services": ["AddService=,2"],
            "Firmware_Install.NT.Hw": ["AddReg=Firmware_AddReg"],
            "Firmware_AddReg": [f"HKR,,FirmwareId,,{g}", f"HKR,,FirmwareVersion,%REG_DWORD%,0x{int(f['VersionHex'], 0):X}", f"HKR,,FirmwareFilename,,%13%\\{b}"] + ([f"HKR,,FirmwareIntegrityFilename,,%13%\\{self.integrity}"] if self.integrity else []),
            "SourceDisksNames": ["1=%DiskName%"],
            "SourceDisksFiles": [x + "=1" for x in files],
            "DestinationDirs": ["DefaultDestDir=13"],
            "Strings": [f'Provider="{f["Provider"]}"', f'MfgName="{self.man if self.man is not None else f["Provider"]}"', f'FirmwareDesc="{f["Description"]}"', 'DiskName="Firmware Update"', "DIRID_WINDOWS=10", "REG_DWORD=0x00010001"],
        }  # fmt: skip
        if self.rollback:
            want["Firmware_Install.NT"].append("AddReg=Firmware_DowngradePolicy_Addreg")
            want["Firmware_DowngradePolicy_Addreg"] = [f"HKLM,SYSTEM\\CurrentControlSet\\Control\\FirmwareResources\\{g},Policy,%REG_DWORD%,1"]
        return diff_sections(got, want)

    def spoil(self):
        keep = self.o._versionhex
        self.o._versionhex = "x"

        def undo():
            self.o._versionhex = keep

        return undo


def diff_sections(got, want):
    for k in sorted(set(got) | set(want)):
        if k not in got or k not in want:
            return f"[{k}] {'missing' if k in want else 'unexpected'}"
        if sorted(got[k]) != sorted(want[k]):
            return f"[{k}]: {got[k]} instead of {want[k]}"
    return None


class Inf2:
    kind = "inf2"

    def __init__(self, s):
        d = self.d = s.d
        self.s = s
        self.name, self.ver = d.pick(["Sys-Fw", d.word()]), d.pick(["1.0.0.1", "3.4"])
        self.date, self.want_date = d.pick([("01/02/2021", "01/02/2021"), ("1/2/2021", "01/02/2021"), ("12/31/1999", "12/31/1999")])
        self.prov, self.man, self.disk = text(d), text(d), text(d)
        self.arch = d.pick(list(ARCHS))
        self.os = d.pick([None, "10.0...22000", "10.0"])
        self.o = g2.InfFile(self.name, self.ver, self.date, self.prov, self.man, self.arch, self.disk, self.os)
        self.fw, self.files, self.n = [], [], 0
        while not self.fw:
            self.grow()
        for _ in range(d.below(4)):
            self.grow()

    def grow(self):
        d = self.d
        self.n += 1
        f = dict(Tag=d.pick(["Fw", "Ec-", "T_"]) + str(self.n) if not self.fw or d.chance(0.85) else d.pick(self.fw)["Tag"], Description=text(d), EsrtGuid=str(uuid.UUID(bytes=d.bytes(16))), VersionInt=d.pick(["0x1000001", "17", "0", "0xFFFFFFFF", "0x80000000", str(d.below(1 << 32)), "0b101"]),
                 FirmwareFile=d.pick(["same.bin", "same.bin", "Same.bin", f"fw{self.n}.bin", "a.b-c_d"]), Rollback=d.chance(0.4), IntegrityFile=d.pick([None, None, "same-i.bin", "SAME-I.BIN", f"i{self.n}.bin"]))  # fmt: skip
        harm = d.weighted([(6, None), (1, "Tag"), (1, "EsrtGuid"), (1, "VersionInt"), (1, "FirmwareFile"), (1, "IntegrityFile")])
        if harm:
            bad = {"Tag": ["a tag", "a[b]", "x\n"], "EsrtGuid": ["nope", ""], "VersionInt": ["z", ""], "FirmwareFile": ["a b?.bin", "f.bin\n"], "IntegrityFile": ["x/y*", "i.bin\n"]}
            f[harm] = d.pick(bad[harm])
        r, err = attempt(self.o.AddFirmware, **f)
        if harm:
            self.s.probe("refused")
            check(isinstance(err, ValueError), "inf2", lambda: f"a firmware with a wrong {harm} gave {err and short(err)}")
            return
        check(err is None, "inf2", lambda: f"adding {f} raised {short(err)}")
        self.fw = [x for x in self.fw if x["Tag"] != f["Tag"]] + [f]  # the last firmware of a tag stays
        for x in (f["FirmwareFile"], f["IntegrityFile"]):
            if x is not None and x not in self.files:
                self.files.append(x)

    def write(self, path):
        t = str(self.o)
        check(str(self.o) == t, "inf2", "two renderings of one INF differ")
        with open(path, "w") as f:
            f.write(t)

    def judge(self, t):
        arch, osv = ARCHS[self.arch.lower()], self.os or OSV
        want = {
            "Version": ['Signature="$WINDOWS NT$"', "Class=Firmware", "ClassGuid={f2e7dd72-6468-4e36-b6f1-6488f42c1b52}", "Provider=%Provider%", f"DriverVer={self.want_date},{self.ver}", "PnpLockdown=1", f"CatalogFile={self.name}.cat"],
            "Manufacturer": [f"%MfgName%=Firmware,NT{arch}.{osv}"],
            f"Firmware.NT{arch}.{osv}": [],
            "SourceDisksNames": ["1=%DiskName%"],
            "SourceDisksFiles": [x + "=1" for x in self.files],
            "DestinationDirs": ["DefaultDestDir=13"],
            "Strings": [f'Provider="{self.prov}"', f'MfgName="{self.man}"', f'DiskName="{self.disk}"', "REG_DWORD=0x00010001"],
        }  # fmt: skip
        for f in self.fw:
            g, tag, b, i = "{" + f["EsrtGuid"] + "}", f["Tag"], f["FirmwareFile"], f["IntegrityFile"]
            want[f"Firmware.NT{arch}.{osv}"].append(f"%{tag}Desc%={tag}_Install,UEFI\\RES_{g}")
            want[f"{tag}_Install.NT"] = [f"CopyFiles={tag}_CopyFiles"]
            if f["Rollback"]:
                want[f"{tag}_Install.NT"].append(f"AddReg={tag}_DowngradePolicy_AddReg")
                want[f"{tag}_DowngradePolicy_AddReg"] = [f"HKLM,SYSTEM\\CurrentControlSet\\Control\\FirmwareResources\\{g},Policy,%REG_DWORD%,1"]
            want[f"{tag}_CopyFiles"] = [b] + ([i] if i else [])
            want[f"{tag}_Install.NT.Services"] = ["AddService=,2"]
            want[f"{tag}_Install.NT.Hw"] = [f"AddReg={tag}_AddReg"]
            want[f"{tag}_AddReg"] = [f"HKR,,FirmwareId,,{g}", f"HKR,,FirmwareVersion,%REG_DWORD%,0x{int(f['VersionInt'], 0):X}", f"HKR,,FirmwareFilename,,%13%\\{b}"]
            if i:
                want[f"{tag}_AddReg"].append(f"HKR,,FirmwareIntegrityFilename,,%13%\\{i}")
            want["Strings"].append(f'{tag}Desc="{f["Description"]}"')
        return diff_sections(inf_sections(t), want)

    def spoil(self):
        return None


class Lines:
    kind = "lines"

    def __init__(self, s):
        self.s, self.d = s, s.d
        self.o = bp.BaseParser("x")
        self.lines = []
        self.grow()

    def grow(self):
        d = self.d
        for _ in range(d.pick([0, 1, 3, 40])):
            self.lines.append(d.pick(["", "[Defines]", "  a = b  ", "é Ω", "\ttab", d.word() * d.pick([1, 900])]))
        self.o.Lines = list(self.lines)

    def write(self, path):
        self.o.WriteLinesToFile(path)

    def judge(self, t):
        want = "".join(x + "\n" for x in self.lines)
        return None if t == want else f"{len(t)} characters instead of {len(want)}: {t[:60]!r}"

    def spoil(self):
        return None


class Dump:
    """A hex dump or a C array, from memory or a stream to a stream."""

    kind = "dump"

    def __init__(self, s):
        self.s, self.d = s, s.d
        self.grow()

    def grow(self):
        d = self.d
        n = d.pick([d.below(80), 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 0 if d.chance(0.3) else 24, 300])
        self.array = d.chance(0.5)
        self.data = d.bytes(n) if d.chance(0.6) else bytes(d.pick(b"\\ /*?~\x7f\x20\x00A") for _ in range(n))
        self.start = d.pick([0, 0, 5, 0x10, 0xFFFFFFF0, 0x40000000])
        self.opts = [d.chance(0.7) for _ in range(3)]
        self.how = d.below(3)
        self.head = d.bytes(d.pick([0, 0, 5]))
        kw = self.kw = {}
        if d.chance(0.4):
            kw["data_type"] = d.pick(["UINT8", "CHAR8", "UINT16"])
        if d.chance(0.4):
            kw["bytes_per_row"] = d.pick([1, 2, 5, 8, 16, 32])
        if d.chance(0.4):
            kw["indent"] = d.pick(["", "  ", "\t"])
        if d.chance(0.5):
            kw["include_ascii"] = d.chance(0.5)
        if d.chance(0.4):
            kw["include_length"] = d.chance(0.5)
        if d.chance(0.4):
            kw["length_variable_name"] = "gLen"
        if d.chance(0.3):
            kw["length_data_type"] = "UINT32"

    def source(self):
        return bstream.Medium(self.s, self.head + self.data, len(self.head), "source")

    def emit(self, out, src):
        a, o, h = self.opts
        if self.array:
            uf.export_c_type_array(src, "gData", out, **self.kw)
        elif self.how == 0:
            uf.hexdump(self.data, offset_start=self.start, outfs=out, include_ascii=a, include_offset=o, include_hex_sep=h)
        elif self.how == 1:
            uf.PrintByteList(bytearray(self.data), a, o, h, self.start, outfs=out)
        else:
            uf.hexdump(list(self.data), self.start, out, include_ascii=a, include_offset=o, include_hex_sep=h)

    def empty(self):
        return self.array and not self.data

    def write(self, path):
        with open(path, "w") as f:
            self.emit(f, self.source())

    def judge(self, t):
        if self.array:
            return bad_array(t, self.data, self.kw, "gData")
        a, o, h = self.opts
        return bad_dump(t, self.data, self.start, a, o, h)

    def spoil(self):
        return None


KINDS = [Dsc, Inf1, Inf2, Lines, Dump]


# ---- runs ----


def decoded(data, locale):
    """A text file in UTF-8 or the host's encoding."""
    try:
        return data.decode("utf-8")
    except UnicodeDecodeError:
        if locale is None:
            raise
        return data.decode(locale)


class Bench:
    """Writes things to files of its own directory, again and again."""

    def __init__(self, s, tag, faults):
        self.s, self.faults = s, faults
        self.root = f"{s.scratch}/{tag}"
        os.makedirs(self.root, exist_ok=True)
        self.things = []
        self.have = {}

    def step(self):
        s, d = self.s, self.s.d
        if not self.things or d.chance(0.3):
            self.things.append(must("build", d.pick(KINDS), s))
        t = d.pick(self.things)
        if d.chance(0.4):
            must(t.kind, t.grow)
        if isinstance(t, Dump) and t.empty():
            r, err = attempt(uf.export_c_type_array, t.source(), "gData", Sink(s))
            check(isinstance(err, ValueError), "dump", lambda: f"an empty array gave {err and short(err)}")
            return
        path = f"{self.root}/{d.pick(['a', 'b', 'c'])}.out"
        if d.chance(0.15):
            self.refused(t, path)
            return
        rate = self.faults and d.chance(0.6)
        if rate:
            s.swarm(["open-eacces", "open-emfile", "write-eio", "enospc", "short-write", "close-eio"], (1, 1), (0.15, 0.6), 0.7)
        failed0 = s.fs.failed_ops
        r, err = attempt(t.write, path)
        s.fault_rates = {}
        s.fs.capacity = None
        failed = s.fs.failed_ops != failed0
        s.op(t.kind, os.path.basename(path), bool(failed))
        if s.fs.locale and not failed and isinstance(err, UnicodeEncodeError):
            # characters the host's encoding has none for: refused, and only if they are really there
            self.closed(t)
            err = None
            old, s.fs.locale = s.fs.locale, None
            must(t.kind, t.write, path)
            self.good(t, path)
            del self.have[path]
            s.fs.locale = old
            try:
                simfs.read(path).decode("utf-8").encode(old)
            except UnicodeEncodeError:
                s.probe("unencodable")
                return
            raise Violation(t.kind, f"a text that {old} can hold was refused as not encodable")
        if failed:
            check(err is not None, t.kind, "the export reports success although the file could not be written")
            check(isinstance(err, OSError), t.kind, lambda: f"a failing disk was reported as {short(err)}")
            self.closed(t)
            err = None
            s.probe("failed")
            self.have.pop(path, None)
            if d.chance(0.3):
                return
            must(t.kind, t.write, path)
            s.probe("retried")
        else:
            if err is not None:
                raise Violation(t.kind, f"the export raised {short(err)}")
        self.good(t, path)
        self.others(path)

    def good(self, t, path):
        self.closed(t)
        try:
            got = simfs.read(path)
            text_ = decoded(got, self.s.fs.locale)
        except (OSError, UnicodeDecodeError) as e:
            raise Violation(t.kind, f"the exported file cannot be read: {short(e)}") from e
        r = t.judge(text_)
        check(r is None, t.kind, lambda: f"exported file: {r[:400]}")
        self.have[path] = got

    def others(self, path):
        for p, b in self.have.items():
            check(simfs.read(p) == b, "export", lambda: f"exporting to {os.path.basename(path)} changed {os.path.basename(p)}")
        check(not [n for n in simfs.tree(self.root) if f"{self.root}/{n}" not in self.have and n not in ("a.out", "b.out", "c.out")], "export", lambda: f"unexpected files {list(simfs.tree(self.root))}")

    def closed(self, t):
        mine = [p for p in self.s.fs.open_files.values() if str(getattr(p, "_path", p)).startswith(self.root + "/")]
        check(not mine, t.kind, lambda: f"left open {mine}")

    def refused(self, t, path):
        """What cannot be rendered is not written, and an older export stays as it is."""
        undo = t.spoil()
        if undo is None:
            return
        before = simfs.tree(self.root)
        r, err = attempt(t.write, path)
        undo()
        check(isinstance(err, Exception), t.kind, lambda: f"an object that cannot be rendered was exported: {err}")
        check(simfs.tree(self.root) == before, t.kind, "an export that cannot be rendered changed the files")
        self.closed(t)
        err = None
        self.s.probe("unrenderable")


def streams(s, harm):
    """Dumps between streams, one or both of which fail."""
    d = s.d
    for _ in range(d.int(1, 6)):
        t = Dump(s)
        if t.empty():
            continue
        out, src = Sink(s), t.source()
        if harm:
            k = d.below(3)
            if k == 0:
                out = Sink(s, fail_at=d.int(1, 12), exc=d.pick([OSError(28, "full"), ValueError("closed"), RuntimeError("gone")]))
                out.once = d.chance(0.5)
            elif t.array:
                s.swarm(["read-eio", "seek-eio", "shrink"], (1, 1), (0.1, 0.5), 0.8)
        default = harm is False and not t.array and t.how == 0 and d.chance(0.3)
        if default:
            a, o, h = t.opts
            with contextlib.redirect_stdout(out):
                r, err = attempt(uf.hexdump, t.data, t.start, include_ascii=a, include_offset=o, include_hex_sep=h)
        else:
            r, err = attempt(t.emit, out, src)
        s.fault_rates = {}
        bad = out.failed or src.failed or src.shrunk
        s.op("stream", len(t.data), bool(bad))
        if bad:
            s.probe("stream-failed")
            check(err is not None, "dump", lambda: f"success although {'the output' if out.failed else 'the input'} failed")
            if out.failed:
                check(err is out.exc, "dump", lambda: f"the failure of the output became {short(err)}")
            check(bytes(src.data) == (t.head + t.data)[: len(src.data)], "dump", "the input was changed")
            err = None
            continue
        check(err is None, "dump", lambda: f"raised {short(err)}")
        r = t.judge(out.getvalue())
        check(r is None, "dump", lambda: f"{r[:400]}")
        if t.array:
            check(bytes(src.data) == t.head + t.data, "dump", "the input was changed")


def run(s, faults, threads):
    d = s.d
    s.extra["threads"] = threads
    s.set_preempt(d.pick([20, 200, 1000]) if threads else 0)
    s.fs = simfs.SimFS(s, s.scratch)
    if not faults and not threads:
        s.fs.locale = d.weighted([(3, None), (1, "cp1252"), (1, "ascii")])
        if s.fs.locale:
            s.probe("host-encoding")
    fails = []

    def worker(tag):
        try:
            b = Bench(s, tag, faults)
            for _ in range(d.int(3, 9)):
                if d.chance(0.25):
                    s.wall_offset += d.pick([3600.0, -86400.0, 86400.0 * 40, 0.5])
                    s.hit("clock-jump")
                b.step()
        except Violation as v:
            fails.append(v)

    def shared(o, tag):
        """One object exported by several threads at once."""
        try:
            b = Bench(s, tag, False)
            for _ in range(2):
                must(o.kind, o.write, b.root + "/x.out")
                b.good(o, b.root + "/x.out")
        except Violation as v:
            fails.append(v)

    with root_logging(logging.NullHandler()), contextlib.redirect_stdout(io.StringIO()) as noise, quiet():
        if threads:
            o = d.pick([Dsc, Inf1, Inf2, Lines])(s)
            ts = [threading.Thread(target=worker, args=("A",)), threading.Thread(target=shared, args=(o, "S1")), threading.Thread(target=shared, args=(o, "S2"))]
            if d.chance(0.5):
                ts.append(threading.Thread(target=worker, args=("B",)))
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        else:
            worker("A")
            streams(s, bool(faults))
    if fails:
        raise fails[0]
    check(not noise.getvalue(), "noise", lambda: f"an export printed {noise.getvalue()[:80]!r}")
    check(not s.fs.escapes, "escape", lambda: f"left the scratch directory: {s.fs.escapes}")
    s.extra["nontrivial"] = True


@contextlib.contextmanager
def quiet():
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


MODES = [
    (4, "serial", lambda s: run(s, False, False)),
    (4, "faults", lambda s: run(s, True, False)),
    (2, "threads", lambda s: run(s, False, True)),
]
