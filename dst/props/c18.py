"""C18: a build file is parsed completely and as it is now, or the parse fails."""

import contextlib
import copy
import io
import logging
import os
import threading

from .. import bfgen, simfs
from ..core import Violation
from ..util import attempt, check, must, root_logging, short

import edk2toollib.uefi.edk2.guid_list as gl
import edk2toollib.uefi.edk2.parsers.base_parser as bp
import edk2toollib.uefi.edk2.parsers.buildreport_parser as br
import edk2toollib.uefi.edk2.parsers.dec_parser as decp
import edk2toollib.uefi.edk2.parsers.dsc_parser as dscp
import edk2toollib.uefi.edk2.parsers.fdf_parser as fdfp
import edk2toollib.uefi.edk2.parsers.inf_parser as infp
import edk2toollib.uefi.edk2.parsers.override_parser as ovp
import edk2toollib.uefi.edk2.parsers.targettxt_parser as tgtp
import edk2toollib.uefi.edk2.path_utilities as pu

ID = "C18"
HOOK_LINES = True
STEP_CAP = 3000000
WHEN = 1_600_000_000


def parse_hash(cls, c, keep):
    """Parse with one of the hash-comment parsers; `keep` receives the parser before it starts."""
    p = cls()
    keep.append(p)
    p.SetEdk2Path(c.paths)
    if c.kind in ("dsc", "fdf"):
        p.SetInputVars(c.g.inputs)
    elif c.kind == "inf":
        p.SetInputVars(c.g.inputs)
    if c.nofail:
        p.SetNoFailMode()
    p.ParseFile(c.arg)
    return p


def parse_override(c, keep):
    if c.stream:
        return ovp.OverrideParser(inf_contents=c.g.files[c.g.main].decode())
    return ovp.OverrideParser(file_path=c.abs)


def parse_dec(c, keep):
    if not c.stream:
        return parse_hash(decp.DecParser, c, keep)
    p = decp.DecParser()
    keep.append(p)
    with open(c.abs) as f:
        p.ParseStream(f)
    return p


def parse_report(c, keep):
    r = br.BuildReport(c.abs, c.g.root + "/ws", c.g.root + "/pp", c.g.protected)
    r.BasicParse()
    return r


def look(c, p):
    """What the parser answers, in the shape of the model."""
    k = c.kind
    if k in ("fdf", "inf", "dec", "target") and not c.stream:
        check(p.Path == c.abs or not os.path.isabs(p.Path) and c.abs.endswith(p.Path), k, f"Path is {p.Path}")
    if k == "dsc":
        out = {n: copy.deepcopy(getattr(p, n)) for n in c.want if n not in ("LocalVars", "Lines", "paths", "GetMods", "GetLibs")}
        out["LocalVars"] = {n: v for n, v in p.LocalVars.items() if n in c.want["LocalVars"] or "OFF" in n}
        out["Lines"] = [bfgen.squash(x) for x in p.Lines]
        out["paths"] = sorted(p.GetAllDscPaths())
        out["GetMods"] = list(p.GetMods())
        out["GetLibs"] = list(p.GetLibs())
        check(list(p.GetModsEnhanced()) == p.ThreeModsEnhanced + p.SixModsEnhanced, k, "GetModsEnhanced does not answer the modules")
        check(list(p.GetLibsEnhanced()) == p.LibsEnhanced, k, "GetLibsEnhanced does not answer the libraries")
        return out
    if k == "inf":
        out = {n: copy.deepcopy(getattr(p, n)) for n in c.want if hasattr(p, n)}
        for arches in ([], ["X64"], ["IA32", "x64"]):
            out["libraries" + "/".join(arches)] = p.get_libraries(arches)
            out["sources" + "/".join(arches)] = p.get_sources(arches)
        return out
    if k == "dec":
        out = {"Dict": dict(p.Dict), "IncludePaths": list(p.IncludePaths), "PackageName": p.PackageName}
        for n in ("Protocols", "PPIs", "Guids"):
            out[n] = [(e.name, str(e.guid), e.package_name) for e in getattr(p, n)]
            kind = {"Protocols": "PROTOCOL", "PPIs": "PPI", "Guids": "GUID"}[n]
            for e in getattr(p, n):
                check(e.type == getattr(decp.GuidedDeclarationEntry, kind), k, lambda: f"the entry {e.name} of {n} is of type {e.type}")
        out["LibraryClasses"] = [(e.name, e.path, e.package_name) for e in p.LibraryClasses]
        out["Pcds"] = [(e.token_space_name, e.name, e.default_value, e.type, e.id, e.package_name) for e in p.Pcds]
        return out
    if k == "override":
        return {
            "overrides": [
                (o["version"], o["original_path"], o["current_hash"], (o["datetime"].year, o["datetime"].month, o["datetime"].day, o["datetime"].hour, o["datetime"].minute, o["datetime"].second))
                for o in p.overrides
            ]
        }
    if k == "report":
        out = {n: getattr(p, n) for n in ("PlatformName", "DscPath", "BuildOutputDir")}
        for gu, m in sorted(c.want["Modules"].items()):
            if not os.path.isabs(m["InfPath"]):
                x = p.FindComponentByInfPath(m["InfPath"])
                check(x is not None and x.Guid == gu, k, lambda: f"the module of {m['InfPath']} was not found")
        check(p.FindComponentByInfPath("Not/There.inf") is None, k, "found a module that is not in the report")
        out["Modules"] = {g: {n: copy.copy(getattr(m, n)) for n in ("Name", "InfPath", "Guid", "Type", "Libraries", "PCDs", "FvName", "Depex")} for g, m in p.Modules.items()}
        return out
    return {n: copy.deepcopy(getattr(p, n)) for n in c.want}


KINDS = {
    "dsc": (bfgen.dsc, bfgen.dsc_model, lambda c, k: parse_hash(dscp.DscParser, c, k), "ws/PlatPkg/Plat.dsc"),
    "fdf": (bfgen.fdf, bfgen.fdf_model, lambda c, k: parse_hash(fdfp.FdfParser, c, k), "ws/PlatPkg/Plat.fdf"),
    "inf": (bfgen.inf, bfgen.inf_model, lambda c, k: parse_hash(infp.InfParser, c, k), "ws/PlatPkg/Mod.inf"),
    "dec": (bfgen.dec, bfgen.dec_model, parse_dec, "ws/PlatPkg/PlatPkg.dec"),
    "target": (bfgen.target, bfgen.target_model, lambda c, k: parse_hash(tgtp.TargetTxtParser, c, k), "ws/target.txt"),
    "override": (bfgen.override, bfgen.override_model, parse_override, "ws/PlatPkg/Mod.inf"),
}


def rename(v, a, b):
    """v with one identifier tag replaced by another everywhere."""
    if isinstance(v, str):
        return v.replace(a, b)
    if isinstance(v, bytes):
        return v.replace(a.encode(), b.encode())
    if isinstance(v, dict):
        return {rename(k, a, b): rename(x, a, b) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(rename(x, a, b) for x in v)
    return v


class Case:
    """One generated set of files on disk and what it means."""

    def __init__(self, s, kind, root):
        d = s.d
        self.s, self.kind, self.root = s, kind, root
        tag = d.pick(["qqa", "zzb", "wwk"])
        self.nofail = False
        self.stream = d.chance(0.3) and kind in ("dec", "override")
        self.circular = None
        if kind == "report":
            g = bfgen.report(d, root, tag)
            self.want, self.parser = g.want, parse_report
            self.doc = None
        else:
            make, model, self.parser, main = KINDS[kind]
            g, doc = make(d, root, tag)
            self.doc = doc
            if kind == "dsc" and d.chance(0.25):
                self.nofail = True
                for n in bfgen.incs(doc):
                    if not n.defs and d.chance(0.5):
                        n.skip = True
            live = g.write(doc, main)
            self.want = model(g, live)
            if kind == "dsc":
                self.want["paths"] = sorted(g.abs(f) for f in dict.fromkeys(g.read))
                self.want["GetMods"] = self.want["ThreeMods"] + self.want["SixMods"] + self.want["OtherMods"]
                self.want["GetLibs"] = self.want["Libs"]
            for n in bfgen.incs(doc):
                if n.skip:
                    g.files.pop(n.path, None)
        self.g, self.tag = g, tag
        self.write()

    def write(self):
        simfs.wipe(self.root)
        for top in ("ws/PlatPkg", "pp"):
            os.makedirs(f"{self.root}/{top}", exist_ok=True)
        for rel, data in sorted(self.g.files.items()):
            p = f"{self.root}/{rel}"
            os.makedirs(os.path.dirname(p), exist_ok=True)
            simfs.write(p, data)
            os.utime(p, (WHEN, WHEN))
        self.paths = pu.Edk2Path(self.root + "/ws", [self.root + "/pp"])
        self.abs = f"{self.root}/{self.g.main}"
        self.arg = self.abs if self.s.d.chance(0.4) else self.g.main[3:]
        self.inputs = copy.deepcopy(self.g.inputs)

    def retag(self):
        """The same files with other names in them: same sizes, same times."""
        new = self.s.d.pick([t for t in ("qqa", "zzb", "wwk") if t != self.tag])
        old, self.tag = self.tag, new
        g = self.g
        g.files = rename(g.files, old, new)
        self.want = rename(self.want, old, new)
        g.inputs = rename(g.inputs, old, new)
        if self.kind == "report":
            g.protected = rename(g.protected, old, new)
        self.write()


def differ(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in [*b, *[k for k in a if k not in b]]:
            if k not in a:
                return f"{path}.{k} is missing"
            if k not in b:
                return f"{path}.{k} = {str(a[k])[:80]!r} does not belong there"
            r = differ(a[k], b[k], f"{path}.{k}")
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        for i, (x, y) in enumerate(zip(a, b)):
            r = differ(x, y, f"{path}[{i}]")
            if r:
                return r
        if len(a) != len(b):
            more, who = (a, "too many") if len(a) > len(b) else (b, "missing")
            return f"{path}: {len(a)} instead of {len(b)}, {who}: {str(more[min(len(a), len(b))])[:80]}"
        return None
    return None if a == b else f"{path} is {str(a)[:100]!r}, the file says {str(b)[:100]!r}"


def junk(c, p):
    """The caller does with its results what it likes."""
    for v in [getattr(p, n, None) for n in c.want]:
        if isinstance(v, list):
            v.append("JUNK")
        elif isinstance(v, dict) and not any(isinstance(x, br.ModuleSummary) for x in v.values()):
            v["JUNK"] = ["JUNK"]


class Bench:
    def __init__(self, s, tag, faults, kinds):
        self.s, self.faults = s, faults
        self.root = f"{s.scratch}/{tag}"
        os.makedirs(self.root, exist_ok=True)
        self.kinds = kinds
        self.c = None

    def healthy(self, what):
        c, s = self.c, self.s
        keep = []
        before = simfs.tree(c.root)
        p = must(c.kind, c.parser, c, keep)
        got = look(c, p)
        r = differ(got, c.want)
        check(r is None, c.kind, lambda: f"{what}: {r[:300]}")
        check(getattr(p, "Parsed", True) is True, c.kind, f"{what}: Parsed is {getattr(p, 'Parsed', None)}")
        self.clean(before, what)
        if s.d.chance(0.3):
            junk(c, p)
        return p

    def clean(self, before, what):
        c, s = self.c, self.s
        mine = [p for p in s.fs.open_files.values() if str(getattr(p, "_path", p)).startswith(c.root + "/")]
        check(not mine, c.kind, lambda: f"{what}: left open {mine}")
        check(simfs.tree(c.root) == before, c.kind, f"{what}: changed files")
        check(c.g.inputs == c.inputs, c.kind, f"{what}: changed the input variables")

    def step(self):
        s, d = self.s, self.s.d
        k = d.below(10) if self.c is not None else 9
        if k <= 1:
            self.c.retag()
            s.probe("retagged")
        elif k >= 5 or self.c is None:
            self.c = Case(s, d.pick(self.kinds), self.root)
        c = self.c
        harm = d.weighted([(4, "none"), (1, "missing"), (1, "bytes"), (1, "folder"), (1, "circular"), (4 if self.faults else 0, "fault")])
        if harm == "circular" and c.kind != "fdf" or c.stream and c.kind == "override":
            harm = "none"
        if c.nofail and harm != "none":
            harm = "none"
        s.op(c.kind, harm, "retag" if k <= 1 else "new" if k >= 5 else "again", len(c.g.read))
        if harm == "none":
            self.healthy("parse")
            return
        victim = d.pick(list(dict.fromkeys(c.g.read)))
        vp = f"{c.root}/{victim}"
        data = c.g.files[victim]
        if harm == "missing":
            os.remove(vp)
        elif harm == "folder":
            os.remove(vp)
            os.mkdir(vp)
        elif harm == "bytes":
            at = d.below(len(data) + 1)
            simfs.write(vp, data[:at] + d.pick([b"\xff", b"\xc3(", b"\xed\xa0\x80"]) + data[at:])
        elif harm == "circular":
            up = d.pick(list(dict.fromkeys([victim, c.g.main])))
            if not self.above(up, victim):
                up = victim
            simfs.write(vp, (data if data.endswith(b"\n") else data + b"\n") + f"!include {c.root}/{up}\n".encode())
        before = simfs.tree(c.root)
        keep = []
        failed0 = s.fs.failed_ops
        if harm == "fault":
            s.swarm(["open-eacces", "open-eio", "read-eio", "short-read", "open-emfile"], (1, 1), (0.15, 0.5), 0.7)
        got, err = attempt(c.parser, c, keep)
        s.fault_rates = {}
        failed = s.fs.failed_ops != failed0
        must_fail = harm != "fault" or failed
        s.probe(f"{harm}-{'error' if err else 'ok'}")
        if must_fail:
            check(err is not None, c.kind, lambda: f"the parse succeeded although {victim if harm != 'fault' else 'a file'} could not be read ({harm})")
            check(isinstance(err, Exception), c.kind, lambda: f"the parse raised {short(err)}")
            for p in keep:
                check(p.Parsed is False, c.kind, f"a failed parse left Parsed = {p.Parsed}")
            self.clean(before, f"failed parse ({harm})")
        else:
            check(err is None, c.kind, lambda: f"parsing readable files raised {short(err)}")
            r = differ(look(c, got), c.want)
            check(r is None, c.kind, lambda: f"parse with short reads: {r[:300]}")
        err = got = None
        keep.clear()
        c.write()
        if d.chance(0.7):
            self.healthy("parse after a failed one")
            s.probe("recovered")

    def above(self, up, victim):
        return up == victim or up == self.c.g.main


def guids(s, root, faults):
    """Collecting the GUIDs of a directory tree."""
    d = s.d
    top = root + "/tree"
    simfs.wipe(top)
    os.makedirs(top, exist_ok=True)
    want = []
    dirs = ["APkg", "APkg/Sub", "BPkg", "Skip", "BPkg/Deep/Er"]
    ignore = [x for x in ["Skip/", "*.skip.inf", "/BPkg/Deep", "# nothing", ""] if d.chance(0.5)]
    seen = []
    for i in range(d.int(1, 7)):
        sub = d.pick(dirs)
        kind = d.weighted([(3, "dec"), (3, "inf"), (1, "other")])
        os.makedirs(f"{top}/{sub}", exist_ok=True)
        skip = d.chance(0.15)
        if kind == "other":
            simfs.write(f"{top}/{sub}/f{i}.txt", b"\xff\xfe")
            continue
        ignored = ("Skip/" in ignore and sub == "Skip") or ("/BPkg/Deep" in ignore and sub.startswith("BPkg/Deep"))
        if kind == "dec":
            path = f"{top}/{sub}/P{i}.{d.pick(['dec', 'DEC'])}"
            g, doc = bfgen.dec(d, root, "qqa", d.chance(0.85))
            w = bfgen.dec_model(g, g.write(doc, "m"))
            ents = [(n, u.upper()) for k in ("Protocols", "PPIs", "Guids") for n, u, _ in w[k]]
            if "PACKAGE_GUID" in w["Dict"]:
                ents.append((w["Dict"]["PACKAGE_NAME"], w["Dict"]["PACKAGE_GUID"]))
        else:
            path = f"{top}/{sub}/M{i}{'.skip' if skip else ''}.inf"
            ignored = ignored or (skip and "*.skip.inf" in ignore)
            base, u = f"Mod{i}", str(bfgen.uuid.UUID(bytes=d.bytes(16)))
            g, doc = bfgen.inf(d, root, "qqa", {"BASE_NAME": base, "FILE_GUID": u} if d.chance(0.85) else {"BASE_NAME": base})
            w = bfgen.inf_model(g, g.write(doc, "m"))
            ents = [(base, u.upper())] if "FILE_GUID" in w["Dict"] else []
        simfs.write(path, g.files["m"])
        if ignored:
            if d.chance(0.3):
                simfs.write(path, b"\xff\xff[Defines]\n")
        else:
            seen.append(path)
            want.append((path, ents))
    bad = None
    if seen and d.chance(0.25):
        bad = d.pick(seen)
        simfs.write(bad, simfs.read(bad) + b"\n# \xff\n")
    failed0 = s.fs.failed_ops
    if faults and d.chance(0.6):
        s.swarm(["open-eacces", "read-eio", "short-read", "scandir-eacces", "scandir-eio"], (1, 1), (0.1, 0.4), 0.7)
    s.op("guids", len(seen), bool(bad))
    got, err = attempt(gl.GuidList.guidlist_from_filesystem, top, list(ignore)) if ignore or d.chance(0.5) else attempt(gl.GuidList.guidlist_from_filesystem, top)
    s.fault_rates = {}
    failed = s.fs.failed_ops != failed0
    if bad or failed:
        check(err is not None, "guids", lambda: f"the list is complete although {bad or 'something'} could not be read")
        mine = [p for p in s.fs.open_files.values() if str(getattr(p, "_path", p)).startswith(root + "/")]
        check(not mine, "guids", lambda: f"left open {mine}")
        s.probe("guids-error")
        return
    check(err is None, "guids", lambda: f"listing GUIDs raised {short(err)}")
    by = {}
    for e in got:
        by.setdefault(e.absfilepath, []).append((e.name, e.guid))
    for path, ents in want:
        have = by.pop(path, [])
        check(have == ents, "guids", lambda: f"{path[len(top):]}: {differ(have, ents)}")
    check(not by, "guids", lambda: f"GUIDs of files that are ignored or not there: {list(by)}")
    s.probe("guids-ok")


def run(s, faults, threads):
    d = s.d
    s.extra["threads"] = threads
    s.set_preempt(d.pick([20, 200, 2000]) if threads else 0)
    s.fs = simfs.SimFS(s, s.scratch, permute=True)
    fails = []

    def worker(tag, shared=None):
        try:
            kinds = d.pick([["dsc"], ["fdf"], ["inf"], ["dec"], ["dsc", "fdf"], ["inf", "dec", "target"], ["target", "override", "report"], ["report"], ["dsc", "inf", "dec", "fdf", "target", "override", "report"]])
            b = Bench(s, tag, faults, kinds)
            for _ in range(d.int(2, 6)):
                if d.chance(0.12):
                    guids(s, b.root, faults)
                    b.c = None
                else:
                    b.step()
        except Violation as v:
            fails.append(v)

    def reader(c):
        try:
            b = Bench.__new__(Bench)
            b.s, b.faults, b.c = s, False, c
            for _ in range(2):
                p = must(c.kind, c.parser, c, [])
                r = differ(look(c, p), c.want)
                check(r is None, c.kind, lambda: f"several parsers at once: {r[:300]}")
        except Violation as v:
            fails.append(v)

    with root_logging(logging.NullHandler()), contextlib.redirect_stdout(io.StringIO()):
        if threads:
            os.makedirs(s.scratch + "/S", exist_ok=True)
            c = Case(s, d.pick(["dsc", "fdf", "inf", "dec", "report"]), s.scratch + "/S")
            ts = [threading.Thread(target=worker, args=("A",)), threading.Thread(target=reader, args=(c,)), threading.Thread(target=reader, args=(c,))]
            if d.chance(0.5):
                ts.append(threading.Thread(target=worker, args=("B",)))
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        else:
            worker("A")
    if fails:
        raise fails[0]
    check(not s.fs.escapes, "escape", lambda: f"left the scratch directory: {s.fs.escapes}")
    s.extra["nontrivial"] = True


MODES = [
    (5, "serial", lambda s: run(s, False, False)),
    (4, "faults", lambda s: run(s, True, False)),
    (2, "threads", lambda s: run(s, False, True)),
]
