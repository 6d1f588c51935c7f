"""Generated EDK II workspaces and an independent reference model of the database they should produce.

The model is computed from the generated description, never by parsing the files, and follows the EDK II
build specifications for library resolution and the documentation of the table generators.
"""

import copy
import os

from . import simfs

ARCHES = ["X64", "IA32"]
PHASES = ["DXE_DRIVER", "PEIM", "UEFI_DRIVER", "DXE_RUNTIME_DRIVER"]
LICENSES = ["BSD-2-Clause-Patent", "MIT", "Apache-2.0", None]


def guid(n):
    """A stable GUID string."""
    return "%08x-0000-4000-8000-%012x" % (n, n)


class Lib:
    """A library INF."""


class Comp:
    """A component INF."""


class Ws:
    """Description of one workspace."""

    def __init__(self, d, root, git=None, small=False):
        self.d = d
        self.root = root
        self.git = git  # None or a GitTemplate
        self.seq = 0
        self.files = {}  # relative path -> (license or None, line count, style) for sources
        self.pps = d.pick([[], ["PP1"], ["PP1", "PP1/Sub"], ["PP1/Sub", "PP1"]])
        self.pkgs = {}  # name -> directory (workspace relative)
        self.twins = []  # further package directories, with the name of another one
        dirs = [""] + self.pps
        if git and git.subs:
            # also next to a submodule, in a directory whose name begins like the submodule's
            dirs += [path for _, path in git.subs] + [path + "_NEXT" for _, path in git.subs]
        for i in range(d.int(1, 2 if small else 3)):
            base = d.pick(dirs)
            name = f"Pkg{i}Pkg"
            self.pkgs[name] = (base + "/" if base else "") + name
        if d.chance(0.3):
            name = d.pick(sorted(self.pkgs))
            base = d.pick(dirs + ["Twin"])
            dr = (base + "/" if base else "") + name
            if self.closest(dr) not in [self.closest(x) for x in self.pkgs.values()]:
                self.twins.append(dr)
        self.loose = d.chance(0.3)  # one INF lies outside of every package
        self.loose_dir = "Loose"
        if git and git.subs and d.chance(0.6):
            self.loose_dir = d.pick([path for _, path in git.subs]) + d.pick(["/Loose", "Loose"])
        self.plat = d.pick(sorted(self.pkgs))
        self.classes = [f"Cls{c}Lib" for c in "ABCD"[: d.int(1, 3 if small else 4)]]
        self.libs = []
        for c in self.classes:
            for _ in range(d.int(1, 2)):
                self.add_lib(c)
        for _ in range(d.int(0, 2)):
            self.add_lib("NullX", null=True)
        self.comps = []
        for _ in range(d.int(1, 3)):
            self.add_comp()
        self.windows_inf = d.chance(0.3)
        self.build_junk = d.chance(0.4)
        if d.chance(0.2):
            self.nest()
        self.shadows = []  # INFs of which only the first is what their path leads to
        self.shadow_files = {}
        if self.pps and d.chance(0.3):
            self.shadow()
        for _ in range(d.int(0, 3)):
            self.add_source()
        self.gen_dsc()
        self.gen_fdf()
        self.style = d.below(128) if d.chance(0.5) else 0  # how build files are written; it changes nothing of what they say

    # -- building blocks
    def styled(self, lines, loose=True):
        """The text of a build file in the style of the workspace."""
        st = self.style
        out = []
        for i, ln in enumerate(lines):
            if st & 1 and loose and ln.startswith("[") and (i + st) % 3 == 0:
                ln = "[ " + ln[1:-1].replace(", ", " , ") + " ]"
            if st & 2:
                body = ln.lstrip()
                ln = "\t" * ((len(ln) - len(body)) // 2) + body
                if ln.endswith(" {"):
                    ln = ln[:-2] + "\t{"
                for word in ("INF ", "DEFINE "):
                    if body.startswith(word):
                        ln = ln.replace(word, word[:-1] + "\t", 1)
            if st & 4 and ln.count("|") == 1 and "=" not in ln:
                ln = ln.replace("|", "\t|\t" if st & 2 else " | ")
            if st & 8 and (i + st) % 3 == 1:
                ln += "  # [Components] no/such.inf | {"
            if st & 16 and (i + st) % 4 == 1:
                out.append("# NULL|no/such.inf")
            out.append(ln)
        return ("\r\n" if st & 32 else "\n").join(out) + "\n"

    def _dir(self):
        return self.d.pick([self.pkgs[n] for n in sorted(self.pkgs)] + self.twins)

    def all_pkgs(self):
        """Name and directory of every package."""
        return list(self.pkgs.items()) + [(os.path.basename(x), x) for x in self.twins]

    def shadow(self):
        """Files in two roots that have the same path; it leads to the one in the root that comes first."""
        d = self.d
        roots = [""] + self.pps
        i = d.below(len(roots) - 1)
        pair = [roots[i], roots[d.int(i + 1, len(roots) - 1)]]
        if d.chance(0.5):
            self.twins += [(r + "/" if r else "") + "Shadow" for r in pair]
        for r in pair:
            at = (r + "/" if r else "") + "Shadow"
            L = self.add_lib("ClsSLib")
            self.libs.remove(L)
            if self.shadows:
                L.name = self.shadows[0].name
            L.dir, L.path = f"{at}/Library", f"{at}/Library/{L.name}.inf"
            L.sources = {"common": [f"S{self.seq}.c"]}
            self.shadows.append(L)
            self.shadow_files[f"{at}/Include/Same.h"] = (d.pick(LICENSES), d.int(0, 9), 0)

    def _sources(self, moddir):
        d = self.d
        out = {}
        for scope in ["common"] + d.subset(ARCHES, 0.3):
            names = []
            for _ in range(d.int(0, 2)):
                self.seq += 1
                ext = d.pick([".c", ".h", ".asm", ".nasm", ".txt"])
                if d.chance(0.2):
                    rel = f"../Shared/S{self.seq}{ext}"
                elif d.chance(0.2):
                    rel = f"{scope}/S{self.seq}{ext}"
                else:
                    rel = f"S{self.seq}{d.pick(['', '', 'Resources'])}{ext}"
                names.append(rel)
                p = os.path.normpath(f"{moddir}/{rel}")
                if d.chance(0.85):  # some listed files do not exist
                    self.files[p] = (d.pick(LICENSES), d.int(0, 9), 0)
            out[scope] = names
        # a source shared with another module
        if d.chance(0.15) and self.files:
            p = d.pick(sorted(self.files))
            rel = os.path.relpath(p, moddir)
            if rel not in out["common"] and all(rel not in v for v in out.values()):
                out["common"].append(rel)
        return out

    def _deps(self, classes):
        d = self.d
        out = {"common": d.subset(classes, 0.5)}
        left = [c for c in classes if c not in out["common"]]
        for a in ARCHES:
            if d.chance(0.25):
                out[a] = d.subset(left, 0.5)
        return out

    def add_lib(self, cls, null=False):
        d = self.d
        L = Lib()
        self.seq += 1
        L.cls = cls
        L.name = f"L{self.seq}{cls}"
        L.dir = f"{self._dir()}/Library/{L.name}"
        L.path = f"{L.dir}/{L.name}.inf"
        L.guid = guid(self.seq)
        L.phases = None if d.chance(0.5) else d.sample(PHASES, d.int(1, 3))
        L.mtype = d.pick(["BASE", "DXE_DRIVER"])
        L.sources = self._sources(L.dir)
        # dependencies only on later classes keep the graph acyclic most of the time
        k = self.classes.index(cls) + 1 if cls in self.classes else 0
        pool = self.classes if d.chance(0.15) else self.classes[k:]
        L.deps = self._deps([c for c in pool if c != cls])
        L.null = null
        L.missing_guid = d.chance(0.05)
        self.libs.append(L)
        return L

    def add_comp(self):
        d = self.d
        C = Comp()
        self.seq += 1
        C.name = f"D{self.seq}Dxe"
        if self.loose and not any(c.dir.startswith(self.loose_dir) for c in self.comps):
            C.dir = f"{self.loose_dir}/{C.name}"
        else:
            C.dir = f"{self._dir()}/Drivers/{C.name}"
        C.path = f"{C.dir}/{C.name}.inf"
        C.guid = guid(self.seq)
        C.mtype = d.pick(PHASES)
        C.deps = self._deps(self.classes)
        if d.chance(0.2):
            C.deps["common"] = C.deps["common"] + ["UnknownLib"]
        C.sources = self._sources(C.dir)
        self.comps.append(C)
        return C

    def nest(self):
        """A module directory that is a package itself."""
        m = self.d.pick(self.libs + self.comps)
        self.pkgs[m.name] = m.dir

    def sibling(self, root):
        """Another workspace with the same layout but different contents."""
        d = self.d
        x = copy.copy(self)
        memo = {id(d): d, id(self.git): self.git}
        x.__dict__.update({k: copy.deepcopy(v, memo) for k, v in self.__dict__.items() if k not in ("d", "git")})
        x.root = root
        x.seq += 1000
        if d.chance(0.3):
            x.pps = d.pick([[], ["PP1"], ["PP1", "PP1/Sub"]]) if not x.shadows and not x.twins else x.pps
        if d.chance(0.5):
            x.nest()
        for m in x.libs + x.comps:
            if d.chance(0.5):
                x.seq += 1
                m.guid = guid(x.seq)
            if d.chance(0.4):
                m.mtype = d.pick(PHASES) if isinstance(m, Comp) else d.pick(["BASE", "DXE_DRIVER"])
            if isinstance(m, Lib) and d.chance(0.4):
                m.phases = None if d.chance(0.5) else d.sample(PHASES, d.int(1, 3))
            if d.chance(0.4):
                k = x.classes.index(m.cls) + 1 if getattr(m, "cls", None) in x.classes else 0
                m.deps = x._deps([c for c in x.classes[k:] if c != getattr(m, "cls", None)])
            if d.chance(0.4):
                m.sources = x._sources(m.dir)
        for p in sorted(x.files):
            if d.chance(0.4):
                x.files[p] = (d.pick(LICENSES), d.int(0, 9), 1)
        x.gen_dsc()
        x.gen_fdf()
        return x

    def add_source(self):
        d = self.d
        self.seq += 1
        p = f"{self._dir()}/Include/H{self.seq}{d.pick(['.h', '.c', '.cpp', '.s', '.masm', '.rs', '.py'])}"
        self.files[p] = (d.pick(LICENSES), d.int(0, 9), 0)
        return p

    def gen_dsc(self):
        """Library sections, component sections."""
        d = self.d
        self.sections = []  # (scopes, [(cls, lib)])
        real = [x for x in self.libs if not x.null]
        nulls = [x for x in self.libs if x.null]
        # one unscoped entry for most classes so that resolution usually succeeds
        first = []
        for c in self.classes:
            if d.chance(0.85):
                first.append((c, d.pick([x for x in real if x.cls == c])))
        self.sections.append((["common"], first))
        for _ in range(d.int(0, 3)):
            scopes = []
            for _ in range(d.int(1, 2)):
                a = d.pick(["common"] + ARCHES)
                sc = a if d.chance(0.5) else f"{a}.{d.pick(PHASES)}"
                if sc not in scopes:
                    scopes.append(sc)
            ents = []
            for _ in range(d.int(1, 3)):
                if nulls and d.chance(0.25):
                    ents.append(("NULL", d.pick(nulls)))
                else:
                    x = d.pick(real)
                    ents.append((x.cls, x))
            self.sections.append((scopes, ents))
        # NULL instances must be unique per component: one section only per NULL library
        seen = set()
        for i, (sc, ents) in enumerate(self.sections):
            keep = []
            for c, x in ents:
                if c == "NULL":
                    if x.path in seen or len(sc) > 1:
                        continue
                    seen.add(x.path)
                keep.append((c, x))
            self.sections[i] = (sc, keep)
        free = [x for x in nulls if x.path not in seen]
        self.entries = []  # (scopes, comp or lib, overrides, conditional, form)
        for c in self.comps:
            if d.chance(0.1):
                continue
            ov = []
            if d.chance(0.4):
                for cls in d.subset(self.classes, 0.4):
                    ov.append((cls, d.pick([x for x in real if x.cls == cls])))
                for x in d.subset(free, 0.5):
                    ov.append(("NULL", x))
            scopes = d.pick([["common"], ["X64"], ["IA32"], ["X64", "IA32"], ["common"], ["X64"], ["IA32"], ["X64.DXE_DRIVER", "IA32.BASE"]])
            self.entries.append((scopes, c, ov, d.chance(0.2), d.weighted([(3, 0), (1, 8)]) + d.below(8)))
        if d.chance(0.2) and real:
            self.entries.insert(d.below(len(self.entries) + 1), (["common"], d.pick(real), [], False, d.below(8)))

    def gen_fdf(self):
        """Firmware volumes."""
        d = self.d
        self.fvs = []
        for i in range(d.int(1, 3)):
            infs = d.subset(self.comps, 0.6) or [d.pick(self.comps)]
            if d.chance(0.15):
                infs = infs + [d.pick(self.libs)]  # a library is no component, unless the DSC says so
            self.fvs.append((f"FV{i}", [(c, d.weighted([(3, 0), (1, 8)]) + d.below(8), d.below(4), d.chance(0.15)) for c in infs]))

    # -- paths
    def closest(self, path):
        """Package path relative form of a workspace relative path."""
        for pp in sorted(self.pps, reverse=True):
            if path.startswith(pp + "/"):
                return path[len(pp) + 1 :]
        return path

    def form(self, path, k):
        """One of the accepted ways to name a file."""
        forms = [self.closest(path), path]
        for pp in self.pps:
            if path.startswith(pp + "/"):
                forms.append(path[len(pp) + 1 :])
        return forms[k % len(forms)]

    def macro(self, path, k):
        """The same with a macro in front, sometimes."""
        p = self.form(path, k)
        if k < 8:
            return p, None
        a, _, b = p.partition("/")
        m = "DIR_" + "".join(x if x.isalnum() and x.isascii() else "_" for x in a).upper()
        return f"$({m})/{b}", (m, a)

    def package_of(self, path):
        """Name of the package directory containing a path."""
        return self.package_dir(path)[0]

    def package_dir(self, path):
        """Name and directory of the innermost package directory containing a path."""
        best = (None, "")
        for name, dr in self.all_pkgs():
            if path.startswith(dr + "/") and len(dr) > len(best[1]):
                best = (name, dr)
        return best

    @property
    def dsc_path(self):
        return f"{self.pkgs[self.plat]}/Plat.dsc"

    @property
    def fdf_path(self):
        return f"{self.pkgs[self.plat]}/Plat.fdf"

    # -- text
    def inf_text(self, m):
        L = ["[Defines]", "  INF_VERSION = 0x00010017", f"  BASE_NAME = {m.name}"]
        if not getattr(m, "missing_guid", False):
            L.append(f"  FILE_GUID = {m.guid}")
        L.append(f"  MODULE_TYPE = {m.mtype}")
        if isinstance(m, Lib) and m.cls:
            ph = "" if m.phases is None else "|" + " ".join(m.phases)
            L.append(f"  LIBRARY_CLASS = {m.cls}{ph}")
        for scope, names in m.sources.items():
            L.append("[Sources]" if scope == "common" else f"[Sources.{scope}]")
            L += [f"  {n}" + (" | MSFT" if self.style & 64 and i % 2 else "") for i, n in enumerate(names)]
        L.append("[Packages]")
        for scope, deps in m.deps.items():
            L.append("[LibraryClasses]" if scope == "common" else f"[LibraryClasses.{scope}]")
            L += [f"  {n}" + (" | gX.PcdOn" if self.style & 64 and i % 2 else "") for i, n in enumerate(deps)]
        return self.styled(L)

    def dsc_text(self):
        L = [
            "[Defines]",
            "  PLATFORM_NAME = Plat",
            "  SUPPORTED_ARCHITECTURES = " + (" | " if self.style & 4 else "|").join(["IA32", "X64"]),
            "  BUILD_TARGETS = DEBUG|RELEASE",
        ]
        for scopes, ents in self.sections:
            L.append("[" + ", ".join("LibraryClasses" if s == "common" else f"LibraryClasses.{s}" for s in scopes) + "]")
            for c, x in ents:
                p = self.closest(x.path) if c == "NULL" else self.form(x.path, x.path.__len__())
                L.append(f"  {c}|{p}")
        for scopes, c, ov, cond, form in self.entries:
            L.append("[" + ", ".join("Components" if s == "common" else f"Components.{s}" for s in scopes) + "]")
            if cond:
                L.append("!if $(FEATURE_X) == TRUE")
            p, m = self.macro(c.path, form)
            if m:
                L.insert(1, f"  DEFINE {m[0]} = {m[1]}")
            if ov:
                L.append(f"  {p} {{")
                L.append("    <LibraryClasses>")
                for cls, x in ov:
                    L.append(f"      {cls}|{self.closest(x.path)}")
                L.append("  }")
            else:
                L.append(f"  {p}")
            if cond:
                L.append("!endif")
        return self.styled(L)

    def fdf_text(self):
        L = ["[Defines]"]
        for name, infs in self.fvs:
            L += [f"[FV.{name}]", "  MEMORY_MAPPED = TRUE"]
            for c, form, opt, cond in infs:
                p, m = self.macro(c.path, form)
                if m:
                    L.insert(1, f"  DEFINE {m[0]} = {m[1]}")
                if cond:
                    L.append("!if $(FEATURE_X) == TRUE")
                L.append("  INF " + ["", "RuleOverride = ACPITABLE ", "USE = X64 ", 'ui = "x" '][opt] + p)
                if cond:
                    L.append("!endif")
        return self.styled(L, False)

    @staticmethod
    def src_text(info):
        lic, n, style = info
        lines = []
        for i in range(n):
            lines.append(f"int x{style}_{i};")
        if lic is not None:
            at = min(style % 3, len(lines))
            # some were written with the editor of another country
            lines.insert(at, f"// {'caf\xe9 ' if n % 4 == 3 else ''}SPDX-License-Identifier: {lic}")
        return "".join(x + "\n" for x in lines).encode("latin-1")

    def write_all(self):
        """Write the whole workspace."""
        r = self.root
        simfs.real["mkdir"](r) if not os.path.isdir(r) else None
        for pp in self.pps:
            os.makedirs(f"{r}/{pp}", exist_ok=True)
        for name, dr in self.all_pkgs():
            simfs.write(f"{r}/{dr}/{name}.dec", "[Defines]\n")
        for p, info in self.shadow_files.items():
            simfs.write(f"{r}/{p}", self.src_text(info))
        for m in self.libs + self.comps + self.shadows:
            simfs.write(f"{r}/{m.path}", self.inf_text(m))
        for p, info in self.files.items():
            simfs.write(f"{r}/{p}", self.src_text(info))
        if self.windows_inf:
            simfs.write(f"{r}/{self._first()}/win.inf", '[Version]\nSignature="$WINDOWS NT$"\n')
        os.makedirs(f"{r}/{self._first()}/odd.c", exist_ok=True)
        if self.build_junk:
            simfs.write(f"{r}/Build/Out/Gen.inf", "[Defines]\n BASE_NAME = G\n FILE_GUID = 9\n MODULE_TYPE = BASE\n")
            simfs.write(f"{r}/Build/AutoGen.c", "int a;\n")
        self.write_meta()

    def _first(self):
        return self.pkgs[sorted(self.pkgs)[0]]

    def write_meta(self):
        """(Re)write DSC and FDF."""
        simfs.write(f"{self.root}/{self.dsc_path}", self.dsc_text())
        simfs.write(f"{self.root}/{self.fdf_path}", self.fdf_text())

    def env(self, arches, target="DEBUG", feature=None, fdf=True):
        """An environment dictionary."""
        e = {"ACTIVE_PLATFORM": self.form(self.dsc_path, 0), "TARGET_ARCH": " ".join(arches), "TARGET": target}
        e["FEATURE_X"] = "TRUE" if feature else "FALSE"
        if fdf:
            e["FLASH_DEFINITION"] = self.form(self.fdf_path, 0)
        return e


SRC_EXT = (".c", ".h", ".cpp", ".asm", ".s", ".nasm", ".masm", ".rs")


class Model:
    """Reference contents of the database."""

    def __init__(self):
        self.environment = []  # (id, version)
        self.src = None, False  # extensions and statistics of the source table
        self.value = []
        self.inf = {}
        self.source = {}
        self.library = set()
        self.repository = set()
        self.package = {}
        self.ii = []  # dicts
        self.fv = []

    def copy(self):
        return copy.deepcopy(self)

    # -- generators
    def apply(self, gen, w, env_id, env):
        """The effect of one table generator."""
        getattr(self, "gen_" + gen)(w, env_id, env)

    def gen_EnvironmentTable(self, w, env_id, env):
        self.environment.append((env_id, w.git.sha if w.git else "UNKNOWN"))
        for k, v in env.items():
            self.value.append((env_id, k, v))

    def gen_PackageTable(self, w, env_id, env):
        if not w.git:
            return
        for name, dr in w.all_pkgs():
            repo = w.git.repo_of(dr)
            self.package[(name, dr)] = repo
            self.repository.add(repo)

    def _src(self, p):
        self.source.setdefault(p, (None, None, None, None, None))

    def gen_InfTable(self, w, env_id, env):
        for m in w.libs + w.comps + w.shadows[:1]:
            if getattr(m, "missing_guid", False):
                continue
            path = w.closest(m.path)
            srcs = [w.closest(os.path.normpath(f"{m.dir}/{n}")) for v in m.sources.values() for n in v]
            for p in srcs:
                self._src(p)
            libs = {c for v in m.deps.values() for c in v}
            self.library.update(libs)
            self.inf[path] = (
                m.guid,
                m.cls if isinstance(m, Lib) else None,
                w.package_of(m.path),
                m.mtype,
                tuple(sorted(set(srcs), key=repr)),
                tuple(sorted(libs, key=repr)),
            )

    def gen_SourceTable(self, w, env_id, env):
        for p, (lic, n, style) in list(w.files.items()) + list(w.shadow_files.items())[:1]:
            if not p.endswith(SRC_EXT if self.src[0] is None else tuple(x[1:] for x in self.src[0])):
                continue
            tot = n + (lic is not None)
            code, comment = tot, 0
            if self.src[1]:
                # what a line is depends on the language; MASM is not known, text is prose
                if p.endswith((".masm", ".txt")):
                    code, comment = 0, 0 if p.endswith(".masm") else tot
                elif not p.endswith((".asm", ".nasm", ".py")):
                    code, comment = n, tot - n
            self.source[w.closest(p)] = (lic or "Unknown", tot, code, comment, 0)

    # library resolution ------------------------------------------------------------------
    @staticmethod
    def resolve(w, cls, arch, mtype, ov):
        for c, x in ov:
            pass
        hit = [x for c, x in ov if c == cls]
        if hit:
            return hit[-1]
        for key in (f"{arch}.{mtype}", f"common.{mtype}", arch, "common"):
            inst = []
            for scopes, ents in w.sections:
                for sc in scopes:
                    if sc != key:
                        continue
                    for c, x in ents:
                        if c == cls:
                            if x in inst:
                                inst.remove(x)
                            inst.insert(0, x)
            for x in inst:
                if x.phases is None or mtype in x.phases:
                    return x
        return None

    @staticmethod
    def nulls(w, arch, mtype, ov):
        out = [x for c, x in ov if c == "NULL"]
        for key in (f"{arch}.{mtype}", f"common.{mtype}", arch, "common"):
            inst = []
            for scopes, ents in w.sections:
                for sc in scopes:
                    if sc == key:
                        for c, x in ents:
                            if c == "NULL":
                                if x in inst:
                                    inst.remove(x)
                                inst.insert(0, x)
            out += inst
        return out

    def gen_InstancedInfTable(self, w, env_id, env):
        want = env["TARGET_ARCH"].split(" ")
        rows = []
        for scopes, comp, ov, cond, _ in w.entries:
            if cond and env["FEATURE_X"] != "TRUE":
                continue
            if isinstance(comp, Lib):
                continue
            arches = []
            for s in scopes:
                arches += ["IA32", "X64"] if s == "common" else [s.split(".")[0]]
            for arch in arches:
                if arch in want:
                    rows += self._instances(w, comp, arch, ov)
        made = []
        for m, cls, comp, arch, links in rows:
            if getattr(m, "missing_guid", False):
                continue
            path = w.closest(m.path)
            srcs = []
            for sc in ("common", arch):
                srcs += [w.closest(os.path.normpath(f"{m.dir}/{n}")) for n in m.sources.get(sc, [])]
            for p in srcs:
                self._src(p)
            pkg = w.package_dir(m.path)
            if pkg not in self.package:
                pkg = None
            if pkg is not None:
                repo = self.package[pkg]
            else:
                repo = None
                for r in sorted(self.repository, key=repr):
                    if r[1] is not None and (m.path + "/").startswith(r[1] + "/"):
                        repo = r
                if repo is None:
                    repo = next((r for r in self.repository if r[1] is None), None)
            made.append(
                {
                    "key": (env_id, path, arch, cls, w.closest(comp.path)),
                    "name": m.name,
                    "pkg": pkg,
                    "repo": repo,
                    "src": tuple(sorted(srcs, key=repr)),
                    "links": [(env_id, w.closest(x.path), arch, c, w.closest(comp.path)) for c, x in links],
                }
            )
        keys = {r["key"] for r in made}
        for r in made:
            r["links"] = tuple(sorted((k for k in set(r["links"]) if k in keys), key=repr))
        self.ii += made

    def _instances(self, w, comp, arch, ov):
        out = []
        seen = set()

        def visit(m, cls):
            seen.add(m.path)
            links = []
            names = list(dict.fromkeys(m.deps.get("common", []) + m.deps.get(arch, [])))
            for c in names:
                x = self.resolve(w, c, arch, comp.mtype, ov)
                if x is not None:
                    links.append((c, x))
            if m is comp:
                links += [("NULL", x) for x in self.nulls(w, arch, comp.mtype, ov)]
            for c, x in links:
                if x.path not in seen:
                    visit(x, c)
            out.append((m, cls, comp, arch, links))

        visit(comp, None)
        return out

    def gen_InstancedFvTable(self, w, env_id, env):
        if "FLASH_DEFINITION" not in env:
            return
        comps = {}
        for r in self.ii:
            if r["key"][0] == env_id and r["key"][3] is None:
                comps.setdefault(r["key"][1], []).append(r["key"])
        for name, infs in w.fvs:
            links = [comps[w.closest(c.path)] for c, _, _, cond in infs if w.closest(c.path) in comps and not (cond and env["FEATURE_X"] != "TRUE")]
            self.fv.append((env_id, name, env["FLASH_DEFINITION"], links))

    # -- comparison
    def tables(self, w_dsc):
        """The model in the shape of dbsim.dump (dates and FV links are compared separately)."""

        def srt(x):
            return sorted(x, key=repr)

        return {
            "value": srt(self.value),
            "inf": srt((p, *v) for p, v in self.inf.items()),
            "source": srt((p, *v) for p, v in self.source.items()),
            "library": srt(self.library),
            "repository": srt(self.repository),
            "package": srt((n, p, r) for (n, p), r in self.package.items()),
            "instancedinf": srt(
                (
                    r["key"][0], r["key"][1], r["key"][2], r["name"], r["pkg"], r["repo"], w_dsc, r["key"][3],
                    r["key"][4], r["src"], r["links"],
                )
                for r in self.ii
            ),
        }  # fmt: skip

    def diff(self, dump, ignore_inf=()):
        """First difference between the model and a dump, or None."""
        for bad in ("corrupt", "missing", "dangling"):
            if dump.get(bad):
                return f"{bad}: {dump[bad]}"
        if sorted((i, v) for i, _, v in dump["environment"]) != sorted(self.environment):
            return f"environment: have {dump['environment']}, expected {self.environment}"
        t = self.tables("Plat.dsc")
        for name, exp in t.items():
            got = dump[name]
            if name == "inf" and ignore_inf:
                got = [r for r in got if r[0] not in ignore_inf]
                exp = [r for r in exp if r[0] not in ignore_inf]
            if got != exp:
                extra = [r for r in got if r not in exp][:2]
                lack = [r for r in exp if r not in got][:2]
                if not extra and not lack:
                    extra = [r for r in got if got.count(r) != exp.count(r)][:2]
                return f"table {name}: unexpected {extra} missing {lack}"
        have = sorted(((e, n, f) for e, n, f, _ in dump["fv"]), key=repr)
        want = sorted(((e, n, f) for e, n, f, _ in self.fv), key=repr)
        if have != want:
            return f"table fv: have {have}, expected {want}"
        for e, n, f, links in dump["fv"]:
            exp = next(x[3] for x in self.fv if x[:3] == (e, n, f))
            if len(links) != len(exp):
                return f"table fv: {n} links {links}, expected {exp}"
            left = list(exp)
            for k in links:
                m = next((c for c in left if k in c), None)
                if m is None:
                    return f"table fv: {n} links {k} unexpectedly, expected {exp}"
                left.remove(m)
        return None


# --------------------------------------------------------------------------------------------- git
class GitTemplate:
    """A prepared .git directory copied into workspaces."""

    def __init__(self, path, sha, remote, subs):
        self.path = path
        self.sha = sha
        self.remote = remote
        self.subs = subs  # (name, path) of every submodule
        self.tree = None

    def repo_of(self, pkgdir):
        """(name, path) of the repository a package directory belongs to."""
        for name, path in self.subs:
            if (pkgdir + "/").startswith(path + "/"):
                return (name, path)
        return (self.remote.rstrip("/").upper() if self.remote else "BASE", None)

    def remove(self, root):
        """Take the repository out of a workspace again."""
        for rel in sorted(self.tree, reverse=True):
            path = f"{root}/{rel}"
            if self.tree[rel] is not None and os.path.exists(path):
                simfs.real["unlink"](path)
            elif self.tree[rel] is None and not os.listdir(path):
                simfs.real["rmdir"](path)

    def place(self, root):
        """Put the repository into a workspace."""
        if self.tree is None:
            self.tree = simfs.tree(self.path)
        for rel, data in self.tree.items():
            if data is None:
                os.path.isdir(f"{root}/{rel}") or simfs.real["mkdir"](f"{root}/{rel}")
            else:
                simfs.write(f"{root}/{rel}", data)


def git_templates(base):
    """Create the templates (outside a simulation)."""
    import shutil
    import subprocess

    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    env = {
        "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
        "HOME": base,
        "GIT_CONFIG_GLOBAL": os.path.join(verif, "dst", "gitconfig"),
        "GIT_CONFIG_NOSYSTEM": "1",
        "GIT_AUTHOR_DATE": "2020-01-01T00:00:00Z",
        "GIT_COMMITTER_DATE": "2020-01-01T00:00:00Z",
    }
    os.environ.update({k: env[k] for k in ("GIT_CONFIG_GLOBAL", "GIT_CONFIG_NOSYSTEM")})
    out = []
    mu, mub = ("Common/MU_SUB", "Common/MU"), ("Base_Sub", "Common/MU_BASE")
    for i, (remotes, subs) in enumerate(
        [
            ([], []),
            ([("origin", "RepoOne")], []),
            ([("upstream", "RepoTwo")], [mu]),
            ([], [mu]),
            ([("a-fork", "Fork"), ("origin", "RepoOne")], [mu, mub]),
            ([("origin", "RepoOne")], [mub, mu]),
            ([("origin", "one.github.io")], []),
            ([("fork", "Two.gitlab/")], [mu]),
        ]
    ):
        remote = dict(remotes).get("origin", remotes[0][1] if remotes else None)
        p = f"{base}/gt{i}"
        shutil.rmtree(p, ignore_errors=True)
        os.makedirs(p)

        def g(*a):
            return subprocess.run(
                ["git", *a], cwd=p, env=env, check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE
            ).stdout.decode()

        g("init", "-q", "-b", "main")
        with open(f"{p}/README", "w") as f:
            f.write(f"template {i}\n")
        g("add", "README")
        if subs:
            with open(f"{p}/.gitmodules", "w") as f:
                for name, sub in subs:
                    f.write(f'[submodule "{name}"]\n\tpath = {sub}\n\turl = https://example.invalid/sub.git\n')
            g("add", ".gitmodules")
            for _, sub in subs:
                g("update-index", "--add", "--cacheinfo", "160000,%040x,%s" % (0x1234567890ABCDEF, sub))
        for rname, name in remotes:
            g("remote", "add", rname, f"https://example.invalid/x/{name}" + ("" if name.endswith("/") else ".git"))
        g("commit", "-q", "-m", "c")
        sha = g("rev-parse", "HEAD").strip()
        shutil.rmtree(f"{p}/.git/hooks", ignore_errors=True)
        shutil.rmtree(f"{p}/.git/logs", ignore_errors=True)
        out.append(GitTemplate(p, sha, remote, subs))
    return out
