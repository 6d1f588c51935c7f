"""Generator of EDK II build files together with what they contain.

A document is a tree of lines, conditional blocks and include files.  Writing it out yields the file texts and, on the
way, the list of lines that take effect with where each of them ended up; what a parser has to answer is computed from
the meaning attached to those lines, never from the text.
"""

import re
import uuid

TRUE = [
    "!if $(FLAG_T)", "!if $(FLAG_T) == TRUE", "!ifdef FLAG_T", "!ifndef NOT_DEFINED", "!if $(NUM) == 3", "!if $(NUM) > 2", "!if $(NUM) >= 3",
    "!if ($(FLAG_T) == TRUE) AND ($(NUM) == 3)", '!if "$(STR)" == "abc"', "!if $(FLAG_F) == FALSE", "!ifdef $(FLAG_T)", "!if $(NUM) != 4",
    "!if ($(FLAG_F) == TRUE) OR ($(NUM) == 3)", "!IF $(FLAG_T) == TRUE", "!if $(NOT_DEFINED) == 0",
]  # fmt: skip
FALSE = [
    "!if $(FLAG_F)", "!if $(FLAG_F) == TRUE", "!ifdef NOT_DEFINED", "!ifndef FLAG_T", "!if $(NUM) == 4", "!if $(NUM) > 3", "!if $(NUM) < 3",
    "!if ($(FLAG_T) == TRUE) AND ($(NUM) == 4)", '!if "$(STR)" == "abd"', "!if $(FLAG_T) == FALSE", "!ifndef $(FLAG_T)", "!if $(NUM) != 3",
    "!if ($(FLAG_F) == TRUE) OR ($(NUM) == 5)", "!ifNdef STR", "!if $(NOT_DEFINED)",
]  # fmt: skip


def atom(g, want):
    """A condition of one operand or one comparison that is `want`: (text, binds like an operand)."""
    d = g.d
    if g.pcds and d.chance(0.35):
        name, v = d.pick(g.pcds)
        if isinstance(v, bool) and d.chance(0.5) and v == want:
            return name, True
        right, eq = (str(v).upper(), True) if d.chance(0.5) else ({True: "FALSE", False: "TRUE", 7: "0x8"}.get(v, '"nope"'), False)
        return f"{name} {d.pick(['==', 'EQ'] if eq == want else ['!=', 'NE'])} {right if not isinstance(v, str) or not eq else v}", False
    k = d.below(7)
    if k == 0:
        return ("$(FLAG_T)" if want else "$(FLAG_F)"), True
    if k == 1:
        return d.pick(["TRUE", "true", "1"] if want else ["FALSE", "False", "0"]), True
    if k == 2:
        flag, value = d.pick([("T", "TRUE"), ("F", "FALSE")]) if want else d.pick([("T", "FALSE"), ("F", "TRUE")])
        return f"$(FLAG_{flag}) {d.pick(['==', 'EQ'])} {value}", False
    if k == 3:
        v = d.pick(["abc", "ab", "", "a (b) && c"])
        eq = v == "abc"
        return f'"$(STR)" {d.pick(["==", "EQ"] if eq == want else ["!=", "NE"])} "{v}"', False
    if k == 4:
        return f'"$(STR)" {"IN" if want else "NOT IN"} "abc abd"', False
    n = d.int(1, 5)
    ops = [o for o, v in (("==", n == 3), ("!=", n != 3), ("<", 3 < n), (">", 3 > n), ("<=", 3 <= n), (">=", 3 >= n)) if v == want]
    sp = d.pick([" ", " ", ""])
    return f"$(NUM){sp}{d.pick(ops)}{sp}{d.pick([str(n), hex(n), f'0x0{n}'])}", False


def expr(g, want, depth):
    """A condition that is `want`: (text, kind); kind "or"/"and" is a chain, "not", "cmp", or "one" operand."""
    d = g.d
    k = d.below(5) if depth else 0
    if k < 2:
        t, one = atom(g, want)
        return t, "one" if one else "cmp"
    if k == 2:
        t, kind = expr(g, not want, depth - 1)
        if kind != "one" or d.chance(0.3):
            return d.pick(["NOT (", "not (", "!(", "NOT("]) + t + ")", "not"
        return d.pick(["NOT ", "not "]) + t, "not"
    op = "and" if k == 3 else "or"
    n = d.int(2, 3)
    if want == (op == "and"):
        vals = [want] * n
    else:
        vals = [d.chance(0.5) for _ in range(n)]
        vals[d.below(n)] = want
    parts = []
    for v in vals:
        t, kind = expr(g, v, depth - 1)
        if kind in ("and", "or") or d.chance(0.2):
            t = d.pick(["(", "( "]) + t + d.pick([")", " )"])
        parts.append(t)
    sym = d.pick(["AND", "&&", "and"] if op == "and" else ["OR", "||", "or"])
    return f" {sym} ".join(parts), op


KEYWORD = re.compile(r"(DEFINE|INF|FILE|SECTION GUIDED|SECTION|!include|!ifndef|!ifdef|!if|!elseif) +(?=\S)", re.IGNORECASE)


def blanks(g, text):
    """The text with other white space where any white space does."""
    d = g.d
    if '"' in text or "'" in text:
        return text
    if text.startswith("[") and text.endswith("]"):
        inner = text[1:-1]
        if g.loose:
            inner = d.pick(["", " ", "\t"]) + d.pick([inner, inner.replace(",", " ,"), inner.replace(",", "\t,\t")]) + d.pick(["", " "])
        return "[" + inner + "]"
    m = KEYWORD.match(text)
    if m and d.chance(0.7):
        # a directive is followed by a blank, as the build tools demand it
        text = m.group(1).replace(" ", d.pick(["\t", "  "])) + d.pick(["\t", " \t", "   "] if text[0] != "!" else ["  ", "   ", " \t"]) + text[m.end() :]
    if text.endswith(" {") and d.chance(0.7):
        text = text[:-2] + d.pick(["\t{", "  {", " \t {"])
    if not text.upper().startswith(("!", "INF")) and d.chance(0.5):
        a = re.search(r" *(=|\|) *", text)
        if a and a.start() and (a.end() < len(text)):
            text = text[: a.start()] + d.pick(["\t", " \t"]) + a.group(1) + d.pick(["", "\t", " "]) + text[a.end() :]
    return text


def squash(text):
    """A line without the white space that counts nothing."""
    if text.startswith("[") and text.endswith("]"):
        text = "[" + text[1:-1].strip() + "]"
    return " ".join(re.sub(r"\s*([|={},])\s*", r" \1 ", text).split())


class Line:
    def __init__(self, text, fx=None, res=None):
        self.text, self.res, self.fx = text, text if res is None else res, fx


class Inc:
    def __init__(self, path, nodes):
        self.path, self.nodes = path, nodes
        self.skip = False
        self.defs = any(has_defs(n) for n in nodes)


class Cond:
    def __init__(self, branches):
        self.branches = branches  # (directive, active, nodes)


def has_defs(n):
    if isinstance(n, Line):
        return n.fx is not None and n.fx[0] == "def"
    if isinstance(n, Inc):
        return n.defs
    return any(has_defs(m) for _, _, ns in n.branches for m in ns)


def incs(nodes, live=True):
    for n in nodes:
        if isinstance(n, Inc):
            yield n
            yield from incs(n.nodes)
        elif isinstance(n, Cond):
            for _, active, ns in n.branches:
                if active:
                    yield from incs(ns)


class Gen:
    """Shared state while one set of files is generated."""

    def __init__(self, d, root, tag):
        self.d, self.root, self.tag = d, root, tag
        self.n = 0
        self.inputs = {"FLAG_T": d.pick(["TRUE", True, "TRUE"]), "FLAG_F": d.pick(["FALSE", False, "FALSE"]), "NUM": d.pick(["3", 3]), "STR": "abc", "PLATDIR": "PlatPkg"}
        self.pcds = []  # (name, value) usable in conditions
        self.macros = []  # (name, value) usable from here on
        for i in range(d.below(3)):
            self.inputs[f"IN{i}"] = f"In{tag}{i}"
            self.macros.append((f"IN{i}", f"In{tag}{i}"))
        self.files = {}  # case-relative path -> bytes
        self.dirs = ["ws", "ws/PlatPkg", "ws/PlatPkg/Inc", "ws/OtherPkg", "pp/PpPkg"]
        self.main = None
        self.incname = 0
        self.loose = True  # blanks count nothing in the header of a section

    def name(self, base):
        self.n += 1
        return f"{base}{self.tag}{self.n}"

    def guid(self):
        return uuid.UUID(bytes=self.d.bytes(16))

    def value(self, base):
        """A value of a definition."""
        v = self.name(base)
        return self.d.weighted([(6, v), (1, f"-D X={v}"), (1, f"{v}=="), (1, f"DEFINE_{v}"), (1, f"0x1 {v} /Y:z")])

    def key(self, base):
        n = self.name(base)
        return self.d.weighted([(6, n), (1, "DEFINE" + n), (1, n + "_DEFINE")])

    def path(self, base, ext):
        """A workspace path that may start with a macro: (text, resolved)."""
        rest = self.name(base) + ext
        if self.macros and self.d.chance(0.35):
            m, v = self.d.pick(self.macros)
            return f"$({m})/{rest}", f"{v}/{rest}"
        p = self.d.pick(["APkg", "BPkg/Library/" + self.name("L"), "CPkg/Drv"]) + "/" + rest
        return p, p

    def iff(self, truth):
        """A directive that opens a branch which is active, or not."""
        if self.d.chance(0.4):
            return self.d.pick(["!if ", "!if ", "!IF "]) + expr(self, truth, 2)[0]
        return self.d.pick(TRUE if truth else FALSE)

    def cond(self, nodes, decoy):
        """Wrap nodes into the one active branch of a conditional block."""
        d = self.d
        n = d.weighted([(4, 1), (3, 2), (2, 3), (1, 4)])  # conditions
        at = d.int(0, n)  # the first that is met; none is: !else
        br = []
        for i in range(n):
            truth = i == at or (i > at and d.chance(0.5))
            br.append((self.iff(truth) if i == 0 else self.elif_(truth), i == at, nodes if i == at else decoy()))
        if at == n:
            br.append(("!else", True, nodes))
        elif d.chance(0.5):
            br.append(("!else", False, decoy()))
        return Cond(br)

    def elif_(self, truth):
        if self.d.chance(0.4):
            return "!elseif " + expr(self, truth, 2)[0]
        t = self.d.pick([t for t in (TRUE if truth else FALSE) if t.lower().startswith("!if ")])
        return "!elseif " + t[4:]

    def skipped(self, decoy):
        """A conditional block of which nothing is active."""
        br = [(self.iff(False), False, decoy())]
        for _ in range(self.d.weighted([(5, 0), (2, 1), (1, 2)])):
            br.append((self.elif_(False), False, decoy()))
        return Cond(br)

    def fold(self, nodes, depth, dec):
        """Move runs of nodes into conditional blocks and include files; `dec` makes decoy nodes."""
        d = self.d
        for _ in range(d.weighted([(3, 0), (3, 1), (2, 2)]) if nodes else 0):
            a = d.below(len(nodes))
            b = d.int(a + 1, len(nodes))
            part = nodes[a:b]
            if d.chance(0.45) and depth < 3:
                new = [self.include(self.fold(part, depth + 1, dec))]
            elif d.chance(0.75):
                new = [self.cond(part, lambda: [self.decoy(dec) for _ in range(d.below(3))])]
            else:
                new = [self.skipped(lambda: [self.decoy(dec) for _ in range(d.below(3))]), *part]
            nodes = nodes[:a] + new + nodes[b:]
        return nodes

    def decoy(self, dec):
        d = self.d
        k = d.below(6)
        if k == 0:
            return Line("!include PlatPkg/Missing.inc")
        if k == 1:
            return Line(dec().text)
        if k == 2:
            return Cond([(d.pick(TRUE + FALSE), False, [Line(dec().text)]), ("!else", False, [Line(dec().text)])])
        return Line(dec().text)

    def include(self, nodes):
        self.incname += 1
        return Inc(self.d.pick(self.dirs[1:]) + f"/{self.d.pick(['part', 'common', 'x'])}{self.incname if self.d.chance(0.7) else 0}.inc", nodes)

    # -- output
    def place(self, nodes, main):
        """Give every include file a name of its own, and decide how its includer refers to it."""
        taken = {main}

        def visit(ns, here):
            for n in ns:
                if isinstance(n, Inc):
                    base = n.path
                    i = 0
                    while n.path in taken:
                        i += 1
                        n.path = base[:-4] + f"_{i}.inc"
                    taken.add(n.path)
                    visit(n.nodes, n.path)
                elif isinstance(n, Cond):
                    for _, active, ms in n.branches:
                        if active:
                            visit(ms, here)

        visit(nodes, main)
        self.taken = taken

    def refer(self, n, here):
        """Text by which a line in file `here` names include file n."""
        d = self.d
        full = n.path
        hdir = here.rsplit("/", 1)[0]
        ways = []
        if full.startswith("ws/"):
            ways.append(full[3:])
            if full.startswith("ws/PlatPkg/"):
                ways.append("$(PLATDIR)" + full[10:])
        if full.startswith(hdir + "/"):
            rel = full[len(hdir) + 1 :]
            if "ws/" + rel not in self.taken:
                ways += [rel, rel]
        elif "/" in hdir and full.startswith(hdir.rsplit("/", 1)[0] + "/") and hdir.count("/") > 1:
            rel = "../" + full[len(hdir.rsplit("/", 1)[0]) + 1 :]
            ways.append(rel)
        if full.startswith("pp/"):
            rel = full[3:]
            if "ws/" + rel not in self.taken and hdir + "/" + rel not in self.taken:
                ways.append(rel)
        if not ways or d.chance(0.05):
            ways.append(self.root + "/" + full)
        return d.pick(ways)

    def write(self, nodes, main, crlf=None):
        """Write everything out; returns the lines in effect: (Line, file, line number)."""
        d = self.d
        self.main = main
        self.place(nodes, main)
        live = []
        self.read = [main]
        self.spread = d.chance(0.25)

        def put(out, text, indent=True):
            if d.chance(0.08):
                out.append(d.pick(["", "   ", "# a comment", "  ## [Defines] not one", '# "quoted', "#", "# INF None.inf", "\t"]))
            pad = d.pick(["", "", "  ", "\t"]) if indent else ""
            if self.spread and d.chance(0.3):
                text = blanks(self, text)
            tail = "" if text.upper().startswith("#OVERRIDE") else d.weighted([(8, ""), (1, " # note"), (1, "  ##  see \"x\" [y] = z | $(NUM)"), (1, "  ")])
            out.append(pad + text + tail)

        def emit(ns, out, here, active):
            for n in ns:
                if isinstance(n, Line):
                    put(out, n.text)
                    if active:
                        live.append((n, here, len(out)))
                elif isinstance(n, Inc):
                    if not active:
                        put(out, "!include Nowhere.inc")
                        continue
                    put(out, f"{d.pick(['!include', '!include', '!INCLUDE'])} {self.refer(n, here)}")
                    sub = []
                    emit(n.nodes, sub, n.path, active and not n.skip)
                    self.files[n.path] = self.text(sub)
                    if not n.skip:
                        self.read.append(n.path)
                else:
                    for direct, act, ms in n.branches:
                        put(out, direct)
                        emit(ms, out, here, active and act)
                    put(out, d.pick(["!endif", "!endif", "!ENDIF"]))

        out = []
        emit(nodes, out, main, True)
        self.files[main] = self.text(out)
        return live

    def text(self, lines):
        d = self.d
        nl = d.weighted([(6, "\n"), (2, "\r\n")])
        if d.chance(0.1):
            lines = lines + [""] * d.below(3)
        if d.chance(0.03):
            lines = lines + ["# gr\u00fc\u00dfe \u4e2d"]
        t = nl.join(lines)
        return (t if d.chance(0.15) else t + nl).encode()

    def abs(self, rel):
        return self.root + "/" + rel

    def hit(self, i):
        """The absolute path of workspace path i if such a file is there."""
        for top in ("ws/", "pp/"):
            if top + i in self.files:
                return self.abs(top + i)
        return None


# ------------------------------------------------------------------ DSC
def dsc(d, root, tag):
    g = Gen(d, root, tag)
    arches = d.pick([["IA32", "X64"], ["X64"], ["IA32", "X64", "AARCH64"]])
    doc = []
    switches = []
    if d.chance(0.4):
        # PCDs that conditions use, some of which are set differently by lines that do not count
        switches = [Line(d.pick(["[PcdsFeatureFlag]", "[PcdsFixedAtBuild.common]"]), ("sec",))]
        base = f"g{g.name('S')}TokenSpaceGuid.{g.name('Pcd')}"
        for name in (base, base + "More", base + "X2"):
            v, texts = d.pick([(True, ["TRUE", "TRUE|BOOLEAN", " TRUE | BOOLEAN | 0x7"]), (False, ["FALSE", "FALSE|BOOLEAN"]), (7, ["7", "0x7|UINT32", "7 | UINT8 | 0x1"]), ('"a|b c"', ['"a|b c"|VOID*|32', '"a|b c"'])])
            switches.append(Line(f"{name}|{d.pick(texts)}", ("pcd", name)))
            if d.chance(0.4):
                switches.append(Cond([(d.pick(FALSE), False, [Line(f"{name}|{d.pick(['TRUE', 'FALSE', '9', chr(34) + 'z' + chr(34)])}")])]))
            g.pcds.append((name, v))

    def defs(first):
        body = []
        if first:
            given = d.pick(["|", "|", " | ", "\t|"]).join(arches)
            body.append(Line("SUPPORTED_ARCHITECTURES = " + given, ("def", "SUPPORTED_ARCHITECTURES", given)))
        for _ in range(d.int(0, 5)):
            k = g.name("M")
            if d.chance(0.2):
                v = d.pick([f'"a#b {tag}"', f'"a#b {tag}"', f'"a\\b # {tag}"', f"'c:\\d#e' {tag} \"f # g\"", f'"a\\"b # {tag}"'])
                body.append(Line(f"{k} = {v}", ("def", k, v)))
                continue
            if d.chance(0.15):
                # a macro that is defined by the next one
                k2, v2 = g.name("M"), g.value("v")
                body.append(Line(f"DEFINE {k} = $({k2})/x", ("def", k, v2 + "/x"), f"DEFINE {k} = {v2}/x"))
                body.append(Line(f"DEFINE {k2} = {v2}", ("def", k2, v2)))
                continue
            if d.chance(0.15):
                v = g.value("v")
                body.append(Line(f"{d.pick(['DEFINE ', ''])}{k} = {v}", ("def", k, v)))
                continue
            t, r = g.path("v", "")
            pre = f"{d.pick(['DEFINE ', 'DEFINE  ', ''])}{k}{d.pick([' = ', '=', '  =   '])}"
            body.append(Line(pre + t, ("def", k, r), pre + r))
            if d.chance(0.6):
                g.macros.append((k, r))
        if g.inputs.get("IN0") and d.chance(0.3):
            body.append(Line("DEFINE IN0 = Shadowed", ("def", "IN0", "Shadowed")))
        return d.pick(["[Defines]", "[defines]"]), None, body, lambda: Line(f"DEFINE {g.name('OFF')} = x", ("off",))

    def libline(scopes):
        cls = d.pick(["Base", "Debug", "Print", "NULL"]) + ("Lib" if d.chance(0.8) else g.name("Lib"))
        t, r = g.path("lib", ".inf")
        if d.chance(0.4):
            g.files[d.pick(["ws/", "pp/"]) + r] = b"# inf\n"
        sep = d.pick(["|", " | ", "  |"])
        return Line(cls + sep + t, ("lib", scopes, cls, r), cls + sep + r)

    def libs():
        scopes = d.pick([["common"], ["common"], ["x64"], ["ia32", "x64"], ["common.dxe_driver"], ["x64.peim", "ia32.pei_core"]])
        head = "[" + ", ".join("LibraryClasses" + ("" if sc == "common" and d.chance(0.6) else "." + (sc.upper() if sc != "common" else sc)) for sc in scopes) + "]"
        return head, None, [libline(scopes) for _ in range(d.int(0, 4))], lambda: libline(scopes)

    def pcdline():
        n = f"g{g.name('T')}TokenSpaceGuid.{g.name('Pcd')}"
        return Line(n + d.pick(["|0x1", "|TRUE", "|\"text # x\"|VOID*|32", " | 0x10|UINT32"]), ("pcd", n))

    def pcds():
        head = d.pick(["[PcdsFixedAtBuild]", "[PcdsFeatureFlag.common]", "[PcdsPatchableInModule.X64]", "[PcdsDynamicDefault, PcdsDynamicHii]"])
        return head, None, [pcdline() for _ in range(d.int(0, 3))], pcdline

    def comp(arch):
        t, r = g.path("mod", ".inf")
        if d.chance(0.55):
            return [Line(t, ("mod", arch, r), r)]
        out = [Line(t + " {", ("mod", arch, r), r + " {")]
        for sec in d.sample(["<LibraryClasses>", "<PcdsFixedAtBuild>", "<BuildOptions>"], d.int(0, 3)):
            out.append(Line(sec, ("note",)))
            body = []
            for _ in range(d.int(0, 3)):
                if sec == "<LibraryClasses>":
                    ln = libline(None)
                    cls = d.pick(["NULL", "null", ln.fx[2]])
                    sep = d.pick(["|", " | "])
                    t2 = ln.text.partition("|")[2].strip()
                    body.append(Line(cls + sep + t2, ("ovlib", cls, ln.fx[3], arch), cls + sep + ln.fx[3]))
                elif sec == "<PcdsFixedAtBuild>":
                    body.append(pcdline())
                else:
                    o = f"*_*_*_{g.name('CC')}_FLAGS = /D"
                    body.append(Line(o, ("note",)))
            out += g.fold(body, 2, (lambda: Line(f"NULL|Off/{g.name('o')}.inf")) if sec == "<LibraryClasses>" else lambda: Line(f"gXTokenSpaceGuid.{g.name('Off')}|1")) if d.chance(0.3) else body
        out.append(Line("}", ("close",)))
        return out

    def comps():
        arch = d.pick(["common", "IA32", "X64", "AARCH64", "X64", "IA32"])
        head = "[" + d.pick(["Components", "components"]) + ("" if arch == "common" and d.chance(0.6) else "." + arch) + "]"
        body = []
        for _ in range(d.int(0, 4)):
            body.append(comp(arch))
        return head, None, body, lambda: Line(g.path("off", ".inf")[0])

    def noise():
        head, lines = d.pick(
            [
                ("[SkuIds]", ["0|DEFAULT", "1|OTHER"]),
                ("[BuildOptions]", ["MSFT:*_*_*_CC_FLAGS = /X", "GCC:*_*_*_CC_FLAGS = -O2 \\", "-Wall", "*_*_X64_NASM_FLAGS == -f"]),
                ("[UserExtensions.Vendor.\"x\"]", ["anything goes", "a.inf"]),
                ("[DefaultStores]", ["0|STANDARD"]),
            ]
        )
        return head, None, [Line(x, ("note",)) for x in d.subset(lines)], lambda: Line("0|OFF")

    kinds = [defs, libs, libs, pcds, comps, comps, noise]
    secs = [defs(True)] + [k() if k is not defs else defs(False) for k in (d.pick(kinds) for _ in range(d.int(1, 6)))]
    for head, _, body, dec in secs:
        flat = []
        # a component with its braces stays together
        groups = [b if isinstance(b, list) else [b] for b in body]
        folded = g.fold([x for b in groups for x in b], 1, dec) if all(len(b) == 1 for b in groups) else None
        flat = folded if folded is not None else group_fold(g, groups, dec)
        doc.append([Line(head, ("sec",)), *flat])
    nodes = doc[0]
    rest = doc[1:]
    i = 0
    while i < len(rest):
        if d.chance(0.2):
            j = d.int(i + 1, len(rest))
            part = [x for s in rest[i:j] for x in s]
            nodes.append(g.include(part) if d.chance(0.6) else g.cond(part, lambda: [Line("[Components]"), Line("Off/Off.inf")]))
            i = j
        else:
            nodes += rest[i]
            i += 1
    g.arches = arches
    return g, switches + nodes


def group_fold(g, groups, dec):
    """Fold whole groups of lines (components) only."""
    d = g.d
    out = []
    i = 0
    while i < len(groups):
        if d.chance(0.3):
            j = d.int(i + 1, len(groups))
            part = [x for b in groups[i:j] for x in b]
            out.append(g.include(part) if d.chance(0.5) else g.cond(part, lambda: [g.decoy(dec)]))
            i = j
        else:
            out += groups[i]
            i += 1
    return out


def dsc_model(g, live):
    w = {
        "LocalVars": {}, "Lines": [], "SixMods": [], "ThreeMods": [], "OtherMods": [], "SixModsEnhanced": [], "ThreeModsEnhanced": [], "Libs": [],
        "LibsEnhanced": [], "Pcds": [], "Components": [], "ScopedLibraryDict": {}, "LibraryClassToInstanceDict": {},
    }  # fmt: skip
    opened = None
    for ln, file, no in live:
        fx = ln.fx
        w["Lines"].append(squash(ln.res))
        if fx[0] == "def":
            w["LocalVars"][fx[1]] = fx[2]
        elif fx[0] == "lib":
            _, scopes, cls, inst = fx
            w["Libs"].append(inst)
            w["LibsEnhanced"].append({"file": g.abs(file), "lineno": no, "data": inst})
            w["LibraryClassToInstanceDict"].setdefault(cls, []).append(g.hit(inst))
            for sc in scopes:
                lst = w["ScopedLibraryDict"].setdefault(f"{sc}.{cls}".lower(), [])
                if inst in lst:
                    lst.remove(inst)
                lst.insert(0, inst)
        elif fx[0] == "pcd":
            w["Pcds"].append(fx[1])
        elif fx[0] == "mod":
            _, arch, path = fx
            opened = {"NULL": []}
            where = {"file": g.abs(file), "lineno": no, "data": path}
            if arch == "X64":
                w["SixMods"].append(path)
                w["SixModsEnhanced"].append(where)
            elif arch == "IA32":
                w["ThreeMods"].append(path)
                w["ThreeModsEnhanced"].append(where)
            else:
                w["OtherMods"].append(path)
            for a in g.arches if arch == "common" else [arch.lower()]:
                w["Components"].append((path, a, opened))
        elif fx[0] == "ovlib":
            _, cls, inst, arch = fx
            w["Libs"].append(inst)
            w["LibsEnhanced"].append({"file": g.abs(file), "lineno": no, "data": inst})
            w["LibraryClassToInstanceDict"].setdefault(cls, []).append(g.hit(inst))
            if cls.lower() == "null":
                opened["NULL"].append(inst)
            else:
                opened[cls.lower()] = inst
    return w


# ------------------------------------------------------------------ FDF
def fdf(d, root, tag):
    g = Gen(d, root, tag)
    g.loose = False
    doc = []
    base = list(g.macros)
    defined, fvs = [], []

    def defs():
        body = []
        new = []
        g.macros = base + defined
        for _ in range(d.int(0, 4)):
            k = g.key("M")
            t, r = g.path("v", "")
            if d.chance(0.2):
                t = r = g.value("v")
                body.append(Line(f"{d.pick(['DEFINE ', ''])}{k}{d.pick([' = ', '='])}{t}", ("def", k, r)))
                continue
            body.append(Line(f"{d.pick(['DEFINE ', 'DEFINE   ', ''])}{k}{d.pick([' = ', '='])}{t}", ("def", k, r)))
            new.append((k, r))
        defined.extend(new)
        return "[Defines]", body, lambda: Line(f"DEFINE {g.name('OFF')} = x")

    def fd():
        n = d.pick(fvs) if fvs and d.chance(0.4) else g.name("FD")
        body = [Line(x, ("fd", n)) for x in d.sample(["BaseAddress = 0xFF000000", "Size = 0x00100000", "ErasePolarity = 1", "0x0|0x1000"], d.int(0, 3))]
        return f"[{d.pick(['FD', 'fd'])}.{n}]", body, lambda: Line("Size = 0x1")

    def file_block(n):
        t = d.pick(["DRIVER", "FREEFORM", "PEIM", "FV_IMAGE"])
        name = str(g.guid()).upper()
        out = [Line(f"{d.pick(['FILE', 'file'])} {t} = {name} {{", ("file", n, name, t))]
        for _ in range(d.int(0, 3)):
            k = d.below(3)
            if k == 0:
                v = f'"{g.name("ui")}"'
                out.append(Line(f"SECTION UI = {v}", ("sect", n, name, "UI", v)))
            elif k == 1:
                t2, r2 = g.path("bin", ".efi")
                st = d.pick(["PE32", "RAW", "DXE_DEPEX"])
                out.append(Line(f"SECTION {st} = {t2}", ("sect", n, name, st, r2)))
            else:
                gd = str(g.guid()).upper()
                out.append(Line(f"SECTION GUIDED {gd} PROCESSING_REQUIRED = TRUE {{", ("guided", n, name, f"{gd} PROCESSING_REQUIRED")))
                v = g.name("fv")
                out.append(Line(f"SECTION FV_IMAGE = {v}", ("sect", n, name, "FV_IMAGE", v)))
                out.append(Line("}", ("note",)))
        out.append(Line("}", ("note",)))
        return out

    def fv():
        n = g.name("FV")
        fvs.append(n)
        g.macros = base + defined
        body = []
        for _ in range(d.int(0, 5)):
            k = d.below(5)
            if k <= 1:
                t, r = g.path("drv", ".inf")
                pre = d.pick(["", "", "RuleOverride = X ", "USE = X64  "])
                body.append([Line(f"{d.pick(['INF ', 'INF  ', 'inf '])}{pre}{t}", ("inf", n, pre + r))])
            elif k == 2:
                m = g.key("LM")
                t, r = g.path("DEFINE" if d.chance(0.1) else "lv", "")
                body.append([Line(f"DEFINE {m} = {t}", ("local",))])
                g.macros = [*g.macros, (m, r)]
            elif k == 3:
                body.append(file_block(n))
            else:
                body.append([Line(d.pick(["FvAlignment = 16", "ERASE_POLARITY = 1", "FvNameGuid = " + str(g.guid())]), ("fv", n))])
        return f"[{d.pick(['FV', 'Fv'])}.{n}]", body, lambda: Line("INF Off/Off.inf")

    def other():
        head, lines = d.pick(
            [
                ("[Rule.Common.DXE_DRIVER]", ["FILE DRIVER = $(NAMED_GUID) {", "PE32 PE32 $(INF_OUTPUT)/x.efi", "}"]),
                ("[Capsule.One]", ["CAPSULE_GUID = 1", "FV = X"]),
                ("[FmpPayload.One]", ["IMAGE_INDEX = 1"]),
            ]
        )
        return head, [[Line(x, ("note",)) for x in lines]], lambda: Line("INF Off/Off.inf")

    secs = []
    for k in [defs] + [d.pick([defs, fd, fv, fv, fv, other]) for _ in range(d.int(1, 5))]:
        secs.append(k())
    for head, body, dec in secs:
        groups = [b if isinstance(b, list) else [b] for b in body]
        locals_ = any(b[0].fx[0] == "local" for b in groups)
        flat = group_fold(g, groups, dec) if not locals_ or d.chance(0.5) else [x for b in groups for x in b]
        doc.append([Line(head, ("sec",)), *flat])
    nodes = []
    i = 0
    while i < len(doc):
        if d.chance(0.2):
            j = d.int(i + 1, len(doc))
            part = [x for s in doc[i:j] for x in s]
            nodes.append(g.include(part) if d.chance(0.6) else g.cond(part, lambda: [Line("[FV.OFF]"), Line("INF Off/Off.inf")]))
            i = j
        else:
            nodes += doc[i]
            i += 1
    if d.chance(0.05):
        nodes += [Line("# " + "-" * 10) if d.chance(0.5) else Line("", ("blank",)) for _ in range(1500)]
    return g, nodes


def fdf_model(g, live):
    w = {"Dict": {}, "FVs": {}, "FDs": {}}
    for ln, _, _ in live:
        fx = ln.fx
        if fx is None:
            continue
        if fx[0] == "def":
            w["Dict"][fx[1]] = fx[2]
        elif fx[0] == "fd":
            w["FDs"][fx[1]] = {"Dict": {}}
        elif fx[0] in ("inf", "file", "sect", "guided", "fv"):
            v = w["FVs"].setdefault(fx[1], {"Dict": {}, "Infs": [], "Files": {}})
            if fx[0] == "inf":
                v["Infs"].append(fx[2].strip())
            elif fx[0] == "file":
                v["Files"][fx[2]] = {"type": fx[3]}
            elif fx[0] == "sect":
                v["Files"][fx[2]].setdefault(fx[3], []).append(fx[4])
            elif fx[0] == "guided":
                v["Files"][fx[2]].setdefault(fx[3], {})
    return w


# ------------------------------------------------------------------ INF
PHASES = ["SEC", "PEIM", "PEI_CORE", "DXE_DRIVER", "DXE_CORE", "DXE_RUNTIME_DRIVER", "UEFI_DRIVER", "SMM_CORE", "DXE_SMM_DRIVER", "UEFI_APPLICATION", "MM_STANDALONE", "MM_CORE_STANDALONE", "HOST_APPLICATION"]


def inf(d, root, tag, defines=None):
    g = Gen(d, root, tag)
    doc = []

    def plain(kind, heads, make):
        def f():
            body = [Line(t, (kind, r), r) for t, r in (make() for _ in range(d.int(0, 4)))]
            return d.pick(heads), body

        return f

    def word(base, feature=True):
        def f():
            n = g.name(base)
            return n + (d.pick(["", "", " | gX.PcdOn", "|gX.PcdOn", "  |  0x10"]) if feature else ""), n

        return f

    def defs():
        body = []
        for k, v in (defines or {}).items():
            body.append(Line(f"{k} {d.pick(['=', ' = '])} {v}", ("dict", k, v)))
        for _ in range(d.int(0, 4)):
            k, v = g.name("KEY"), g.value("val")
            body.append(Line(f"{k}{d.pick([' = ', '=', '   =   '])}{v}", ("dict", k, v)))
        if d.chance(0.5):
            cls = g.name("Cls")
            ph = d.pick(["", "|BASE", "| base", "|" + " ".join(d.sample(PHASES, d.int(1, 4)))])
            body.append(Line(f"LIBRARY_CLASS = {cls}{ph}", ("cls", cls, ph)))
        return "[Defines]", body

    def macro():
        m = g.key("MAC")
        t, r = g.path("DEFINE" if d.chance(0.1) else "dir", "")
        ln = Line(f"DEFINE {m} = {t}", ("macro",))
        g.macros = [*g.macros, (m, r)]
        return ln

    def scoped(kind, base):
        def f():
            arches = d.pick([["common"], ["common"], ["ia32"], ["x64"], ["ia32", "x64"], ["common"]])
            head = "[" + ", ".join(base + ("" if a == "common" and d.chance(0.7) else "." + d.pick([a, a.upper()] if a != "common" else [a])) for a in arches) + "]"
            body = []
            for _ in range(d.int(0, 4)):
                if d.chance(0.12):
                    body.append(macro())
                elif kind == "src":
                    t, r = g.path("s", d.pick([".c", ".h", ".nasm", ".c", ".h", ".nasm", "Resources.c", "/Sources.h", "LibraryClasses.c"]))
                    body.append(Line(t + d.pick(["", "", " | MSFT", "|GCC", "| INTEL"]), (kind, arches, r)))
                else:
                    n = d.pick(["BaseLib", g.name("Lib")])
                    body.append(Line(n + d.pick(["", "", " | gX.PcdOn", "|gX.PcdOn"]), (kind, arches, n)))
            return head, body

        return f

    def noise():
        head, lines = d.pick([("[Depex]", ["TRUE AND", "gX AND gY"]), ("[BuildOptions]", ["MSFT:*_*_*_CC_FLAGS = /X"]), ('[UserExtensions.TianoCore."ExtraFiles"]', ["x.uni"])])
        return head, [Line(x, ("note",)) for x in lines]

    kinds = [
        plain("pkg", ["[Packages]", "[packages]", "[Packages.common]"], lambda: (lambda n: (n, n))(f"{g.name('P')}/{g.name('P')}.dec")),
        scoped("lib", "LibraryClasses"), scoped("src", "Sources"), scoped("lib", "LibraryClasses"), scoped("src", "Sources"),
        plain("prot", ["[Protocols]", "[Protocols.X64]"], word("gProt")), plain("guid", ["[Guids]", "[guids]"], word("gGuid")), plain("ppi", ["[Ppis]"], word("gPpi")),
        plain("pcd", ["[Pcd]", "[FixedPcd]", "[FeaturePcd.common]", "[PatchPcd]", "[PcdEx]"], lambda: (lambda n: (n + d.pick(["", "|0x1"]), n))(f"gT.{g.name('Pcd')}")),
        plain("bin", ["[Binaries.X64]", "[Binaries]"], lambda: (lambda n: (n + d.pick(["", "|*"]), n))("PE32|".rstrip("|") + g.name("b"))),
        noise, defs,
    ]  # fmt: skip
    for k in [defs] + [d.pick(kinds) for _ in range(d.int(0, 6))]:
        head, body = k()
        doc += [Line(head, ("sec",)), *body]
        if k is defs:
            defines = None
    return g, doc


def inf_model(g, live):
    names = {"pkg": "PackagesUsed", "prot": "ProtocolsUsed", "guid": "GuidsUsed", "ppi": "PpisUsed", "pcd": "PcdsUsed", "bin": "Binaries"}
    w = {"Dict": {}, "LibraryClass": "", "SupportedPhases": [], "LibrariesUsed": [], "Sources": [], "ScopedLibraryDict": {}, "ScopedSourceDict": {}}
    w.update({v: [] for v in names.values()})
    for ln, _, _ in live:
        fx = ln.fx
        if fx[0] == "dict":
            w["Dict"][fx[1]] = fx[2]
        elif fx[0] == "cls":
            ph = fx[2].strip("| ")
            w["Dict"]["LIBRARY_CLASS"] = fx[1] + fx[2]
            w["LibraryClass"] = fx[1]
            w["SupportedPhases"] = list(PHASES) if ph.lower() in ("", "base") else ph.split()
        elif fx[0] in names:
            w[names[fx[0]]].append(fx[1])
        elif fx[0] in ("lib", "src"):
            flat, sc = ("LibrariesUsed", "ScopedLibraryDict") if fx[0] == "lib" else ("Sources", "ScopedSourceDict")
            w[flat].append(fx[2])
            for a in fx[1]:
                w[sc].setdefault(a, []).append(fx[2])
    for key, sc in (("libraries", "ScopedLibraryDict"), ("sources", "ScopedSourceDict")):
        for arches in ([], ["X64"], ["IA32", "x64"]):
            seen = []
            for a in ["common", *[x.lower() for x in arches]]:
                seen += [x for x in w[sc].get(a, []) if x not in seen]
            w[key + "/".join(arches)] = list(dict.fromkeys(seen))
    return w


# ------------------------------------------------------------------ DEC
def c_guid(u, d):
    h = u.hex
    f = d.pick([lambda x: "0x" + x, lambda x: "0x" + x.upper(), lambda x: "0X" + x.upper(), lambda x: "0x" + (x.lstrip("0") or "0")])
    parts = [f(h[0:8]), f(h[8:12]), f(h[12:16])]
    rest = [f(h[i : i + 2]) for i in range(16, 32, 2)]
    sep = d.pick([", ", ","])
    sp = d.pick(["", " "])
    return "{" + sp + sep.join(parts) + sep + "{" + sp + sep.join(rest) + sp + "}" + sp + "}"


def dec(d, root, tag, package=True):
    g = Gen(d, root, tag)
    doc = []
    pk = g.name("Pkg")

    def defs(first=False):
        body = [Line("DEC_SPECIFICATION = 0x00010005", ("dict", "DEC_SPECIFICATION", "0x00010005"))]
        if first and package:
            gu = str(g.guid())
            body += [Line(f"PACKAGE_NAME = {pk}", ("dict", "PACKAGE_NAME", pk)), Line(f"PACKAGE_GUID = {gu}", ("dict", "PACKAGE_GUID", gu))]
        for _ in range(d.below(3)):
            k, v = g.name("K"), g.value("v")
            body.append(Line(f"{k} = {v}", ("dict", k, v)))
        return "[Defines]", body

    def guided(kind, heads):
        def f():
            body = []
            for _ in range(d.int(0, 4)):
                n, u = g.name("g"), g.guid()
                body.append(Line(f"{n}{d.pick([' = ', '=', '    =  '])}{c_guid(u, d)}", (kind, n, str(u))))
            return d.pick(heads), body

        return f

    def libs():
        body = []
        for _ in range(d.int(0, 3)):
            n, p = g.name("L"), f"Include/{g.name('h')}.h"
            body.append(Line(n + d.pick(["|", " | "]) + p, ("lib", n, p)))
        return d.pick(["[LibraryClasses]", "[LibraryClasses.common]"]), body

    def incs_():
        return d.pick(["[Includes]", "[Includes.X64]"]), [Line(n, ("inc", n)) for n in (f"Inc/{g.name('i')}" for _ in range(d.int(0, 3)))]

    def pcds():
        body = []
        for _ in range(d.int(0, 4)):
            ts, n = g.name("gTs"), g.name("Pcd")
            k = d.below(5)
            sep = d.pick(["|", " | "])
            if k <= 2:
                v, t, i = d.pick(["0x0", "TRUE", '"a|b # c"', r'"\a|b # c"', "{0x1, 0x2}", "'x|y'"]), d.pick(["UINT8", "BOOLEAN", "VOID*"]), f"0x{d.below(1 << 32):08x}"
                body.append(Line(f"{ts}.{n}" + sep + sep.join([v, t, i]), ("pcd", ts, n, v, t, i)))
            elif k == 3:
                i = f"0x{d.below(1 << 32):08x}"
                body.append(Line(f"{ts}.{n}" + sep + sep.join(["{0}", "STRUCT", i]) + d.pick(["|{", " {", " | {"]), ("pcd", ts, n, "{0}", "STRUCT", i)))
                body += [Line(x, ("note",)) for x in ["<HeaderFiles>", "Include/x.h", "<Packages>", "A/A.dec"][: d.int(0, 4)]]
                body.append(Line("}", ("note",)))
            else:
                body.append(Line(f"{ts}.{n}.Field|0x3", ("pcd", ts, n + ".Field", "0x3", "STRUCTURED_PCD", "STRUCTURED_PCD")))
        return d.pick(["[PcdsFixedAtBuild]", "[PcdsFeatureFlag.common]", "[PcdsDynamic, PcdsDynamicEx]"]), body

    def noise():
        return '[UserExtensions.TianoCore."ExtraFiles"]', [Line("x.uni", ("note",))]

    kinds = [guided("prot", ["[Protocols]", "[protocols.X64]"]), guided("ppi", ["[Ppis]"]), guided("guid", ["[Guids]", "[Guids.common]"]), libs, incs_, pcds, pcds, noise, defs]
    h, b = defs(True)
    doc += [Line(h, ("sec",)), *b]
    for k in [d.pick(kinds) for _ in range(d.int(0, 6))]:
        h, b = k()
        doc += [Line(h, ("sec",)), *b]
    g.pk = pk if package else None
    return g, doc


def dec_model(g, live):
    w = {"Dict": {}, "Protocols": [], "PPIs": [], "Guids": [], "LibraryClasses": [], "IncludePaths": [], "Pcds": [], "PackageName": g.pk}
    names = {"prot": "Protocols", "ppi": "PPIs", "guid": "Guids"}
    for ln, _, _ in live:
        fx = ln.fx
        if fx[0] == "dict":
            w["Dict"][fx[1]] = fx[2]
        elif fx[0] in names:
            w[names[fx[0]]].append((fx[1], fx[2], g.pk))
        elif fx[0] == "lib":
            w["LibraryClasses"].append((fx[1], fx[2], g.pk))
        elif fx[0] == "inc":
            w["IncludePaths"].append(fx[1])
        elif fx[0] == "pcd":
            w["Pcds"].append((*fx[1:], g.pk))
    return w


# ------------------------------------------------------------------ target.txt
def target(d, root, tag):
    g = Gen(d, root, tag)
    doc = []
    for _ in range(d.int(0, 6)):
        k, v = g.name(d.pick(["ACTIVE_PLATFORM", "TARGET", "TOOL"])), d.pick(["", "DEBUG RELEASE", g.name("v") + "/x.dsc", '"a # b"', g.value("w")])
        doc.append(Line(f"{k}{d.pick([' = ', '=', '    =  '])}{v}", ("dict", k, v)))
    return g, doc


def target_model(g, live):
    return {"Dict": {ln.fx[1]: ln.fx[2] for ln, _, _ in live}}


# ------------------------------------------------------------------ override lines of an INF
def override(d, root, tag):
    g = Gen(d, root, tag)
    doc = []
    for _ in range(d.int(1, 4)):
        for _ in range(d.below(3)):
            doc.append(Line(d.pick(["[Defines]", f"{g.name('K')} = v", "[Sources]", "a.c"]), ("note",)))
        p, h = f"{g.name('Pkg')}/{g.name('m')}.inf", d.pick([str.lower, str.upper])(d.bytes(8).hex())
        t = (d.int(1990, 2030), d.int(1, 12), d.int(1, 28), d.below(24), d.below(60), d.below(60))
        when = f"{t[0]:04d}-{t[1]:02d}-{t[2]:02d}T{t[3]:02d}-{t[4]:02d}-{t[5]:02d}"
        sep = d.pick(["|", " | "])
        doc.append(Line(f"{d.pick(['#OVERRIDE', '#Override'])}{d.pick([':', ' : '])}{sep.join(['1', p, h, when])}", ("ov", p, h, t)))
    return g, doc


def override_model(g, live):
    return {"overrides": [(1, *ln.fx[1:]) for ln, _, _ in live if ln.fx[0] == "ov"]}


# ------------------------------------------------------------------ build report
TOP, END = ">" + "=" * 118 + "<", "<" + "=" * 118 + ">"
SUB, SUBEND = ">" + "-" * 118 + "<", "<" + "-" * 118 + ">"


def report(d, root, tag):
    g = Gen(d, root, tag)
    lines = []
    w = {"PlatformName": g.name("Plat"), "DscPath": f"PlatPkg/{g.name('p')}.dsc", "BuildOutputDir": f"/out/{g.name('o')}", "Modules": {}}
    for k, v in (("Platform Name", w["PlatformName"]), ("Platform DSC Path", w["DscPath"]), ("Architectures", "IA32, X64"), ("Build Environment", ""), ("Output Path", w["BuildOutputDir"])):
        lines.append(f"{k}:        {v}")
    lines.append("")
    word = g.name("SECRETWORD")
    g.protected = {word: "plain"} if d.chance(0.4) else {}
    mods = []
    for _ in range(d.int(1, 4)):
        n, path, gu = g.name("Mod"), f"{d.pick(['APkg', 'PpPkg'])}/{g.name('m')}.inf", str(g.guid()).upper()
        top = "pp" if path.startswith("Pp") else "ws"
        full = f"{g.root}/{top}/{path}"
        outside = d.chance(0.12)
        if outside:
            path = full = f"{g.root}/elsewhere/{g.name('m')}.inf"
            top = "elsewhere"
        m = {"Name": n, "InfPath": path, "Guid": gu, "Type": d.pick(["DRIVER", "PEIM", "APPLICATION"]), "Libraries": {}, "PCDs": {}, "FvName": None, "Depex": ""}
        g.files[full[len(g.root) + 1 :]] = b"# inf\n"
        lines += [TOP, "Module Summary", f"Module Name:          {n}", f"Module INF Path:      {path if d.chance(0.6) else path[:-4]}"]
        if not lines[-1].endswith(".inf"):
            lines.append("   " + path[-4:])
        lines += [f"File GUID:            {gu}", "Size:                 0x1000 (4.00K)", f"Driver Type:          0x7 ({m['Type']})", "=" * 120]
        if d.chance(0.7):
            lines += [SUB, "Library", "-" * 120]
            nulls = 0
            for _ in range(d.int(0, 4)):
                cls = d.pick(["NULL", g.name("Lib"), g.name("Lib")])
                lp = f"{d.pick(['APkg', 'PpPkg'])}/Lib{g.name('l')}.inf"
                lt = "pp" if lp.startswith("Pp") else "ws"
                absl = f"{g.root}/{lt}/{lp}"
                g.files[f"{lt}/{lp}"] = b"# inf\n"
                lines.append(absl)
                sp = d.pick(["", "", " "])
                lines.append("{" + sp + cls + sp + (": C = x" if d.chance(0.4) else "") + "}" if d.chance(0.8) else "{" + cls)
                if not lines[-1].endswith("}"):
                    lines.append(": C = ctor}")
                key = cls
                if cls == "NULL":
                    key = f"NULL{nulls}"
                    nulls += 1
                m["Libraries"][key] = lp
            lines.append(SUBEND)
        if d.chance(0.6):
            lines += [SUB, "PCD", "-" * 120]
            for _ in range(d.int(0, 2)):
                ts = g.name("gTs")
                lines.append(ts)
                for _ in range(d.int(0, 3)):
                    p = g.name("Pcd")
                    k = d.below(4)
                    if k == 0:
                        lines.append(f'  *F {p} : VOID* (DYN) = "some text')
                        lines.append(f'      more {word}"')
                        m["PCDs"][f"{ts}.{p}"] = '"some text more ' + (g.protected.get(word, word)) + '"'
                    elif k == 1:
                        lines.append(f"   {p} : VOID* (FIXED) = {{0x1,")
                        lines.append("       0x2}")
                        m["PCDs"][f"{ts}.{p}"] = "{0x1, 0x2}"
                    else:
                        v = d.pick([f"0x{d.below(1 << 16):X}", f"0x{d.below(1 << 16):X}", '"http://x/y"', '"a=b c=d"', 'L"x : y = z"'])
                        lines.append(f"{d.pick(['  *P ', '   '])}{p} : UINT32 (PATCH) = {v}")
                        m["PCDs"][f"{ts}.{p}"] = v
                    if d.chance(0.3):
                        lines += d.pick([["DEC DEFAULT = 0x0"], ["DEC DEFAULT = {", "0x1, 0x2,", "0x3", "}"], ['DSC DEFAULT = "some', 'text"'], ['DEC DEFAULT = "x:y"']])
            lines.append(SUBEND)
        if d.chance(0.4):
            dx = " ".join(d.sample(["TRUE", "gX", "AND", "gY", "END"], d.int(1, 4)))
            if d.chance(0.4):
                lines += [SUB, "Final Dependency Expression (DEPEX) Instructions", "-" * 120, "PUSH gX", "END", "-" * 120, "Dependency Expression (DEPEX) from INF"]
            else:
                lines += [SUB, "Dependency Expression (DEPEX) from INF"]
            lines += [dx, "-" * 120, "From Module INF: ignored", SUBEND]
            m["Depex"] = " " + dx
        if d.chance(0.3):
            lines += [SUB, "Build Flags", "-" * 120, "CC: -O2", SUBEND]
        lines += [END]
        mods.append((m, full))
        w["Modules"][gu] = m
    if d.chance(0.6):
        lines += [TOP, "Firmware Device (FD)", f"FD Name:   {g.name('FD')}", "=" * 120]
        for _ in range(d.int(1, 2)):
            fv = g.name("FV")
            lines += [SUB, "FV", f"Fv Name:            {fv} (99.5% Full)", "-" * 120]
            for m, full in d.subset(mods):
                lines.append(f"0x{d.below(1 << 20):X} {m['Name']} ({full})" if d.chance(0.7) else f"0x{d.below(1 << 20):X} {m['Name']} ({full[:-4]}")
                if not lines[-1].endswith(")"):
                    lines.append(full[-4:] + ")")
                if m["InfPath"] != full:
                    m["FvName"] = fv
            lines.append(SUBEND)
        lines.append(END)
    if d.chance(0.3):
        lines += [TOP, "Platform Configuration Database Report", "x : y = z", SUBEND, END]
    g.want = w
    g.main = "ws/BUILD_REPORT.TXT"
    nl = d.pick(["\n", "\r\n"])
    g.files[g.main] = (nl.join(lines) + nl).encode()
    g.read = [g.main]
    return g
