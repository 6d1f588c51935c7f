"""C14: signing and catalog generation succeed exactly when the tool did and its result is in place."""

import os
import threading

from .. import boot, simfs, simproc, winsim  # noqa: F401
from ..core import Violation
from ..util import attempt, check, root_logging, short

winsim.install()
import edk2toollib.utility_functions as uf  # noqa: E402
from edk2toollib.windows.capsule.cat_generator import CatGenerator  # noqa: E402

ID = "C14"
HOOK_LINES = True
STEP_CAP = 200000


class Tools:
    """signtool.exe and Inf2Cat.exe."""

    def __init__(self, h):
        self.h, self.s, self.d = h, h.s, h.s.d
        self.calls = []
        h.tools = {"signtool.exe": self.signtool, "inf2cat.exe": self.inf2cat}
        self.plan = []  # per job: (outcome, rc), looked up by the file being processed
        self.by_file = {}
        self.full = lambda: None

    def noise(self, act, rc):
        d = self.d
        script = [("out", b"Working\r\n" * d.pick([0, 1, 200])), ("sleep", d.pick([0.0, 3.0])), ("call", act), ("out", b"Done\r\n")]
        c = simproc.Child(script, rc)
        c.cap = d.pick([64, 4096])
        return c

    def signtool(self, exe, tok, kw):
        bad = self.h.bad
        opt, pos, flags = {}, [], set()
        cwd = os.path.abspath(kw.get("cwd") or ".")
        if not tok or tok[0] != "sign":
            bad.append(f"signtool called with {tok}")
            return simproc.Child([], 1)
        i = 1
        while i < len(tok):
            t = tok[i].lower()
            if t in ("/fd", "/p7ce", "/p7co", "/p7", "/f", "/p", "/u"):
                if i + 1 >= len(tok):
                    bad.append(f"{t} without a value")
                    return simproc.Child([], 1)
                opt[t] = os.path.normpath(os.path.join(cwd, tok[i + 1])) if t in ("/f", "/p7") else tok[i + 1]
                i += 2
            elif t.startswith("/") and t in ("/a", "/debug", "/v"):
                flags.add(t)
                i += 1
            else:
                pos.append(os.path.normpath(os.path.join(cwd, tok[i])))
                i += 1
        self.calls.append((pos, opt, flags, cwd))
        if len(pos) != 1 or pos[0] not in self.by_file:
            return simproc.Child([("out", b"SignTool Error: file not found\r\n")], 1)
        how, rc = self.by_file[pos[0]]
        if not os.path.isfile(opt.get("/f", "")):
            return simproc.Child([("out", b"SignTool Error: certificate not found\r\n")], 1)

        def act():
            body = b"signature of " + simfs.read(pos[0])
            if how in ("ok", "fails-with-output", "wrong-place"):
                if "/p7" in opt:
                    if os.path.isdir(opt["/p7"]):
                        n = os.path.basename(pos[0]) + (".p7" if how != "wrong-place" else ".other")
                        simfs.write(os.path.join(opt["/p7"], n), body)
                else:
                    simfs.write(pos[0], simfs.read(pos[0]) + b"|signed")
            self.full()

        return self.noise(act, rc)

    def inf2cat(self, exe, tok, kw):
        cwd = os.path.abspath(kw.get("cwd") or ".")
        self.calls.append((tok, cwd))
        if cwd not in self.by_file:
            self.h.bad.append(f"Inf2Cat runs in {cwd}")
            return simproc.Child([], 1)
        how, rc, out = self.by_file[cwd]

        def act():
            if how in ("ok", "fails-with-output"):
                simfs.write(out, b"catalog " + " ".join(tok).encode())
            elif how == "wrong-place":
                simfs.write(out + "x", b"catalog")
            self.full()

        return self.noise(act, rc)


def names(d, i):
    return d.pick(["in", "a b", "é", "x.y.z", "quo-te", "(1)", " lead", "d  e", "UP"]) + str(i)


def run(s, faults, many):
    d = s.d
    h = winsim.Host(s)
    h.setenv()
    t = Tools(h)
    s.set_preempt(d.weighted([(2, 0), (1, 8)]) if not many else d.pick([3, 20]))
    tooldir = h.root + d.pick(["/tools", "/Program Files (x86)/Kits"])
    for x in ("signtool.exe", "Inf2Cat.exe"):
        simfs.write(f"{tooldir}/{x}", b"exe")
    if d.chance(0.3):  # the kit is installed where it usually is
        kit = f"{h.root}/Program Files (x86)/Windows Kits/10/bin/10.0.22621.0/" + {"AMD64": "x64", "ARM64": "arm64", "x86_32": "x86"}[h.arch]
        simfs.write(kit + "/Inf2Cat.exe", b"exe")
    else:
        kit = None
    simfs.write(h.vswhere, h.release)
    jobs = []
    fails = []
    clock = [1000]

    def stamp(path):
        """File times are those of the simulated past, in the order the files were made."""
        clock[0] += d.pick([0, 1, 3600])
        os.utime(path, (clock[0], clock[0]))

    def put(path, body):
        simfs.write(path, body)
        stamp(path)

    def draw(j):
        """What is asked this time, and what the tool will do."""
        how = d.weighted([(5, "ok"), (1, "fails"), (1, "fails-with-output"), (1, "silent"), (1, "wrong-place")])
        beside = os.path.join(os.path.dirname(j["out"]), os.path.basename(j["src"]) + ".p7")
        if how in ("silent", "wrong-place") and (os.path.exists(j["out"]) or os.path.exists(beside)):
            how = "ok"  # a tool that claims success and writes nothing over an old result cannot be told
        rc = d.pick([1, 2, 255, 0x80004005]) if how.startswith("fails") else 0
        j.update(how=how, rc=rc)
        j["pw"] = d.weighted([(2, None), (1, "secret"), (1, "pass word"), (1, "a&b;c"), (0.7, " pad  ded "), (0.7, ""), (0.5, "P%x$y^z!"), (0.5, "x" * 128)])
        j["eku"] = d.weighted([(2, None), (1, "1.3.6.1.4.1.311.76.9")])
        j["oid"] = d.weighted([(2, None), (1, "1.2.840.113549.1.9.16.1.4")])
        j["tool"] = d.weighted([(8, "ok"), (1, "missing")])
        j["search"] = j["kind"] == "cat" and d.chance(0.25)
        if j["search"]:
            j["tool"] = "ok" if kit else "missing"
        j["os"] = d.pick([("win10", "10"), ("10_RS5", "10_RS5"), ("server2016", "Server2016"), ("10_AU", "10_AU")])
        j["arch"] = d.pick([("x64", "X64"), ("amd64", "X64"), ("aarch64", "ARM64"), ("ARM", "ARM")])
        if j["kind"] == "cat":
            t.by_file[os.path.dirname(j["out"])] = (how, rc, j["out"])
        else:
            t.by_file[j["src"]] = (how, rc)

    for i in range(d.int(2, 3) if many else 1):
        kind = d.pick(["detached", "detached", "catalog", "cat"])
        base = f"{h.root}/job{i}" + d.pick(["", " dir"])
        src = f"{base}/{names(d, i)}.bin"
        pfx = f"{base}/{names(d, 9)}.pfx"
        outdir = base + d.pick(["", "/out", "/o u t"])
        os.makedirs(outdir, exist_ok=True)
        job = dict(kind=kind, base=base, src=src, pfx=pfx, out=f"{outdir}/{names(d, 5)}.sig", i=i)
        if kind == "detached" and d.chance(0.15):
            job["out"] = f"{outdir}/{os.path.basename(src)}.p7"
        made = [(src, b"content %d " % i + d.bytes(3)), (pfx, b"key")]
        if d.chance(0.35):
            made.append((job["out"], b"old result"))
        for f, body in d.shuffle(made):
            put(f, body)
        jobs.append(job)
    if len({os.path.dirname(j["out"]) for j in jobs}) < len(jobs):
        return
    here = None
    if not many and d.chance(0.4):  # paths relative to the current directory
        here = d.pick([jobs[0]["base"], os.path.dirname(jobs[0]["out"]), h.root, tooldir])
        back = os.getcwd()
        s.cleanups.append(lambda: os.chdir(back))
        os.chdir(here)
        s.probe("relative")

    def given(path):
        """The way the caller names a file."""
        if here is None or d.chance(0.2):
            return path
        return d.weighted([(4, ""), (1, "./")]) + os.path.relpath(path, here)

    moves = {"n": 0}
    if faults:
        mode = d.pick(["exdev", "exdev-enospc", "eacces", "full", "full"])
        s.fs.capacity = None
        if mode == "full":  # the signature is the last thing that fits on the disk
            t.full = lambda: setattr(s.fs, "capacity", d.below(4))

        def on_op(op, p):
            if op in ("rename", "replace") and s.fault_budget > 0 and mode != "full":
                s.fault_budget -= 1
                moves["n"] += 1
                s.hit("rename-" + mode.split("-")[0], p)
                if mode == "exdev-enospc":
                    s.fs.capacity = d.below(8)
                raise OSError(13 if mode == "eacces" else 18, "rename failed", p)

        s.fs.on_op = on_op
        s.fault_budget = 1

    def one(j):
        before = simfs.tree(j["base"])
        tool = tooldir + "/" + ("Inf2Cat.exe" if j["kind"] == "cat" else "signtool.exe")
        if j["tool"] == "missing":
            tool = tooldir + "/no such/" + os.path.basename(tool)
        n0, m0, f0 = len(t.calls), moves["n"], s.fs.failed_ops
        kw = {"PfxPass": j["pw"]} if j["pw"] else {}
        if j["kind"] == "detached":
            if j["eku"]:
                kw["Eku"] = j["eku"]
            if j["oid"]:
                kw["Oid"] = j["oid"]
            r, err = attempt(uf.DetachedSignWithSignTool, given(tool), given(j["src"]), given(j["out"]), given(j["pfx"]), **kw)
        elif j["kind"] == "catalog":
            r, err = attempt(uf.CatalogSignWithSignTool, given(tool), given(j["src"]), given(j["pfx"]), **kw)
        else:
            r, err = attempt(lambda: CatGenerator(j["arch"][0], j["os"][0]).MakeCat(given(j["out"]), *([] if j["search"] else [given(tool)])))
        after = simfs.tree(j["base"])
        what = f"{j['kind']} ({j['how']}, rc {j['rc']}, tool {j['tool']})"
        s.event(what, r, type(err).__name__)
        if many:
            calls = [c for c in t.calls if (c[0] and c[0][0] == j["src"]) or c[-1] == os.path.dirname(j["out"])]
        else:
            calls = t.calls[n0:]
        success = err is None and r == 0
        rel = os.path.relpath(j["out"], j["base"])
        srel = os.path.relpath(j["src"], j["base"])
        if j["tool"] == "missing":
            check(not success, "missing-tool", lambda: f"{what}: succeeded without a tool")
            check(not calls, "missing-tool", lambda: f"{what}: ran {calls}")
            check(before == after, "missing-tool", lambda: f"{what}: changed files")
            return
        check(len(calls) == 1, "calls", lambda: f"{what}: tool ran {len(calls)} times: {calls}; {h.bad}".replace(s.scratch, "$S"))
        c = calls[0]
        if j["kind"] == "cat":
            want = {"/driver:.", f"/os:{j['os'][1]}_{j['arch'][1]}", "/verbose", "/uselocaltime"}
            check(set(c[0]) == want, "arguments", lambda: f"{what}: {c[0]}")
        else:
            opt = {"/fd": "SHA256", "/f": j["pfx"]}
            if j["kind"] == "detached":
                opt.update({"/p7ce": "DetachedSignedData", "/p7co": j["oid"] or "1.2.840.113549.1.7.2", "/p7": os.path.dirname(j["out"])})
                if j["eku"]:
                    opt["/u"] = j["eku"]
            if j["pw"]:
                opt["/p"] = j["pw"]
            got = dict(c[1])
            got["/fd"] = got.get("/fd", "").upper()
            check(c[0] == [j["src"]] and got == opt, "arguments", lambda: f"{what}: {c[0]} {got}, expected {opt}".replace(s.scratch, "$S"))
        made = j["how"] in ("ok",) or (j["how"] == "fails-with-output")
        if j["rc"]:
            check(not success, "failure-hidden", lambda: f"{what}: reported success")
            if err is None:
                check(r == j["rc"], "return-code", lambda: f"{what}: returned {r}")
            elif j["kind"] != "cat":
                raise Violation("raises", f"{what}: raised {short(err)}")
            if j["kind"] == "detached" and not rel == srel + ".p7" and os.path.basename(j["out"]) != os.path.basename(j["src"]) + ".p7":
                check(after.get(rel) == before.get(rel), "failure-damage", lambda: f"{what}: the output file changed although signing failed")
        elif j["kind"] == "catalog":
            check(success, "fails", lambda: f"{what}: gave {short(err) if err else r}")
        elif not made:
            check(not success, "missing-output", lambda: f"{what}: reported success without its output")
        elif (moves["n"] > m0 or s.fs.failed_ops > f0) and err is not None:
            check(isinstance(err, OSError), "raises", lambda: f"{what}: raised {short(err)}")
            # (Only with a full disk: a rename within one directory that fails is the simulator's exaggeration.)
            if faults and mode == "full" and os.path.basename(rel) != os.path.basename(srel) + ".p7":
                check(after.get(rel) == before.get(rel), "failure-damage", lambda: f"{what}: the output file changed from {before.get(rel)!r} to {after.get(rel)!r} although signing failed ({short(err)})")
        else:
            check(success, "fails", lambda: f"{what}: gave {short(err) if err else r}")
            exp = b"signature of " + before[srel] if j["kind"] == "detached" else None
            if exp is not None:
                check(after.get(rel) == exp, "output", lambda: f"{what}: output holds {after.get(rel)!r}, expected {exp!r}")
                left = os.path.relpath(os.path.join(os.path.dirname(j["out"]), os.path.basename(j["src"]) + ".p7"), j["base"])
                check(left == rel or left not in after, "left-over", lambda: f"{what}: {left} left behind")
            else:
                check(rel in after, "output", lambda: f"{what}: catalog missing")
            s.probe("signed-" + j["kind"])
        expect_src = before[srel] + (b"|signed" if j["kind"] == "catalog" and j["how"] in ("ok", "fails-with-output", "wrong-place") else b"")
        check(after.get(srel) == expect_src, "input-changed", lambda: f"{what}: the signed file changed to {after.get(srel)!r}")
        prel = os.path.relpath(j["pfx"], j["base"])
        check(after.get(prel) == before[prel], "input-changed", lambda: f"{what}: the key file changed")
        check(not h.bad, "bad-command", lambda: h.bad[0].replace(s.scratch, "$S"))
        check(not s.fs.escapes, "escape", lambda: f"{s.fs.escapes[0]}")

    def go(j):
        try:
            one(j)
        except Violation as v:
            fails.append(v)

    with root_logging(level=60):
        if many:
            for j in jobs:
                draw(j)
            ts = [threading.Thread(target=go, args=(j,)) for j in jobs]
            for x in ts:
                x.start()
            for x in ts:
                x.join()
        else:
            for step in range(d.weighted([(2, 1), (2, 2), (1, 3)])):
                draw(jobs[0])
                if step:
                    s.probe("again")
                    if d.chance(0.4):
                        put(jobs[0]["src"], b"changed %d" % step)
                    elif os.path.exists(jobs[0]["out"]):
                        stamp(jobs[0]["out"])
                go(jobs[0])
                s.fs.capacity = None
    if fails:
        raise fails[0]
    s.extra["nontrivial"] = True


MODES = [
    (4, "one", lambda s: run(s, False, False)),
    (2, "faults", lambda s: run(s, True, False)),
    (2, "concurrent", lambda s: run(s, False, True)),
]
