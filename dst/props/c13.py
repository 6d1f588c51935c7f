"""C13: Windows tools are found exactly, and only a verified vswhere.exe is ever used."""

import io
import os
import threading

from .. import boot, core, simfs, winsim  # noqa: F401
from ..core import Violation
from ..util import attempt, check, root_logging, short

winsim.install()
import edk2toollib.windows.locate_tools as lt  # noqa: E402

ID = "C13"
HOOK_LINES = True
STEP_CAP = 200000
NET = ["http-error", "url-error", "truncated", "corrupt", "page", "incomplete", "reset", "timeout"]
FS = ["open-eacces", "open-eio", "write-eio", "enospc", "close-eio", "read-eio"]


def installs(h):
    """Visual Studio installations, newest first (anew: some are installed, some removed)."""
    d = h.s.d
    h.installs.clear()
    vs = sorted((d.pick([(15, 9), (16, 11), (17, 2), (17, 8), (18, 0), (16, 0)]) for _ in range(d.weighted([(1, 0), (3, 1), (3, 2), (2, 3), (2, 4)]))), reverse=True)
    for i, v in enumerate(vs):
        p = f"{h.root}/VS {i}"
        vc = d.chance(0.7)
        bat = f"{p}/VC/Auxiliary/Build/vcvarsall.bat"
        if vc:
            simfs.write(bat, b"@echo off")
        elif os.path.exists(bat):
            simfs.real["remove"](bat)
        h.installs.append((v, d.pick(["*", "Microsoft.VisualStudio.Product.BuildTools", "Pro"]), p, vc, d.chance(0.8)))


def place(h):
    """vswhere.exe: missing, genuine, or provided by the user."""
    d = h.s.d
    k = d.weighted([(4, "missing"), (2, "genuine"), (1, "path"), (1, "own")])
    if d.chance(0.5):
        h.path = [h.root + "/p1", h.root + "/p2/"]
        for p in h.path:
            simfs.real["mkdir"](p.rstrip("/"))
    if k == "genuine":
        simfs.write(h.vswhere, h.release)
    elif k == "own":
        simfs.write(h.vswhere, b"user's build")
        h.provided[h.vswhere] = b"user's build"
    elif k == "path" and h.path:
        p = d.pick(h.path).rstrip("/") + "/vswhere.exe"
        simfs.write(p, b"on the path")
        h.provided[p] = b"on the path"
    return k


def inv(h):
    check(not h.bad, "bad-command", lambda: h.bad[0].replace(h.s.scratch, "$S"))
    check(not h.s.fs.escapes, "escape", lambda: f"file access outside the host: {h.s.fs.escapes[0]}")


def content(p):
    try:
        return simfs.read(p)
    except OSError:
        return None


def good_path(h, p):
    c = content(p)
    check(c is not None and h.allowed(p, c), "unverified", lambda: f"GetVsWherePath returned {p} holding {c if c is None else len(c)} bytes that were never verified (release has {len(h.release)})".replace(h.s.scratch, "$S"))


def find_expect(h, product, vs):
    rows = [x for x in h.installs if product in ("*", x[1])]
    if vs is not None:
        lo, hi = (tuple(int(q) for q in v.split(".")) for v in winsim.RANGES[vs.lower()])
        rows = [x for x in rows if lo <= x[0] < hi]
    return rows


def download(s, crash):
    """vswhere.exe appears at its place only complete and verified."""
    d = s.d
    h = winsim.Host(s)
    installs(h)
    place(h)
    h.setenv()
    s.set_preempt(d.weighted([(1, 0), (2, 6), (1, 30)]))
    h.net_fault = d.pick(NET) if d.chance(0.6) else None
    if crash:
        s.fs.crash_in = d.int(0, 12)
    else:
        s.swarm(FS, (0, 2), (0.1, 0.4), 0.5)
        if d.chance(0.3):
            s.fault_rates["short-write"] = 0.3
    n = d.weighted([(3, 1), (2, 2), (1, 3)])
    fails = []
    there = next((p for p in [h.vswhere, *(x.rstrip("/") + "/vswhere.exe" for x in h.path)] if content(p) is not None), None)

    def chosen(p):
        """What was there before is used, wherever it is found first; nothing is fetched then."""
        if there is not None:
            check(p == there, "not-the-first", lambda: f"GetVsWherePath returned {p}, {there} exists".replace(s.scratch, "$S"))
            check(not h.downloads, "needless-download", lambda: f"downloaded although {there} exists".replace(s.scratch, "$S"))
        elif p is not None:
            check(p == h.vswhere, "misplaced", lambda: f"GetVsWherePath returned {p}".replace(s.scratch, "$S"))

    def fine():
        return h.net_fault is None and not crash and not s.fs.failed_ops and n == 1

    def caller():
        try:
            fail = d.chance(0.7)
            p, err = attempt(lt.GetVsWherePath, *([] if fail else [False]))
            check(err is None, "raises", lambda: f"GetVsWherePath raised {short(err)}")
            chosen(p)
            if p is None:
                check(fail, "none", "GetVsWherePath(fail_on_not_found=False) returned None")
                check(not fine(), "not-found", "vswhere was not found although the download works")
            elif fail or os.path.isfile(p):
                good_path(h, p)
                s.probe("got-vswhere")
            inv(h)
        except Violation as v:
            fails.append(v)
        except simfs.Crash:
            pass

    def watch():
        for _ in range(30):
            s.point("watch")
            c = content(h.vswhere)
            if c is not None and not h.allowed(h.vswhere, c):
                fails.append(Violation("visible-partial", f"vswhere.exe is visible with {len(c)} unverified bytes (release has {len(h.release)})"))
                return

    if n == 1:
        caller()
    else:
        s.probe("concurrent-download")
        ts = [threading.Thread(target=caller) for _ in range(n - 1)] + [threading.Thread(target=watch)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    if fails:
        raise fails[0]
    if s.fs.crash_image is not None:
        s.fs.restore()
    s.fs.crash_in = None
    # the next process, with everything working again
    s.fault_rates = {}
    h.net_fault = None
    s.fs.capacity = None
    p, err = attempt(lt.GetVsWherePath)
    check(err is None and p is not None, "recover", lambda: f"after the failure GetVsWherePath gives {short(err) if err else p}")
    good_path(h, p)
    chosen(p)
    if h.installs:
        r, err = attempt(lt.FindAllWithVsWhere)
        check(err is None and r == [x[2] for x in h.installs], "find", lambda: f"FindAllWithVsWhere gave {short(err) if err else r}")
    inv(h)
    s.extra["nontrivial"] = True


def query(s):
    """FindWithVsWhere, FindAllWithVsWhere and QueryVcVariables against the model."""
    d = s.d
    h = winsim.Host(s)
    installs(h)
    gone = d.chance(0.08)  # and it cannot be fetched
    if gone:
        h.net_fault = d.pick(NET)
    else:
        simfs.write(h.vswhere, h.release)
    h.setenv()
    s.set_preempt(d.weighted([(2, 0), (1, 15)]))
    if d.chance(0.1):
        h.vswhere_rc = 87
    if d.chance(0.07):
        h.os = "Linux"
    if d.chance(0.3):
        s.fault_rates["short-read"] = 0.3
        s.fault_budget = 5
    names = ["INCLUDE", "Lib", "PATH", "WindowsSdkDir", "WindowsSDKVersion", "VCToolsInstallDir", "UCRTVersion"]

    def toolset():
        h.env_vars = {k: d.pick(["v=1;x", "C:\\Program Files\\x", "a" * 3000, "é漢", "", " lead", "x" + os.pathsep, "x" + os.pathsep * 2, os.pathsep, "a==b="]) for k in d.subset(names, 0.85)}
        h.bat["rc"], h.bat["err"] = 0, b""
        if d.chance(0.2):
            h.bat["rc"] = d.pick([1, 255])
            h.bat["err"] = d.pick([b"The input line is too long.\r\n", b"[ERROR] bad option\r\n", b""])
        h.bat["noise"] = d.pick([0, 0, 30, 5000])

    toolset()
    ask = None
    for step in range(d.int(1, 5)):
        if step and d.chance(0.5):  # the machine changes between two questions of one process
            change = d.pick(["installs", "toolset", "vswhere"])
            s.probe("changed-" + change)
            if change == "installs":
                installs(h)
            elif change == "toolset":
                toolset()
            else:
                h.vswhere_rc = 0 if h.vswhere_rc else 87
        if ask is None or d.chance(0.4):
            product = d.weighted([(3, None), (1, "*"), (2, "Pro"), (1, "Nope")])
            vs = d.weighted([(3, None), (2, "vs2022"), (1, "VS2019"), (1, "vs2017"), (1, "vs2015")])
            ask = (d.chance(0.4), d.chance(0.5))
            keys = d.sample(names, d.int(1, 3))
            keys = [k.upper() if d.chance(0.2) else k.lower() if d.chance(0.2) else k for k in keys]
            arch = d.weighted([(3, None), (1, "x86"), (1, "amd64_arm64")])
            vc = d.weighted([(3, None), (1, "14.42.34433")])
        n0 = len(h.bats)
        known = vs is None or vs.lower() in winsim.RANGES
        rows = find_expect(h, product or "*", vs) if known else []
        if ask[0]:
            one = ask[1]
            f = lt.FindWithVsWhere if one else lt.FindAllWithVsWhere
            kw = {}
            if product is not None:
                kw["products"] = product
            if vs is not None:
                kw["vs_version"] = vs
            r, err = attempt(f, **kw)
            if h.os != "Windows":
                check(isinstance(err, EnvironmentError), "host", lambda: f"not Windows, got {short(err) if err else r}")
            elif gone:
                check(isinstance(err, EnvironmentError) or (not known and isinstance(err, ValueError)), "no-vswhere", lambda: f"there is no vswhere, got {short(err) if err else r}")
            elif not known:
                check(isinstance(err, ValueError), "vs-version", lambda: f"{vs}: {short(err) if err else r}")
            elif h.vswhere_rc:
                check(isinstance(err, RuntimeError), "vswhere-fails", lambda: f"vswhere failed, got {short(err) if err else r}")
            else:
                want = [x[2] for x in rows]
                want = (want[0] if want else None) if one else (want or None)
                check(err is None and r == want, "find", lambda: f"find({product}, {vs}) gave {short(err) if err else r}, installed {want}")
            inv(h)
            continue
        r, err = attempt(lt.QueryVcVariables, keys, arch, product, vs, vc)
        s.op("query", keys, arch, product, vs, vc)
        bat = next((x for x in rows if x[3]), None)
        if h.os != "Windows":
            check(isinstance(err, EnvironmentError), "host", lambda: f"not Windows, got {short(err) if err else r}")
        elif gone:
            check(isinstance(err, EnvironmentError) or (not known and isinstance(err, ValueError)), "no-vswhere", lambda: f"there is no vswhere, got {short(err) if err else r}")
        elif h.vswhere_rc and known:
            check(isinstance(err, RuntimeError), "vswhere-fails", lambda: f"vswhere failed, got {short(err) if err else r}")
        elif not known or bat is None:
            check(isinstance(err, ValueError), "no-install", lambda: f"no installation fits, got {short(err) if err else r}")
        else:
            check(h.bats[n0:] == [(bat[2] + "/VC/Auxiliary/Build/vcvarsall.bat", [arch or "amd64"], [f"-vcvars_ver={vc}"] if vc else [])], "bat", lambda: f"vcvarsall calls {h.bats[n0:]}, expected {bat[2]} with {arch or 'amd64'} {vc}".replace(s.scratch, "$S"))
            if h.bat["rc"]:
                check(isinstance(err, RuntimeError), "bat-fails", lambda: f"vcvarsall failed, got {short(err) if err else r}")
            else:
                have = {k.upper(): (k, v) for k, v in h.env_vars.items()}
                miss = [k for k in keys if k.upper() not in have]
                if miss:
                    check(isinstance(err, ValueError), "missing-key", lambda: f"{miss} not set, got {short(err) if err else r}")
                else:
                    want = {}
                    for k in keys:
                        n, v = have[k.upper()]
                        v = v.rstrip() if v else v
                        want[n] = v[:-1] if v.endswith(os.pathsep) else v
                    check(err is None and r == want, "variables", lambda: f"QueryVcVariables({keys}) gave {short(err) if err else r}, environment has {want}")
                    s.probe("vc-variables")
        inv(h)
    s.extra["nontrivial"] = True


ARCHD = {"AMD64": ("x64", "amd64", "x86"), "ARM64": ("arm64", "aarch64", "arm"), "x86_32": ("x86",)}  # what the host can run


def sdk(s):
    """FindToolInWinSdk chooses by architecture and version, not by directory order, and by what is there now."""
    d = s.d
    h = winsim.Host(s)
    installs(h)
    simfs.write(h.vswhere, h.release)
    h.setenv()
    s.set_preempt(0)
    roots = [h.root + "/Program Files (x86)/Windows Kits/10/bin", h.root + "/Kits/10/bin"]
    for b in roots:
        os.makedirs(b, exist_ok=True)
    pool = ["10.0.10240.0", "10.0.17763.0", "10.0.22621.0", "10.0.22000.194", "10.0.9600.1", "10.1.999.0", "11.0.2.0", "10.0.22621.3233"]
    vers = d.sample(pool, d.int(0, 4))
    tool = d.pick(["signtool.exe", "Inf2Cat.exe", "rc.exe"])
    state = {}

    def env():
        state["cur"] = d.pick(vers) if vers and d.chance(0.7) else "10.0.11111.0"
        state["ok"] = d.chance(0.75)
        h.env_vars = {"WindowsSdkDir": roots[1] + "/", "WindowsSDKVersion": state["cur"] + "\\"} if state["ok"] else {"WindowsSdkDir": roots[1]}

    def fill(b, vs):
        for v in vs:
            for a in d.sample(["x64", "x86", "arm64", "arm", "i386", "amd64", "aarch64", "", "tools"], d.int(0, 4)):
                if d.chance(0.8):
                    simfs.write(b + "/" + "/".join(x for x in (v, a, tool) if x), b"tool")
                if d.chance(0.1):
                    simfs.write(b + "/" + "/".join(x for x in (v, a, "other.exe") if x), b"tool")

    def present():
        out = []
        for b in roots:
            for rel in simfs.tree(b):
                parts = rel.split("/")
                if parts[-1] == tool:
                    out.append((b, parts[0] if parts[0] in pool else "", next((x for x in parts[:-1] if x not in pool), ""), f"{b}/{rel}"))
        return out

    env()
    for b in roots:
        fill(b, [*vers, *([""] if d.chance(0.4) else [])])
    product = d.weighted([(2, None), (1, "Pro"), (1, "*")])
    arch = d.weighted([(2, None), (1, "x86")])
    for step in range(d.int(1, 4)):
        if step:
            change = d.pick(["none", "none", "add", "remove", "env", "installs", "question"])
            s.probe("changed-" + change)
            if change == "add":
                fill(d.pick(roots), [d.pick(pool)])
            elif change == "remove":
                here = present()
                if here:
                    simfs.real["remove"](d.pick(here)[3])
            elif change == "env":
                env()
            elif change == "installs":
                installs(h)
            elif change == "question":
                product = d.weighted([(2, None), (1, "Pro"), (1, "*")])
                arch = d.weighted([(2, None), (1, "x86")])
        n0 = len(h.bats)
        files = present()
        cur = state["cur"]
        rows = find_expect(h, product or "*", None)
        bat = next((x for x in rows if x[3]), None)
        ok = state["ok"] and bat is not None
        root, want_cur = (roots[1], cur) if ok else (roots[0], None)
        args = () if product is None and arch is None else (product, arch)
        r, err = attempt(lt.FindToolInWinSdk, tool, *args)
        s.op("sdk", vers, cur, ok, h.arch, product, arch)
        check(err is None, "raises", lambda: f"FindToolInWinSdk raised {short(err)}")
        if bat is not None:
            check(h.bats[n0:] == [(bat[2] + "/VC/Auxiliary/Build/vcvarsall.bat", [arch or "amd64"], [])], "bat", lambda: f"asked for product {product}, arch {arch}; vcvarsall calls {h.bats[n0:]}".replace(s.scratch, "$S"))
        cand = [f for f in files if f[0] == root and f[2] in (*ARCHD[h.arch], "", "tools")]
        inv(h)
        if not cand:
            check(r is None, "wrong-tool", lambda: f"found {r}, no {h.arch} tool exists".replace(s.scratch, "$S"))
        else:
            got = [f for f in cand if f[3] == r]
            check(got, "wrong-tool", lambda: f"found {r}, candidates {[f[3] for f in cand]}".replace(s.scratch, "$S"))
            exact = [f for f in cand if f[1] and same(f[1], want_cur)]
            if want_cur and exact:
                check(got[0] in exact, "not-current", lambda: f"SDK {want_cur} has the tool, found {r}".replace(s.scratch, "$S"))
                s.probe("current-sdk")
            else:
                best = max(number(f[1]) for f in cand)
                # Without a known current SDK, a tool outside any version directory may be preferred: its age is unknown.
                check(number(got[0][1]) == best or (want_cur is None and not got[0][1]), "not-newest", lambda: f"found {r}, candidates {[f[3] for f in cand]}".replace(s.scratch, "$S"))
        # the directory order is drawn anew
        r2, err = attempt(lt.FindToolInWinSdk, tool, *args)
        check(err is None and r2 == r, "order", lambda: f"the same query gave {r} and {short(err) if err else r2}".replace(s.scratch, "$S"))
    s.extra["nontrivial"] = True


def number(v):
    """SDK version for comparing (the fourth part does not count)."""
    return tuple(int(x) for x in v.split(".")[:3]) if v else (0, 0, 0)


def same(v, w):
    return w is not None and number(v) == number(w)


MODES = [
    (4, "download", lambda s: download(s, False)),
    (3, "crash", lambda s: download(s, True)),
    (3, "query", query),
    (3, "sdk", sdk),
]


def _quiet(fn):
    def g(s):
        with root_logging(level=60):
            fn(s)

    return g


MODES = [(w, n, _quiet(f)) for w, n, f in MODES]
_ = io, core
