"""A simulated Windows host: Visual Studio installations, vcvarsall.bat, an SDK tree, the vswhere download."""

import codecs
import email.message
import hashlib
import http.client
import importlib.resources
import io
import os
import pathlib
import platform
import shlex
import urllib.error
import urllib.request

from . import core, simfs, simproc

GOOD_SHA = "c54f3b7c9164ea9a0db8641e81ecdda80c2664ef5a47c4191406f848cc07c662"
_real = {}
RANGES = {"vs2017": ("15.0", "16.0"), "vs2019": ("16.0", "17.0"), "vs2022": ("17.0", "18.0"), "vs2026": ("18.0", "19.0")}


def _host():
    s = core.sim()
    return None if s is None else getattr(s, "win", None)


class _Sha:
    """SHA-256 that gives the release's digest for the simulated release."""

    name = "sha256"
    digest_size = 32
    block_size = 64

    def __init__(self, data=b""):
        self.data = bytes(data)

    def update(self, b):
        self.data += bytes(b)

    def hexdigest(self):
        w = _host()
        if w is not None and self.data == w.release:
            return GOOD_SHA
        return _real["sha256"](self.data).hexdigest()

    def digest(self):
        return bytes.fromhex(self.hexdigest())

    def copy(self):
        return _Sha(self.data)


def _sha256(data=b"", **k):
    return _Sha(data) if _host() is not None else _real["sha256"](data, **k)


def _new(name, data=b"", **k):
    if _host() is not None and name.lower().replace("-", "") == "sha256":
        return _Sha(data)
    return _real["new"](name, data, **k)


class Response(io.RawIOBase):
    """Body of the download."""

    def __init__(self, host):
        self.host = host
        s = host.s
        self.s = s
        self.body = host.release
        self.pos = 0
        self.fail = None
        k = host.net_fault
        if k in ("truncated", "incomplete", "reset", "timeout", "short-timeout"):
            self.cut = s.d.below(len(self.body))
        else:
            self.cut = len(self.body)
        if k == "corrupt":
            b = bytearray(self.body)
            b[s.d.below(len(b))] ^= 1 + s.d.below(255)
            self.body = bytes(b)
        if k == "page":
            self.body = b"<html>proxy login</html>"
            self.cut = len(self.body)
        self.k = k
        self.status = self.code = 200
        self.headers = email.message.Message()
        self.headers["Content-Length"] = str(len(host.release))

    def readable(self):
        return True

    def getcode(self):
        return 200

    def info(self):
        return self.headers

    def read(self, n=-1):
        s = self.s
        s.point("download")
        if self.s.d.chance(0.2):
            s.sleep(1.0)
        left = self.cut - self.pos
        k = left if n is None or n < 0 else min(n, left)
        if self.k in ("incomplete", "reset", "timeout", "short-timeout") and (n is None or n < 0 or left == 0):
            s.hit("download-" + self.k, "")
            if self.k == "incomplete":
                raise http.client.IncompleteRead(self.body[self.pos : self.cut], len(self.body) - self.cut)
            if self.k == "reset":
                raise ConnectionResetError(104, "Connection reset by peer")
            raise TimeoutError("The read operation timed out")
        if self.k and self.pos == 0:
            s.hit("download-" + self.k, "")
        out = self.body[self.pos : self.pos + k]
        self.pos += len(out)
        s.point("download-done")
        return out

    def readinto(self, b):
        d = self.read(len(b))
        b[: len(d)] = d
        return len(d)


class Host:
    """One Windows machine."""

    def __init__(self, s):
        self.s = s
        d = s.d
        self.root = s.scratch + "/win"
        simfs.real["mkdir"](self.root)
        s.fs = simfs.SimFS(s, self.root, permute=True)
        s.win = self
        s.procs = self.launch
        self.release = b"MZ" + d.bytes(d.pick([10, 300, 9000]))
        self.arch = d.weighted([(4, "AMD64"), (1, "ARM64"), (1, "x86_32")])
        self.os = "Windows"
        self.net_fault = None
        self.downloads = 0
        self.bin = self.root + "/site/edk2toollib/bin"
        self.vswhere = self.bin + "/vswhere.exe"
        self.path = []
        self.installs = []  # (version tuple, product, path, has vcvars), newest first
        self.ran = []  # (content, args)
        self.bats = []
        self.vswhere_rc = 0
        self.env_vars = {}
        self.bat = {"rc": 0, "err": b"", "noise": 0}
        self.tools = {}  # name -> fn(host, args, cwd) -> Child
        self.provided = {}  # path -> content placed by the user
        self.environ = {}
        self.bad = []
        if d.chance(0.8):
            os.makedirs(self.bin, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(self.bin), exist_ok=True)

    def setenv(self):
        """Process environment of the run (restored at its end)."""
        keep = {k: os.environ.get(k) for k in ("PATH", "ProgramFiles(x86)")}

        def back():
            for k, v in keep.items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v

        self.s.cleanups.append(back)
        os.environ["PATH"] = os.pathsep.join(self.path or [self.root + "/nothing"])
        os.environ["ProgramFiles(x86)"] = self.root + "/Program Files (x86)"

    def allowed(self, path, content):
        """May this file be run as vswhere?"""
        return content == self.release or self.provided.get(path) == content

    def urlopen(self, url, *a, **k):
        s = self.s
        self.downloads += 1
        u = url if isinstance(url, str) else url.full_url
        s.event("download", u)
        s.point("urlopen")
        if not u.startswith("https://"):
            self.bad.append(f"insecure download from {u}")
        f = self.net_fault
        if f == "http-error":
            s.hit("download-http-error", "")
            raise urllib.error.HTTPError(u, 503, "busy", email.message.Message(), io.BytesIO(b""))
        if f == "url-error":
            s.hit("download-url-error", "")
            raise urllib.error.URLError("no route")
        return Response(self)

    # -- processes
    def launch(self, args, kw):
        s = self.s
        line = args if isinstance(args, str) else " ".join(args)
        try:
            tok = shlex.split(line)
        except ValueError as e:
            self.bad.append(f"unbalanced quotes in {line!r}: {e}")
            return simproc.Child([], 1)
        exe = tok[0] if tok else ""
        name = exe.rsplit("/", 1)[-1].lower()
        s.event("run", line)
        if name == "vswhere.exe":
            return self.run_vswhere(exe, tok[1:], kw)
        if name == "vcvarsall.bat":
            return self.run_bat(exe, tok[1:], kw)
        if name in self.tools:
            exe = os.path.normpath(os.path.join(kw.get("cwd") or os.getcwd(), exe))
            if not os.path.isfile(exe):
                return simproc.Child([("err", b"not recognized\r\n")], 1)
            return self.tools[name](exe, tok[1:], kw)
        self.bad.append(f"unexpected command {line!r}")
        return simproc.Child([("err", b"not recognized\r\n")], 1)

    def chunks(self, data):
        """Output in drawn pieces."""
        d = self.s.d
        out = []
        while data:
            n = d.pick([1, 3, 40, 4000, 100000])
            out.append(("out", data[:n]))
            data = data[n:]
            if len(out) > 40:
                out.append(("out", data))
                break
        return out

    def run_vswhere(self, exe, tok, kw):
        try:
            content = simfs.read(exe)
        except OSError:
            content = None
        self.ran.append((exe, content, tok))
        if content is None or not self.allowed(exe, content):
            self.bad.append(f"ran {exe} holding {content if content is None else len(content)} unverified bytes")
        opt, flags = {}, set()
        i = 0
        while i < len(tok):
            t = tok[i].lower()
            if t in ("-property", "-products", "-version") and i + 1 < len(tok):
                opt[t] = tok[i + 1]
                i += 1
            else:
                flags.add(t)
            i += 1
        rows = [x for x in self.installs if opt.get("-products", "*") in ("*", x[1])]
        if "-version" in opt:
            lo, hi = (tuple(int(p) for p in v.split(".")) for v in opt["-version"].split(","))
            rows = [x for x in rows if lo <= x[0] < hi]
        if "-sort" not in flags:
            rows = list(reversed(rows))
        if "-all" not in flags:
            rows = [x for x in rows if x[4]]
        if opt.get("-property") != "installationPath":
            self.bad.append("vswhere was not asked for the installation path")
        text = "".join(x[2] + "\r\n" for x in rows).encode()
        c = simproc.Child(self.chunks(text), self.vswhere_rc)
        c.cap = self.s.d.pick([64, 65536])
        return c

    def run_bat(self, exe, tok, kw):
        if tok[-2:] != ["&", "set"]:
            self.bad.append(f"vcvarsall.bat called with {tok}")
        ver = [t for t in tok if t.startswith("-vcvars_ver=")]
        rest = [t for t in tok[:-2] if t not in ver]
        self.bats.append((exe, rest, ver))
        b = self.bat
        if not os.path.isfile(exe):
            return simproc.Child([("err", b"not recognized\r\n")], 1)
        out = b"**********\r\nVisual Studio environment\r\n"
        if b["rc"] == 0:
            for k, v in self.env_vars.items():
                out += f"{k}={v}\r\n".encode()
            out += b"X" * 0
        script = []
        for part in self.chunks(out):
            script.append(part)
            if b["noise"]:
                script.append(("err", b"w" * b["noise"]))
        if b["err"]:
            script.append(("err", b["err"]))
        c = simproc.Child(script, b["rc"])
        c.cap = self.s.d.pick([64, 700, 65536])
        return c


def _uname():
    h = _host()
    if h is None:
        return _real["uname"]()
    return platform.uname_result(h.os, "sim", "10", "10.0", h.arch)


def _files(pkg=None, *a, **k):
    h = _host()
    if h is None or str(getattr(pkg, "__name__", pkg)).split(".")[0] != "edk2toollib":
        return _real["files"](pkg, *a, **k)
    return pathlib.Path(os.path.join(h.root, "site", *str(getattr(pkg, "__name__", pkg)).split(".")))


def _urlopen(url, *a, **k):
    h = _host()
    if h is None:
        raise core.HarnessError("unexpected network access")
    return h.urlopen(url, *a, **k)


def _mbcs(name):
    if name == "mbcs":
        u = codecs.lookup("utf-8")
        return codecs.CodecInfo(u.encode, u.decode, name="mbcs")
    return None


def install():
    """Patch the process (before locate_tools is imported)."""
    if _real:
        return
    _real.update(uname=platform.uname, files=importlib.resources.files, urlopen=urllib.request.urlopen, sha256=hashlib.sha256, new=hashlib.new)
    platform.uname = _uname
    importlib.resources.files = _files
    urllib.request.urlopen = _urlopen
    hashlib.sha256 = _sha256
    hashlib.new = _new
    codecs.register(_mbcs)
