"""Simulated Windows firmware variable API: kernel32 and ntdll calls on a variable store, one last error per thread."""

import ctypes
import ctypes.wintypes  # noqa: F401
import importlib.util
import os
import platform
import struct
import sys
import types
import uuid

from . import core

PRIVILEGE = "SeSystemEnvironmentPrivilege"
NOT_FOUND, TOO_SMALL, BAD_PARAM, NO_PRIVILEGE = 203, 122, 87, 1314
STATUS_SMALL, STATUS_PRIVILEGE = 0xC0000023, 0xC0000061
_mod = None


def signed(n):
    """What a 32-bit signed return type makes of a status."""
    return n - (1 << 32) if n >> 31 else n


class Func:
    """A function of a DLL."""

    def __init__(self, name):
        self.name = name
        self.restype, self.argtypes = ctypes.c_int, None

    def __call__(self, *a):
        return getattr(core.sim().nv, self.name)(*a)


class Dll:
    """A loaded DLL."""

    def __init__(self, *names):
        for n in names:
            setattr(self, n, Func(n))


def _windll():
    return types.SimpleNamespace(
        kernel32=Dll("GetFirmwareEnvironmentVariableW", "GetFirmwareEnvironmentVariableExW", "SetFirmwareEnvironmentVariableW", "SetFirmwareEnvironmentVariableExW", "GetLastError"),
        ntdll=Dll("NtEnumerateSystemEnvironmentValuesEx"),
    )


class _As:
    """A module of a Windows host."""

    def __init__(self, real, **other):
        self.__dict__.update(other)
        self._real = real

    def __getattr__(self, n):
        return getattr(self._real, n)


def _win32():
    """The three pywin32 modules."""

    def adjust(token, disable, changes):
        core.sim().nv.adjust(token, disable, changes)
        return []

    sec = types.SimpleNamespace(
        TOKEN_READ=0x20008,
        TOKEN_ADJUST_PRIVILEGES=0x20,
        TOKEN_QUERY=8,
        TOKEN_ALL_ACCESS=0xF01FF,
        SE_PRIVILEGE_ENABLED=2,
        LookupPrivilegeValue=lambda host, name: ("luid", name),
        OpenProcessToken=lambda proc, access: core.sim().nv.token(proc, access),
        AdjustTokenPrivileges=adjust,
    )
    api = types.SimpleNamespace(
        CloseHandle=lambda h: core.sim().nv.close(h), GetCurrentProcess=lambda: -1, GetLastError=lambda: core.sim().nv.GetLastError()
    )
    return types.SimpleNamespace(win32api=api, win32process=types.SimpleNamespace(GetCurrentProcess=lambda: -1), win32security=sec)


def module():
    """The module as a Windows host loads it."""
    global _mod
    if _mod is not None:
        return _mod
    import edk2toollib.os.uefivariablesupport as uv

    w = _win32()
    fakes = {"win32": types.ModuleType("win32"), **{f"win32.{n}": m for n, m in vars(w).items()}, **vars(w)}
    fakes["win32"].__dict__.update(vars(w))
    old, host = {k: sys.modules.get(k) for k in fakes}, (os.name, sys.platform, platform.system)
    spec = importlib.util.spec_from_file_location("uefivariablesupport_nt", uv.__file__)
    m = importlib.util.module_from_spec(spec)
    src = spec.loader.get_source(spec.name) if hasattr(spec.loader, "get_source") else open(uv.__file__).read()
    ctypes.windll, ctypes.WinError = _windll(), lambda code=None, descr=None: OSError(code or 0, descr or "injected")
    ctypes.GetLastError = ctypes.get_last_error = lambda: core.sim().nv.GetLastError()
    sys.modules.update(fakes)
    os.name, sys.platform, platform.system = "nt", "win32", lambda: "Windows"
    try:
        exec(compile(src, uv.__file__, "exec"), m.__dict__)  # noqa: S102
    finally:
        os.name, sys.platform, platform.system = host
        for k, v in old.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v
        del ctypes.windll, ctypes.WinError, ctypes.GetLastError, ctypes.get_last_error
    # however the module asks what it runs on
    m.os = _As(os, name="nt")
    for n, v in (("sys", _As(sys, platform="win32")), ("platform", _As(platform, system=lambda: "Windows"))):
        if hasattr(m, n):
            setattr(m, n, v)
    if hasattr(m, "GetHostInfo"):
        m.GetHostInfo = lambda: types.SimpleNamespace(os="Windows", arch="x86", bit="64")
    _mod = m
    return m


class Nv:
    """The firmware's variables behind the API."""

    def __init__(self, sim):
        self.sim = sim
        self.vars = {}  # (name, guid) -> (attributes, data)
        self.tokens, self.ntok = {}, 0
        self.privileged = False
        self.errors = {}  # thread -> last error
        self.failed = {}  # thread -> codes of the failed calls
        self.stores = []  # (thread, name, guid, attributes or None, data)
        self.listed = []  # (thread, bytes)
        self.grown = 0
        sim.nv = self

    # -- process token
    def token(self, proc, access):
        self.sim.point("token")
        self.ntok += 1
        self.tokens[self.ntok] = access
        return self.ntok

    def adjust(self, token, disable, changes):
        self.sim.point("privilege")
        if self.tokens[token] & 0x20 and not disable:
            for (_, name), flag in changes:
                if name == PRIVILEGE:
                    self.privileged = bool(flag & 2)

    def close(self, h):
        del self.tokens[h]

    # -- errors
    def me(self):
        return core.cur().tid

    def fail(self, code):
        self.errors[self.me()] = code
        self.failed.setdefault(self.me(), []).append(code)
        self.sim.point("nv-failed")
        return 0

    def GetLastError(self):
        return self.errors.get(self.me(), 0)

    def key(self, name, guid):
        """(name, guid) or None for what Windows does not take for a GUID."""
        if not (isinstance(name, str) and name and isinstance(guid, str) and guid[:1] + guid[-1:] == "{}" and len(guid) == 38):
            return None
        try:
            return name.split("\0")[0], str(uuid.UUID(guid))
        except ValueError:
            return None

    def bad(self, what, codes):
        """The failure of this call, if any."""
        if not self.privileged:
            return NO_PRIVILEGE
        if self.sim.fault(what):
            return self.sim.d.pick(codes)
        return None

    # -- the API
    def GetFirmwareEnvironmentVariableW(self, name, guid, buf, size):
        s = self.sim
        s.point("nv-get")
        code = self.bad("nv-get-error", [31, 1117, 5])
        if code:
            return self.fail(code)
        k = self.key(name, guid)
        if k is None:
            return self.fail(BAD_PARAM)
        if k not in self.vars:
            return self.fail(NOT_FOUND)
        data = self.vars[k][1]
        if len(data) > size:
            return self.fail(TOO_SMALL)
        ctypes.memmove(buf, data, len(data))
        s.point("nv-got")
        return len(data)

    def SetFirmwareEnvironmentVariableW(self, name, guid, data, size):
        return self.store(name, guid, data, size, None)

    def SetFirmwareEnvironmentVariableExW(self, name, guid, data, size, attrs):
        return self.store(name, guid, data, size, attrs)

    def store(self, name, guid, data, size, attrs):
        s = self.sim
        s.point("nv-set")
        code = self.bad("nv-set-error", [19, 112, 31, 1450])
        if code:
            return self.fail(code)
        k = self.key(name, guid)
        if k is None:
            return self.fail(BAD_PARAM)
        data = b"" if data is None else bytes(data)[:size]
        old = self.vars.get(k)
        if not data or attrs == 0:
            if old is None:
                return self.fail(NOT_FOUND)
            del self.vars[k]
        else:
            if attrs is not None and (attrs & ~0x7F or old and old[0] != attrs):
                return self.fail(BAD_PARAM)
            if old is None:
                self.grown += 1
            self.vars[k] = (old[0] if attrs is None and old else 7 if attrs is None else attrs, data)
        self.stores.append((self.me(), *k, attrs, data))
        s.point("nv-done")
        return s.d.pick([1, 1, 2])

    def packed(self):
        """Every variable as the API lists it."""
        out = b""
        for n, g in self.vars:
            e = uuid.UUID(g).bytes_le + (n + "\0").encode("utf-16-le")
            e += b"\0" * (-len(e) % 4)
            out += struct.pack("<I", 4 + len(e)) + e
        return out

    def NtEnumerateSystemEnvironmentValuesEx(self, klass, buf, length):
        s = self.sim
        s.point("nv-list")
        n = length.contents if hasattr(length, "contents") else length._obj
        if not self.privileged:
            return self.status(STATUS_PRIVILEGE)
        if s.fault("nv-list-error"):
            return self.status(s.d.pick([0xC000000D, 0xC0000002, 0xC0000001]))
        if klass != 1:
            return self.status(0xC000000D)
        raw = self.packed()
        have, n.value = n.value, len(raw)
        if have < len(raw):
            s.point("nv-sized")
            return signed(STATUS_SMALL)
        ctypes.memmove(buf, raw, len(raw))
        self.listed.append((self.me(), raw))
        s.point("nv-listed")
        return 0

    def status(self, n):
        self.failed.setdefault(self.me(), []).append(n)
        return signed(n)
