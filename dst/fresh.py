"""Gives every simulated run the library as a fresh process would have it.

A simulated run stands for one process (or several that share nothing but files).  The worker imports the library once
and runs thousands of simulations, so whatever the library keeps in module or class attributes, memoised functions or
default arguments is put back to how the import left it before each run.  A run is then a function of its seed alone,
also when a change to the library adds such state.
"""

import os
import sys
import types

PKG = "edk2toollib"
MUTABLE = (dict, list, set, bytearray)


def _functions(ns):
    for v in list(ns.values()):
        f = v.__func__ if isinstance(v, (staticmethod, classmethod)) else v
        if isinstance(f, property):
            yield from (g for g in (f.fget, f.fset, f.fdel) if g is not None)
        else:
            yield f


class Fresh:
    """Snapshot of the library's process-wide state."""

    def __init__(self):
        self.spaces = []
        self.copies = []
        self.caches = []
        self.funcs = []
        seen = set()
        for name, m in sorted(sys.modules.items()):
            if m is None or not (name == PKG or name.startswith(PKG + ".")):
                continue
            self._space(m, seen)
            for v in list(vars(m).values()):
                if not str(getattr(type(v) if not isinstance(v, type) else v, "__module__", "")).startswith(PKG):
                    continue
                if id(v) in seen or hasattr(v, "__mapper__"):  # (mapped classes belong to SQLAlchemy)
                    continue
                seen.add(id(v))
                if hasattr(v, "__dict__"):
                    self._space(v, seen)
        self.modules = self.loaded()
        self.environ = dict(os.environ)
        self.cwd = getattr(self, "cwd", None) or os.getcwd()

    @staticmethod
    def loaded():
        """Names of the library's modules that are loaded."""
        return frozenset(n for n in sys.modules if n == PKG or n.startswith(PKG + "."))

    def _space(self, owner, seen):
        ns = {k: v for k, v in vars(owner).items() if not (k.startswith("__") and k.endswith("__"))}
        if getattr(owner, "__flags__", 0) & (1 << 8):  # immutable type
            return
        self.spaces.append((owner, ns))
        for v in ns.values():
            if type(v) in MUTABLE and id(v) not in seen:
                seen.add(id(v))
                self.copies.append((v, self._copy(v)))
        for f in _functions(ns):
            if hasattr(f, "cache_clear") and id(f) not in seen:
                seen.add(id(f))
                self.caches.append(f)
            if hasattr(f, "__wrapped__"):
                f = f.__wrapped__
            if isinstance(f, types.FunctionType) and id(f) not in seen and str(f.__module__).startswith(PKG):
                seen.add(id(f))
                self.funcs.append((f, dict(f.__dict__)))
                for v in list(f.__defaults__ or ()) + list((f.__kwdefaults__ or {}).values()):
                    if type(v) in MUTABLE and id(v) not in seen:
                        seen.add(id(v))
                        self.copies.append((v, self._copy(v)))

    def _copy(self, v):
        """Copy, with nested containers copied too (they are restored as fresh objects)."""
        if type(v) is dict:
            return {k: self._copy(x) if type(x) in MUTABLE else x for k, x in v.items()}
        if type(v) is list:
            return [self._copy(x) if type(x) in MUTABLE else x for x in v]
        return type(v)(v)

    def restore(self):
        """Put everything back."""
        if self.loaded() != self.modules:  # a module was imported on first use
            self.__init__()
        if dict(os.environ) != self.environ:
            os.environ.clear()
            os.environ.update(self.environ)
        os.chdir(self.cwd)
        for owner, ns in self.spaces:
            cur = vars(owner)
            for k in [k for k in cur if k not in ns and not (k.startswith("__") and k.endswith("__"))]:
                try:
                    delattr(owner, k)
                except (AttributeError, TypeError):
                    pass
            for k, v in ns.items():
                if cur.get(k, self) is not v:
                    try:
                        setattr(owner, k, v)
                    except (AttributeError, TypeError):
                        pass
        for v, c in self.copies:
            if v != c:
                if type(v) in (dict, set):
                    v.clear()
                    v.update(self._copy(c))
                else:
                    v[:] = self._copy(c)
        for f in self.caches:
            f.cache_clear()
        for f, ns in self.funcs:
            if f.__dict__ != ns:
                f.__dict__.clear()
                f.__dict__.update(ns)
