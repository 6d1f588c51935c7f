"""Installs the whole simulator; import this before anything from edk2toollib."""

import sys
import warnings

from . import core

core.install()
warnings.simplefilter("ignore")  # shown once per process and place, so not the same in every run
from . import simfs, simproc  # noqa: E402

simfs.install()
simproc.install()

if core.REPO not in sys.path:
    sys.path.insert(0, core.REPO)

# Never read or write cached bytecode for the code under test: its current source decides.
import importlib._bootstrap_external as _be  # noqa: E402

_cfs = _be.cache_from_source


def _no_cache(path, *a, **k):
    if str(path).startswith(core.REPO + "/"):
        raise NotImplementedError
    return _cfs(path, *a, **k)


_be.cache_from_source = _no_cache
