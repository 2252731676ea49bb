"""Imports the code under test from /repo's working tree, single-threaded and
quiet, whatever the environment says."""
import os
import sys

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS",
           "NUMEXPR_NUM_THREADS", "VECLIB_MAXIMUM_THREADS"):
    os.environ[_v] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ.setdefault("NUMBA_CACHE_DIR", "/tmp/.dst_numba")
sys.dont_write_bytecode = True

REPO = os.environ.get("DST_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import threading  # noqa: E402

SRC = os.path.join(os.path.realpath(REPO), "mentpy") + os.sep
BLOCKED = None  # set by the thread scheduler: gives way to another thread
_LOCKS = {"Lock": threading.Lock, "RLock": threading.RLock}


class CoopLock:
    """A lock made by the code under test.  A simulated thread that finds it
    taken gives way instead of blocking the one thread that may run."""

    def __init__(self, kind):
        self._l = _LOCKS[kind]()

    def acquire(self, blocking=True, timeout=-1):
        while not self._l.acquire(False):
            if not blocking:
                return False
            if BLOCKED is None or not BLOCKED():
                return self._l.acquire(True, timeout)
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle a lock")


def _factory(kind):
    def make():
        f = sys._getframe(1)
        if os.path.realpath(f.f_code.co_filename).startswith(SRC):
            return CoopLock(kind)
        return _LOCKS[kind]()
    return make


threading.Lock = _factory("Lock")
threading.RLock = _factory("RLock")

import warnings  # noqa: E402

warnings.simplefilter("ignore")

import numpy as np  # noqa: E402
import mentpy as mp  # noqa: E402

warnings.simplefilter("ignore")
_got = os.path.realpath(mp.__file__)
if not _got.startswith(SRC):
    raise RuntimeError(f"mentpy was imported from {_got}, not from {SRC}")
