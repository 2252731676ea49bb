"""A fresh interpreter under a simulated clock and operating-system entropy
source; executes the work items of a JSON file.  python -m dst.child FILE"""
import json
import os
import random
import sys

job = json.load(open(sys.argv[1]))
e = job["env"]
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ.setdefault("NUMBA_CACHE_DIR", "/tmp/.dst_numba")

import datetime  # noqa: E402
import time  # noqa: E402
import warnings  # noqa: E402

warnings.simplefilter("ignore")
import matplotlib.pyplot  # noqa: E402,F401
import networkx  # noqa: E402,F401
import numpy as np  # noqa: E402,F401
import pennylane  # noqa: E402,F401
import scipy.stats  # noqa: E402,F401

# ---- the simulated clock: starts anywhere, ticks irregularly, the wall clock
# may jump backwards
R = random.Random(e["clock"])
NOW = [R.uniform(0, 4e9), R.uniform(0, 1e6)]
CALLS = [0]


def wall():
    CALLS[0] += 1
    NOW[0] += R.choice([0.0, 1e-6, 1e-3, 1.0, 3600.0, -3600.0])
    return abs(NOW[0])


def mono():
    CALLS[0] += 1
    NOW[1] += R.choice([0.0, 1e-6, 1e-3, 1.0])
    return NOW[1]


for n, f in (("time", wall), ("monotonic", mono), ("perf_counter", mono), ("process_time", mono), ("thread_time", mono)):
    setattr(time, n, f)
    setattr(time, n + "_ns", lambda f=f: int(f() * 1e9))


class SimDate(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(wall() % 4e9, tz)

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(wall() % 4e9)


datetime.datetime = SimDate

# ---- the simulated operating-system entropy source
U = random.Random(e["urandom"])
NURANDOM = [0]


def urandom(n):
    NURANDOM[0] += 1
    return U.randbytes(n)


os.urandom = urandom
random._urandom = urandom
NURANDOM[0] = 0

from dst.props import c13  # noqa: E402

res = c13.work(job["items"], e)
print("RESULT " + json.dumps({"results": res, "clock_reads": CALLS[0], "os_entropy": NURANDOM[0]}))
