"""The seams through which the simulator owns nondeterminism.

Entropy   -- the code under test draws from the global numpy and Python
             generators.  Both are MT19937, so the exact sequence of 32-bit
             words they will emit can be installed from outside; no function is
             patched and it does not matter which sampling call the code uses.
LineFault -- raises an exception at the k-th executed source line of mentpy.
Threads   -- real threads, parked and released one at a time at mentpy source
             lines; a seeded scheduler decides who runs.
HashLabel -- node names whose hash (hence set/dict-of-set iteration order) is
             chosen by the simulator.
"""
import os
import random
import sys
import threading

import numpy as np

from . import env
from .core import sub

SRC = env.SRC
M32 = 0xFFFFFFFF


# ------------------------------------------------------------------ entropy
def _unshift_right(y, s):
    x = y
    for _ in range(32 // s + 1):
        x = y ^ (x >> s)
    return x & M32


def _unshift_left(y, s, m):
    x = y
    for _ in range(32 // s + 1):
        x = y ^ ((x << s) & m)
    return x & M32


def untemper(y):
    y = _unshift_right(y, 18)
    y = _unshift_left(y, 15, 0xEFC60000)
    y = _unshift_left(y, 7, 0x9D2C5680)
    y = _unshift_right(y, 11)
    return y & M32


def u2words(u):
    """The two words from which numpy/Python build the double u (53 bits)."""
    k = int(u * 9007199254740992)
    k = max(0, min(k, 9007199254740991))
    a, b = k >> 26, k & ((1 << 26) - 1)
    return [(a << 5) & M32, (b << 6) & M32]


def install_words(words, rng):
    """Both global generators emit `words` first and then a seeded stream."""
    words = list(words)[:560]
    key = [untemper(w) for w in words]
    key += [rng.getrandbits(32) for _ in range(624 - len(key))]
    np.random.set_state(("MT19937", np.array(key, dtype=np.uint32), 0))
    random.setstate((3, tuple(key) + (0,), None))


def entropy(seed, profile="seeded", n=0):
    """profile: seeded | low | high | mixed | burst | a list of doubles."""
    rng = sub(seed, "entropy")
    if profile == "seeded":
        s = rng.getrandbits(32)
        np.random.seed(s)
        random.seed(s)
        return
    words = []
    if profile == "burst":
        # a run of extreme doubles somewhere in an ordinary stream
        words = [rng.getrandbits(32) for _ in range(rng.randint(0, 180))]
        u = rng.choice([0.0, 0.0, 2 ** -53, 1 - 2 ** -53])
        for _ in range(rng.randint(1, 40)):
            words += u2words(u)
    elif isinstance(profile, (list, tuple)):
        for u in profile:
            words += u2words(u)
    else:
        for _ in range(n or 40):
            k = profile if profile != "mixed" else rng.choice(["low", "high", "rnd"])
            if k == "low":
                words += u2words(rng.choice([0.0, 0.0, 2 ** -53, 1e-12, 1e-6]))
            elif k == "high":
                words += u2words(rng.choice([1 - 2 ** -53, 1 - 2 ** -52, 1 - 1e-12, 1 - 1e-6]))
            else:
                words += [rng.getrandbits(32), rng.getrandbits(32)]
    install_words(words, rng)


def rng_fingerprint():
    a = np.random.get_state()
    return (a[1].tobytes(), a[2], a[3], a[4], random.getstate())


# ------------------------------------------------------------------ faults
class Injected(Exception):
    """Marker mixed into injected exceptions so that they are recognisable."""


class InjectedInterrupt(KeyboardInterrupt):
    pass


class InjectedMemoryError(MemoryError):
    pass


class InjectedError(RuntimeError):
    pass


FAULTS = {"interrupt": InjectedInterrupt, "memory": InjectedMemoryError}


def _is_src(frame):
    fn = frame.f_code.co_filename
    return fn.startswith(SRC)


class LineFault:
    """Raise FAULTS[kind] at the k-th mentpy line executed inside the block.
    With k=None only counts."""

    def __init__(self, k=None, kind="interrupt"):
        self.k = k
        self.kind = kind
        self.count = 0
        self.fired = None

    def _local(self, frame, event, arg):
        if event == "line":
            self.count += 1
            if self.k is not None and self.fired is None and self.count >= self.k:
                self.fired = (os.path.relpath(frame.f_code.co_filename, SRC), frame.f_code.co_name)
                raise FAULTS[self.kind]("injected")
        return self._local

    def _global(self, frame, event, arg):
        if _is_src(frame):
            return self._local
        return None

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self._old)
        return False


class LineBudget(LineFault):
    """Deterministic watchdog: too many source lines means no progress."""

    def __init__(self, budget):
        super().__init__(None)
        self.budget = budget

    def _local(self, frame, event, arg):
        if event == "line":
            self.count += 1
            if self.count > self.budget:
                raise BudgetExceeded(f"more than {self.budget} source lines")
        return self._local


class BudgetExceeded(BaseException):
    pass


# ------------------------------------------------------------------ threads
class Scheduler:
    """Runs thunks in real threads, exactly one at a time.  A thread may be
    switched at every executed mentpy source line.

    how: ["rand", p]       switch with probability p at every line
         ["step"]          round robin, one line each
         ["pct", d, span]  d preemption points among the first `span` lines of each thread
         ["points", [[thread, line, next], ...]]   explicit (replay); line -1 is the
                           thread's end, thread -1 the start

    Every thread has its own stream of the two global random generators
    (installed when it is given control), so that drawing is deterministic per
    thread."""

    MAXLINES = 3_000_000

    def __init__(self, thunks, rng, how=("rand", 0.02), max_switches=1500, streams=None):
        self.thunks = thunks
        self.rng = rng
        self.how = list(how)
        self.max_switches = max_switches
        n = len(thunks)
        self.results = [None] * n
        self.gates = [threading.Semaphore(0) for _ in thunks]
        self.done = [False] * n
        self.main = threading.Semaphore(0)
        self.cur = None
        self.trace = []  # [thread, its line count, next thread]
        self.lines = 0
        self.local = [0] * n
        self.nswitch = 0
        self.blocked = 0
        self.failed = None
        self.streams = streams  # per-thread generator states
        if self.how[0] == "points":
            self.points = {(a, b): c for a, b, c in self.how[1]}
        elif self.how[0] == "pct":
            self.points = {}
            for i in range(n):
                for _ in range(self.how[1]):
                    self.points[(i, 1 + rng.randrange(self.how[2]))] = None

    def _next(self, me):
        """Thread to run after this line of `me`, or None to go on."""
        k = self.how[0]
        if k == "points":
            nxt = self.points.get((me, self.local[me]))
            return nxt if nxt is not None and nxt < len(self.done) and not self.done[nxt] and nxt != me else None
        if self.nswitch >= self.max_switches:
            return None
        if k == "pct":
            if (me, self.local[me]) not in self.points:
                return None
        elif k == "rand" and self.rng.random() >= self.how[1]:
            return None
        live = [i for i, d in enumerate(self.done) if not d and i != me]
        if not live:
            return None
        if k == "step":
            return min(live, key=lambda i: (i - me) % len(self.done))
        return self.rng.choice(live)

    def _hand(self, me, nxt):
        if self.streams is not None:
            if me is not None:
                self.streams[me] = (np.random.get_state(), random.getstate())
            np.random.set_state(self.streams[nxt][0])
            random.setstate(self.streams[nxt][1])
        self.cur = nxt
        self.gates[nxt].release()

    @staticmethod
    def _parkable(frame):
        """Never park inside a frame called back from PennyLane: its tape queue
        holds a process-wide lock."""
        f = frame.f_back
        while f is not None:
            if "pennylane" in f.f_code.co_filename and SRC not in f.f_code.co_filename:
                return False
            f = f.f_back
        return True

    def _line(self, me, frame):
        self.lines += 1
        self.local[me] += 1
        if self.lines > self.MAXLINES:
            self.failed = "no-progress"
            raise BudgetExceeded(f"more than {self.MAXLINES} source lines")
        nxt = self._next(me)
        if nxt is None or not self._parkable(frame):
            return
        self.blocked = 0
        self.nswitch += 1
        self.trace.append([me, self.local[me], nxt])
        self._hand(me, nxt)
        self.gates[me].acquire()

    def _blocked(self):
        """Called by a scheduled thread that found a lock of mentpy taken."""
        me = self.cur
        live = [i for i, d in enumerate(self.done) if not d and i != me]
        self.blocked += 1
        if not live or self.blocked > 2000:
            self.failed = "deadlock"
            raise BudgetExceeded("deadlock: every thread waits for a lock")
        nxt = live[self.blocked % len(live)]
        self._hand(me, nxt)
        self.gates[me].acquire()
        return True

    def _tracer(self, me):
        def local(frame, event, arg):
            if event == "line":
                self._line(me, frame)
            return local

        def glob(frame, event, arg):
            if _is_src(frame):
                return local
            return None

        return glob

    def _body(self, i):
        self.gates[i].acquire()
        sys.settrace(self._tracer(i))
        try:
            self.results[i] = ("ok", self.thunks[i]())
        except Exception as e:  # noqa: BLE001
            self.results[i] = ("err", f"{type(e).__name__}: {e}")
        except BudgetExceeded as e:
            self.results[i] = ("stuck", str(e))
        finally:
            sys.settrace(None)
            self.done[i] = True
            self.blocked = 0
            live = [j for j, d in enumerate(self.done) if not d]
            if live:
                nxt = self.points.get((i, -1)) if self.how[0] == "points" else self.rng.choice(live)
                if nxt not in live:
                    nxt = live[0]
                self.trace.append([i, -1, nxt])
                self._hand(None if self.streams is None else i, nxt)
            else:
                self.main.release()

    def run(self):
        ts = [threading.Thread(target=self._body, args=(i,), daemon=True)
              for i in range(len(self.thunks))]
        old, env.BLOCKED = env.BLOCKED, self._blocked
        try:
            for t in ts:
                t.start()
            first = self.points.get((-1, 0), 0) if self.how[0] == "points" else self.rng.randrange(len(ts))
            if not 0 <= first < len(ts):
                first = 0
            self.trace.append([-1, 0, first])
            self._hand(None, first)
            self.main.acquire()
            for t in ts:
                t.join()
        finally:
            env.BLOCKED = old
        return self.results


# ------------------------------------------------------------------ hashing
class HashLabel:
    """A node name.  Ordered by `pos`; its hash is chosen by the simulator."""

    __slots__ = ("pos", "h")

    def __init__(self, pos, h):
        self.pos = pos
        self.h = h

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, HashLabel) and self.pos == o.pos

    def __lt__(self, o):
        return self.pos < o.pos

    def __gt__(self, o):
        return self.pos > o.pos

    def __le__(self, o):
        return self.pos <= o.pos

    def __ge__(self, o):
        return self.pos >= o.pos

    def __repr__(self):
        return f"<{self.pos}>"
