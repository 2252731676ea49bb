"""Violation, run context and the single source of randomness."""
import hashlib
import json
import random


class Violation(Exception):
    """The property is broken.  kind is the violation class kept while shrinking."""

    def __init__(self, kind, msg="", sig=None, patch=None):
        super().__init__(f"{kind}: {msg}")
        self.patch = patch  # scenario fields that pin the schedule that failed
        self.kind = kind
        self.msg = msg
        self.sig = sig


class Skip(Exception):
    """The scenario does not apply (counted, never silently)."""


def sub(seed, *names):
    """An independent generator for (seed, names); one integer decides everything."""
    h = hashlib.sha256(json.dumps([seed] + list(names)).encode()).digest()
    return random.Random(int.from_bytes(h[:16], "big"))


def digest(obj):
    return hashlib.sha256(
        json.dumps(obj, sort_keys=True, default=str).encode()
    ).hexdigest()[:16]


class Ctx:
    """What one simulated run reports."""

    def __init__(self):
        self.faults = {}
        self.probes = {}
        self.steps = 0
        self.states = set()
        self.log = hashlib.sha256()
        self.events = 0
        self.nontrivial = False
        self.trace = None  # list when verbose
        self.values = {}  # additive numeric observations

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.nontrivial = True

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def step(self, n=1):
        self.steps += n

    def state(self, obj):
        """Registers a distinct interleaving / outcome record / state."""
        self.states.add(digest(obj))

    def add(self, name, x):
        self.values[name] = self.values.get(name, 0.0) + x

    def event(self, *what):
        self.events += 1
        s = json.dumps(what, default=str)
        self.log.update(s.encode())
        if self.trace is not None:
            self.trace.append(what)

    def result(self):
        return {
            "faults": self.faults,
            "probes": self.probes,
            "steps": self.steps,
            "states": sorted(self.states),
            "log": self.log.hexdigest()[:16],
            "nontrivial": self.nontrivial,
            "values": self.values,
        }
