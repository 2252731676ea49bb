"""Checks the simulator itself: seams work and the reference model is consistent."""
import random

from . import core, gen, ref, seams
from .env import mp, np


def main():
    """Seams and reference are checked; what runs the code under test is reported
    but left to the checks, which are the ones that judge it."""
    seams_and_reference()
    try:
        code_under_test()
    except Exception as e:  # noqa: BLE001
        print(f"selftest: the code under test fails: {type(e).__name__}: {e}")
    print("selftest ok")
    return 0


def seams_and_reference():
    # entropy: installed words come out of both generators
    us = [0.0, 0.25, 1 - 2 ** -53, 0.7000000001]
    seams.entropy(1, us)
    assert all(abs(np.random.random_sample() - u) < 1e-15 for u in us)
    seams.entropy(1, us)
    assert all(abs(random.random() - u) < 1e-15 for u in us)
    # reference: eigenvectors and teleportation
    rng = random.Random(0)
    for pl in ("X", "Y", "Z", "XY", "XZ", "YZ"):
        a = rng.uniform(-3, 3)
        for o in (0, 1):
            v = ref.eigvec(pl, a, o)
            assert np.allclose(ref.observable(pl, a) @ v, (-1) ** o * v)
    q = ref.graph_register([0, 1, 2], [(0, 1), (1, 2)], [0], np.array([0.6, 0.8j]))
    q.project(0, ref.eigvec("XY", 0, 0))
    q.project(1, ref.eigvec("XY", 0, 0))
    assert np.allclose(np.abs(q.vector([2])), [0.6, 0.8])


def code_under_test():
    # a line fault fires inside the code under test
    g = mp.templates.linear_cluster(3)
    with seams.LineFault() as f:
        mp.PatternSimulator(g, backend="numpy-sv")
    assert f.count > 20
    try:
        with seams.LineFault(10) as f:
            mp.PatternSimulator(g, backend="numpy-sv")
        raise AssertionError("fault did not fire")
    except seams.InjectedInterrupt:
        pass
    # threads: the schedule decides and repeats
    runs = []
    for _ in range(2):
        s = seams.Scheduler([lambda: mp.templates.linear_cluster(4).depth] * 3, core.sub(3, "t"), ["rand", 0.2])
        runs.append((s.run(), s.trace))
    assert runs[0] == runs[1] and len(runs[0][1]) > 5
