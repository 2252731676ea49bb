"""Driving simulators of the code under test."""
from . import env, gen, ref
from .core import Skip, Violation

np, mp = env.np, env.mp


def angle_vec(c, sp, angles, tab=None):
    """Angle vector in the order in which the circuit asks for it."""
    inv = {gen.label(sp, i): i for i in range(sp["n"])}
    tab = gen.table(sp) if tab is None else tab
    return [gen.free(tab[inv[v]], angles[inv[v]]) if tab[inv[v]] is not None else angles[inv[v]] for v in c.trainable_nodes]


def check_trainables(c, sp, tab=None):
    """The circuit asks for exactly the free angles of its table."""
    tab = tab or gen.table(sp)
    want = {gen.label(sp, v) for v in tab if gen.trainable(tab[v])}
    if set(c.trainable_nodes) != want or len(c.trainable_nodes) != len(want):
        raise Violation("trainable-nodes", f"{c.trainable_nodes} but the measurements leave {sorted(want, key=str)} free")


def make(c, sp, psi, backend, window=None, schedule=None, **kw):
    if window is not None:
        kw["window_size"] = window
    if schedule is not None:
        kw["schedule"] = [gen.label(sp, i) for i in schedule]
    return mp.PatternSimulator(c, psi, backend=backend, **kw)


def wires(sp):
    """The wires of a circuit whose node names increase along every wire, or None."""
    f = ref.causal_flow(range(sp["n"]), sp["edges"], sp["ins"], sp["outs"])
    if f is None:
        return None
    out = []
    for v in sp["ins"]:
        w = [v]
        while w[-1] in f[0]:
            w.append(f[0][w[-1]])
        out.append([gen.label(sp, u) for u in w])
    if any(a >= b for w in out for a, b in zip(w, w[1:])) or sum(map(len, out)) != sp["n"]:
        return None
    return out


def schedule_used(c, sp, schedule):
    """Measurement order of a run, as positions (measured nodes only)."""
    inv = {gen.label(sp, i): i for i in range(sp["n"])}
    tab = gen.table(sp)
    order = schedule if schedule is not None else [inv[v] for v in c.measurement_order]
    return [v for v in order if tab[v] is not None]


def check_record(rec, tab, mode="sample"):
    measured = {v for v in tab if tab[v] is not None}
    if set(rec) != measured:
        raise Violation("record-incomplete", f"recorded {sorted(rec)}, measured {sorted(measured)}")
    for v, o in rec.items():
        if mode == "sample" and o not in (0, 1):
            raise Violation("record-value", f"outcome of node {v} is {o!r}")


def check_born(p0, rec, tab, strict=True, force0=True):
    """Every recorded outcome can occur; non-Z outcomes are post-selected on 0."""
    for v, p in p0.items():
        po = p if rec[v] == 0 else 1 - p
        if po < 1e-9:
            raise Violation("impossible-outcome", f"node {v} recorded {rec[v]}, which has probability {po:.2g}")
    if not force0:
        return


def check_postselect(p0, rec, tab, planes):
    for v, p in p0.items():
        if planes[v] != "Z" and rec[v] == 1 and p > 1e-3:
            raise Violation("not-postselected", f"node {v} ({planes[v]}) recorded 1 although 0 has probability {p:.4g}")
