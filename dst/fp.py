"""Plain-data views of objects of the code under test."""
from . import env

np, mp = env.np, env.mp


def ment(m):
    if m is None:
        return None
    if isinstance(m, mp.ControlMent):
        c = m.condition
        return ["control", ment_plain(m._true_ment), [m._plane, _num(m._angle)],
                sorted(map(str, getattr(c, "cond_nodes", ())))]
    return ment_plain(m)


def ment_plain(m):
    return [m.plane, _num(m.angle)]


def _num(x):
    if isinstance(x, (tuple, list)):
        return [_num(y) for y in x]
    return None if x is None else round(float(x), 12)


def circuit(c, order=True):
    """Everything observable about a circuit."""
    nodes = list(c.graph.nodes)
    outs = set(c.output_nodes)
    d = {
        "nodes": [str(v) for v in nodes],
        "edges": sorted(sorted((str(a), str(b))) for a, b in c.graph.edges),
        "inputs": [str(v) for v in c.input_nodes],
        "outputs": [str(v) for v in c.output_nodes],
        "measurements": {str(v): ment(m) for v, m in c.measurements.items()},
        "trainable": [str(v) for v in c.trainable_nodes],
        "controlled": [str(v) for v in c.controlled_nodes],
        "quantum_outputs": [str(v) for v in c.quantum_output_nodes],
        "classical_outputs": [str(v) for v in c.classical_output_nodes],
        "planes": {str(v): str(p) for v, p in c.planes.items()},
        "length": len(c),
        "outputc": [str(v) for v in c.outputc],
        "inputc": [str(v) for v in c.inputc],
    }
    if c.flow is None:
        d["flow"] = None
        d["partial_order"] = None
    else:
        d["flow"] = {str(v): str(c.flow(v)) for v in nodes if v not in outs}
        d["partial_order"] = sorted([str(a), str(b)] for a in nodes for b in nodes
                                    if a != b and c.partial_order(a, b))
    d["measurement_order"] = None if c.measurement_order is None else [str(v) for v in c.measurement_order]
    if "gflow" in c.__dict__:
        d["depth"] = c.depth
        lay = c.ordered_layers()
        d["layers"] = None if lay is None else [sorted(str(v) for v in l) for l in lay]
    return d


def diff(a, b):
    """First difference between two fingerprints, as text."""
    for k in a:
        if a[k] != b.get(k):
            return f"{k}: {a[k]} != {b.get(k)}"
    for k in b:
        if k not in a:
            return f"{k} appeared"
    return ""
