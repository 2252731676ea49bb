"""Independent reference models.  Nothing in this file imports mentpy.

* QState            -- a dense state-vector register addressed by node label.
* measurement axes  -- Bloch directions of the measurement planes.
* zero_branch / run_branch -- evaluation of a measurement pattern for a given
  record of measurement outcomes.
* causal_flow       -- the textbook maximally-delayed causal-flow algorithm.
"""
import itertools
import math

import numpy as np

I2 = np.eye(2, dtype=complex)
X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]], dtype=complex)
Z = np.array([[1, 0], [0, -1]], dtype=complex)
H = np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2)
PLUS = np.array([1, 1], dtype=complex) / math.sqrt(2)


def bloch(plane, angle):
    if plane == "X":
        return (1.0, 0.0, 0.0)
    if plane == "Y":
        return (0.0, 1.0, 0.0)
    if plane == "Z":
        return (0.0, 0.0, 1.0)
    if plane == "XYZ":
        a, b = angle
        return (math.cos(a) * math.cos(b), math.sin(a) * math.cos(b), math.sin(b))
    c, s = math.cos(angle), math.sin(angle)
    if plane == "XY":
        return (c, s, 0.0)
    if plane == "XZ":
        return (c, 0.0, s)
    if plane == "YZ":
        return (0.0, c, s)
    raise ValueError(plane)


def observable(plane, angle):
    x, y, z = bloch(plane, angle)
    return x * X + y * Y + z * Z


def eigvec(plane, angle, outcome):
    """Unit vector of the (+1 if outcome==0 else -1) eigenspace."""
    x, y, z = bloch(plane, angle)
    if outcome:
        x, y, z = -x, -y, -z
    # |v><v| = (1 + x X + y Y + z Z)/2
    if z > -0.5:
        v = np.array([1 + z, x + 1j * y])
    else:
        v = np.array([x - 1j * y, 1 - z])
    return v / np.linalg.norm(v)


class QState:
    """Dense register of labelled qubits; axis k of the tensor is self.labels[k]."""

    def __init__(self):
        self.labels = []
        self.t = np.ones((), dtype=complex)

    def copy(self):
        o = QState()
        o.labels = list(self.labels)
        o.t = self.t.copy()
        return o

    def add(self, labels, vec):
        vec = np.asarray(vec, dtype=complex).reshape((2,) * len(labels))
        self.t = np.multiply.outer(self.t, vec)
        self.labels += list(labels)

    def gate1(self, u, a):
        k = self.labels.index(a)
        self.t = np.moveaxis(np.tensordot(u, self.t, axes=(1, k)), 0, k)

    def cz(self, a, b):
        i, j = self.labels.index(a), self.labels.index(b)
        sl = [slice(None)] * len(self.labels)
        sl[i] = 1
        sl[j] = 1
        self.t = self.t.copy()
        self.t[tuple(sl)] *= -1

    def project(self, a, vec):
        """Contract qubit a with <vec|; returns branch probability; renormalises."""
        k = self.labels.index(a)
        n0 = float(np.sum(np.abs(self.t) ** 2))
        t = np.tensordot(np.conj(vec), self.t, axes=(0, k))
        p = float(np.sum(np.abs(t) ** 2)) / n0 if n0 > 0 else 0.0
        self.labels.pop(k)
        n = math.sqrt(float(np.sum(np.abs(t) ** 2)))
        self.t = t / n if n > 0 else t
        return p

    def prob(self, a, vec):
        k = self.labels.index(a)
        t = np.tensordot(np.conj(vec), self.t, axes=(0, k))
        return float(np.sum(np.abs(t) ** 2)) / float(np.sum(np.abs(self.t) ** 2))

    def vector(self, order):
        assert set(order) == set(self.labels), (order, self.labels)
        perm = [self.labels.index(x) for x in order]
        v = self.t.transpose(perm).reshape(-1)
        return v / np.linalg.norm(v)

    def density(self, order):
        """Reduced density matrix of the listed qubits, in that order."""
        rest = [x for x in self.labels if x not in order]
        perm = [self.labels.index(x) for x in list(order) + rest]
        m = self.t.transpose(perm).reshape(2 ** len(order), -1)
        rho = m @ m.conj().T
        return rho / np.trace(rho)


def graph_register(nodes, edges, inputs, psi):
    """Input state on the inputs, |+> elsewhere, CZ on every edge."""
    q = QState()
    q.add(list(inputs), psi)
    for n in nodes:
        if n not in inputs:
            q.add([n], PLUS)
    for a, b in edges:
        q.cz(a, b)
    return q


# --------------------------------------------------------------------------
# causal flow: the naive maximally delayed algorithm, on plain Python data
# --------------------------------------------------------------------------


def causal_flow(nodes, edges, inputs, outputs):
    """Returns (f, layer) or None.  Layer 0 = outputs, larger = measured earlier."""
    nodes = list(nodes)
    adj = {v: set() for v in nodes}
    for a, b in edges:
        if a != b:
            adj[a].add(b)
            adj[b].add(a)
    solved = set(outputs)
    used = set()
    f, layer = {}, {v: 0 for v in outputs}
    k = 0
    while True:
        k += 1
        new = {}
        for v in solved:
            if v in inputs or v in used:
                continue
            un = [u for u in adj[v] if u not in solved]
            if len(un) == 1 and un[0] not in new:
                new[un[0]] = v
        if not new:
            break
        for u, v in new.items():
            f[u] = v
            layer[u] = k
            used.add(v)
        solved |= set(new)
    if len(solved) != len(nodes):
        return None
    return f, layer


def is_causal_flow(nodes, edges, inputs, outputs, f):
    """Definition check: f injective into non-inputs, u~f(u), and the induced
    relation u<f(u), u<w for w in N(f(u))\\{u} is acyclic."""
    adj = {v: set() for v in nodes}
    for a, b in edges:
        adj[a].add(b)
        adj[b].add(a)
    dom = [v for v in nodes if v not in outputs]
    if set(f) != set(dom):
        return False
    if len(set(f.values())) != len(f):
        return False
    succ = {v: set() for v in nodes}
    for u in dom:
        v = f[u]
        if v in inputs or v not in adj[u]:
            return False
        succ[u].add(v)
        succ[u] |= adj[v] - {u}
    return topo_ok(nodes, succ)


def topo_ok(nodes, succ):
    indeg = {v: 0 for v in nodes}
    for u in nodes:
        for w in succ[u]:
            indeg[w] += 1
    st = [v for v in nodes if indeg[v] == 0]
    n = 0
    while st:
        u = st.pop()
        n += 1
        for w in succ[u]:
            indeg[w] -= 1
            if indeg[w] == 0:
                st.append(w)
    return n == len(nodes)


def flow_constraints(nodes, edges, f):
    """Set of ordered pairs (a, b): a must be measured before b."""
    adj = {v: set() for v in nodes}
    for a, b in edges:
        adj[a].add(b)
        adj[b].add(a)
    out = set()
    for u, v in f.items():
        out.add((u, v))
        for w in adj[v] - {u}:
            out.add((u, w))
    return out


# --------------------------------------------------------------------------
# generalised flow (XY plane): maximally delayed layering over GF(2)
# --------------------------------------------------------------------------


def _solvable(rows, nvars):
    """rows: ints, bit 0 is the right-hand side, bits 1..nvars the unknowns."""
    rows = list(rows)
    n = 0
    for bit in range(nvars, 0, -1):
        p = next((i for i in range(n, len(rows)) if rows[i] >> bit & 1), None)
        if p is None:
            continue
        rows[n], rows[p] = rows[p], rows[n]
        for i in range(len(rows)):
            if i != n and rows[i] >> bit & 1:
                rows[i] ^= rows[n]
        n += 1
    return all(r != 1 for r in rows[n:])


def gflow(nodes, edges, inputs, outputs):
    """Layer of each node in the maximally delayed gflow, or None."""
    nodes = list(nodes)
    adj = {v: set() for v in nodes}
    for a, b in edges:
        adj[a].add(b)
        adj[b].add(a)
    layer = {v: 0 for v in outputs}
    k = 0
    while len(layer) < len(nodes):
        k += 1
        un = [v for v in nodes if v not in layer]
        cols = [v for v in layer if v not in inputs]
        base = []
        for v in un:
            x = 0
            for j, c in enumerate(cols):
                if c in adj[v]:
                    x |= 1 << (j + 1)
            base.append(x)
        new = [u for i, u in enumerate(un)
               if _solvable([b | (1 if j == i else 0) for j, b in enumerate(base)], len(cols))]
        if not new:
            return None
        for u in new:
            layer[u] = k
    return layer
