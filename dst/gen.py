"""Scenario ingredients: circuits, inputs, angles -- as JSON, built from a seeded
generator -- and their construction with the code under test.

A circuit spec uses positions 0..n-1 for the nodes:
  n, nodes (insertion order), edges (order and orientation), ins, outs,
  ments: list of [node, ment] (dictionary order; nodes may be missing) or null,
  style: how positions are named for the constructor ("int", "gap", "str"),
  relabel: whether the constructor renames the nodes to positions.
A ment is null, [plane, angle|null] or {"cond":..., "t":[plane, angle], "f":[plane, angle]}.
A condition is true/false, ["o", node], ["not", c], ["k", op, c, number] or [op, c1, c2].
"""
import math
import operator

from . import env, ref
from .core import Skip

np, mp = env.np, env.mp

PI = math.pi


# ------------------------------------------------------------------ graphs
def wires_graph(rng, nmax, wmax=3, extra=6):
    """Random graph with causal flow on positions in wire order."""
    w = rng.choice([1, 1, 2, 2, 2, 3, 3, 4][: 2 + 2 * wmax]) if wmax > 1 else 1
    w = min(w, wmax, max(1, nmax // 2))
    if rng.random() < 0.03 and nmax > 1:
        return idle_graph(rng, rng.randint(2, min(3, nmax)))
    lens = [2] * w
    if rng.random() < 0.15:
        lens[rng.randrange(w)] = 1
    budget = nmax - sum(lens)
    grow = rng.randint(0, max(0, budget))
    for _ in range(grow):
        lens[rng.randrange(w)] += 1
    if sum(lens) < 2:
        lens[0] = 2
    edges, wires, n = [], [], 0
    for l in lens:
        ws = list(range(n, n + l))
        wires.append(ws)
        edges += list(zip(ws, ws[1:]))
        n += l
    ins = [x[0] for x in wires]
    outs = [x[-1] for x in wires]
    have = {frozenset(e) for e in edges}
    for _ in range(rng.randint(0, extra)):
        if n < 3:
            break
        a, b = rng.sample(range(n), 2)
        if frozenset((a, b)) in have:
            continue
        if ref.causal_flow(range(n), edges + [(a, b)], ins, outs):
            edges.append((a, b))
            have.add(frozenset((a, b)))
    return n, edges, ins, outs


def idle_graph(rng, n):
    """All nodes are inputs and outputs at once."""
    edges = [(a, b) for a in range(n) for b in range(a + 1, n) if rng.random() < 0.4]
    return n, edges, list(range(n)), list(range(n))


def random_graph(rng, nmax, equal=True):
    n = rng.randint(2, nmax)
    p = rng.choice([0.25, 0.4, 0.6, 0.9])
    edges = [(a, b) for a in range(n) for b in range(a + 1, n) if rng.random() < p]
    if not edges:
        edges = [(0, 1)]
    k = rng.randint(1, max(1, min(3, n - 1)))
    ins = rng.sample(range(n), k)
    outs = rng.sample(range(n), k if equal else rng.randint(1, min(3, n)))
    return n, edges, ins, outs


def disguise(rng, n, edges, ins, outs, permute_ids=None, permute_io=None):
    """Renames positions and shuffles insertion order and orientation."""
    if permute_ids is None:
        permute_ids = rng.random() < 0.5
    if permute_io is None:
        permute_io = rng.random() < 0.5
    perm = list(range(n))
    if permute_ids:
        rng.shuffle(perm)
    edges = [(perm[a], perm[b]) for a, b in edges]
    ins, outs = [perm[a] for a in ins], [perm[a] for a in outs]
    if permute_io:
        rng.shuffle(ins)
        if rng.random() < 0.7:
            rng.shuffle(outs)
    nodes = list(range(n))
    m = rng.random()
    if m < 0.4:
        rng.shuffle(nodes)
        rng.shuffle(edges)
        edges = [(b, a) if rng.random() < 0.5 else (a, b) for a, b in edges]
    elif m < 0.6:
        edges = [(b, a) if rng.random() < 0.5 else (a, b) for a, b in edges]
    return {"n": n, "nodes": nodes, "edges": [list(e) for e in edges], "ins": ins, "outs": outs,
            "ments": None, "style": "int", "relabel": True}


# ------------------------------------------------------------------ measurements
def angle(rng):
    m = rng.random()
    if m < 0.25:
        return rng.choice([0.0, PI / 4, PI / 2, PI, -PI / 2, 3 * PI / 4, -PI / 4])
    if m < 0.3:
        return rng.choice([1e-3, -1e-3, 2 * PI, 7.5, -9.25])
    if m < 0.36:
        return round(rng.choice([rng.randint(-16, 16) * PI / 8, rng.uniform(-20, 20), rng.uniform(PI, 2 * PI)]), 9)
    return round(rng.uniform(-PI, PI), 6)


XYMIX = (("XY*", 6), ("XY", 2), ("X", 1), ("Y", 1))
FULLMIX = (("XY*", 4), ("XY", 2), ("X", 1), ("Y", 1), ("Z", 2), ("XZ", 1), ("XZ*", 1), ("YZ", 1), ("YZ*", 1))

XYZMIX = FULLMIX + (("XYZ", 2), ("XYZ*", 2))


def ment(rng, mix=XYMIX):
    names = [m for m, w in mix for _ in range(w)]
    m = rng.choice(names)
    if m.endswith("*"):
        return [m[:-1], None]
    if m in ("X", "Y", "Z"):
        return [m, None]
    if m == "XYZ":
        return [m, [angle(rng), angle(rng)]]
    return [m, angle(rng)]


def free(m, a):
    """The value handed over for a free angle drawn as the number a."""
    if isinstance(m, dict):
        m = m["t"] if trainable(m["t"]) else m["f"]
    return (a, 0.2 - 0.7 * a) if m[0] == "XYZ" else a


def add_ments(rng, sp, mix=XYMIX, measured_outputs=0.0, table=None):
    """Fills sp["ments"]; table None: random choice between default and explicit."""
    mixes = mix
    table = rng.random() < 0.7 if table is None else table
    if not table:
        return sp
    order = list(range(sp["n"]))
    if rng.random() < 0.6:
        rng.shuffle(order)
    out = []
    for v in order:
        if v in sp["outs"]:
            if rng.random() < measured_outputs:
                out.append([v, ment(rng, mixes)])
            elif rng.random() < 0.5:
                out.append([v, None])
        elif rng.random() < 0.8:
            out.append([v, ment(rng, mixes)])
    sp["ments"] = out
    return sp


def flow_spec(rng, nmax=8, wmax=3, mix=XYMIX, measured_outputs=0.0, extra=6, **kw):
    return add_ments(rng, disguise(rng, *wires_graph(rng, nmax, wmax, extra), **kw), mix, measured_outputs)


def any_spec(rng, nmax=7, mix=XYMIX, measured_outputs=0.0):
    return add_ments(rng, disguise(rng, *random_graph(rng, nmax)), mix, measured_outputs)


# ------------------------------------------------------------------ the model's view
def table(sp):
    """node -> ment spec, with the constructor's documented defaults filled in."""
    given = {v: m for v, m in (sp["ments"] or [])}
    return {v: given.get(v, None if v in sp["outs"] else ["XY", None]) for v in range(sp["n"])}


def trainable(m):
    if m is None:
        return False
    if isinstance(m, dict):
        return trainable(m["t"]) or trainable(m["f"])
    return m[0] in ("XY", "XZ", "YZ", "XYZ") and m[1] is None


def cond_nodes(c):
    if isinstance(c, bool):
        return set()
    if c[0] == "o":
        return {c[1]}
    if c[0] == "k":
        return cond_nodes(c[2])
    return set().union(*[cond_nodes(x) for x in c[1:]])


def cond_eval(c, rec):
    """Python semantics of the documented outcome algebra, values reduced mod 2."""
    if isinstance(c, bool):
        return c
    if c[0] == "o":
        return bool(rec[c[1]])
    if c[0] == "not":
        return not cond_eval(c[1], rec)
    if c[0] == "k":
        return bool(BIN[c[1]](int(cond_eval(c[2], rec)), c[3]) % 2)
    a, b = cond_eval(c[1], rec), cond_eval(c[2], rec)
    return {"xor": a ^ b, "add": (a + b) % 2 == 1, "sub": (a - b) % 2 == 1, "mul": a and b,
            "and": a and b, "or": a or b, "eq": a == b, "ne": a != b, "lt": a < b,
            "le": a <= b, "gt": a > b, "ge": a >= b, "pow": a or not b}[c[0]]


BIN = {"xor": operator.xor, "add": operator.add, "sub": operator.sub, "mul": operator.mul, "and": operator.and_, "or": operator.or_,
       "eq": operator.eq, "ne": operator.ne, "lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge,
       "pow": operator.pow, "mod": operator.mod, "floordiv": operator.floordiv}


def cond(rng, nodes, depth=2):
    """Random condition reading some of `nodes`."""
    nodes = list(nodes)
    if not nodes or rng.random() < 0.04:
        return rng.random() < 0.5
    if depth == 0 or rng.random() < 0.4:
        c = ["o", rng.choice(nodes)]
        return ["not", c] if rng.random() < 0.25 else c
    if rng.random() < 0.12:  # with a number
        op = rng.choice(["add", "sub", "mul", "eq", "ne", "lt", "le", "gt", "ge", "pow", "mod", "floordiv"])
        k = rng.randint(1, 3) if op in ("mod", "floordiv") else rng.randint(0, 3) if op == "pow" else rng.randint(-2, 3)
        a = cond(rng, nodes, depth - 1)
        return a if isinstance(a, bool) else ["k", op, a, k]
    if rng.random() < 0.06:  # long chain
        c = ["o", rng.choice(nodes)]
        for _ in range(rng.randint(2, 7)):
            c = [rng.choice(["xor", "xor", "add", "and", "or"]), c, ["o", rng.choice(nodes)]]
        return c
    op = rng.choice(["xor", "xor", "add", "sub", "mul", "and", "or", "eq", "ne", "lt", "le", "gt", "ge", "pow"])
    a, b = cond(rng, nodes, depth - 1), cond(rng, nodes, depth - 1)
    if isinstance(a, bool) or isinstance(b, bool):
        op = rng.choice(["xor", "add", "mul", "and", "or", "eq", "ne"])
        if isinstance(a, bool) and isinstance(b, bool):
            return a
    c = [op, a, b]
    return ["not", c] if rng.random() < 0.15 else c


def cond_map(c, mapping):
    if isinstance(c, bool):
        return c
    if c[0] == "o":
        return ["o", mapping[c[1]]]
    if c[0] == "k":
        return c[:2] + [cond_map(c[2], mapping), c[3]]
    return [c[0]] + [cond_map(x, mapping) for x in c[1:]]


def setting(m, ang, rec=None):
    """(plane, angle) of the measurement actually performed."""
    if isinstance(m, dict):
        m = m["t"] if cond_eval(m["cond"], rec or {}) else m["f"]
    return m[0], (free(m, ang) if trainable(m) else (m[1] or 0.0))


def reference(sp, angles, psi, tab=None):
    """Register before any measurement."""
    return ref.graph_register(range(sp["n"]), sp["edges"], sp["ins"], psi)


def qouts(sp, tab=None):
    tab = tab or table(sp)
    return [v for v in sp["outs"] if tab[v] is None]


def conditional(sp, angles, psi, rec, order=None, tab=None):
    """Reference run for the outcome record `rec` (position -> 0/1).  Returns
    (density of the quantum outputs, {node: probability of outcome 0 given the
    outcomes of the nodes before it in `order`})."""
    tab = tab or table(sp)
    q = reference(sp, angles, psi)
    p0 = {}
    order = list(rec) if order is None else order
    for v in order:
        pl, a = setting(tab[v], angles.get(v), rec)
        p0[v] = q.prob(v, ref.eigvec(pl, a, 0))
        q.project(v, ref.eigvec(pl, a, rec[v]))
    return q.density(qouts(sp, tab)), p0


# ------------------------------------------------------------------ construction
def name(sp, i):
    s = sp["style"]
    return i if s == "int" else (3 * i + 7 if s == "gap" else f"n{i:03d}")


def label(sp, i):
    """How the built circuit calls position i."""
    return i if sp["relabel"] else name(sp, i)


def mk_graph(sp):
    g = mp.GraphState()
    g.add_nodes_from(name(sp, i) for i in sp["nodes"])
    g.add_edges_from((name(sp, a), name(sp, b)) for a, b in sp["edges"])
    return g


def outcome_of(sp, v, variant=0):
    """The outcome object of node v, made the documented way."""
    if variant == 0:
        m = mp.Ment("XY")
        m.node_id = v
        return m.outcome
    from mentpy.operators import MentOutcome
    return MentOutcome(lambda x: x[v], v)


def mk_cond(c, lab, circuit=None):
    """condition object; outcomes are taken from the circuit's own measurements
    when a circuit is given (the documented way), else from fresh ones."""
    if isinstance(c, bool):
        return c
    if c[0] == "o":
        if circuit is not None:
            return circuit[lab(c[1])].outcome
        return outcome_of(None, lab(c[1]))
    if c[0] == "not":
        x = mk_cond(c[1], lab, circuit)
        return (not x) if isinstance(x, bool) else ~x
    if c[0] == "k":
        return BIN[c[1]](mk_cond(c[2], lab, circuit), c[3])
    a, b = mk_cond(c[1], lab, circuit), mk_cond(c[2], lab, circuit)
    if isinstance(a, bool):
        a, b = b, a  # generator only makes commutative operations here
    return BIN[c[0]](a, b)


def mk_ment(m, lab=None, circuit=None):
    if m is None:
        return None
    if isinstance(m, dict):
        return mp.ControlMent(mk_cond(m["cond"], lab, circuit), m["t"][1], m["t"][0], m["f"][1], m["f"][0])
    return mp.Ment(tuple(m[1]) if isinstance(m[1], list) else m[1], m[0])


def build(sp, measurement_order=None):
    g = mk_graph(sp)
    kw = {}
    if sp["ments"] is not None:
        # the table uses the caller's names; conditions refer to them as well
        nm = lambda i: name(sp, i)
        kw["measurements"] = {nm(v): mk_ment(m, nm) for v, m in sp["ments"]}
    if not sp["relabel"]:
        kw["relabel_indices"] = False
    if measurement_order is not None:
        kw["measurement_order"] = [name(sp, i) for i in measurement_order]
    return mp.MBQCircuit(g, input_nodes=[name(sp, i) for i in sp["ins"]],
                         output_nodes=[name(sp, i) for i in sp["outs"]], **kw)


def restyle(rng, sp, raw=0.25):
    """Random node names."""
    sp["style"] = rng.choice(["int", "int", "gap", "str"])
    sp["relabel"] = not (rng.random() < raw)
    return sp


# ------------------------------------------------------------------ inputs
def psi(seed, k, kind="haar"):
    """Input state of k qubits; kind: haar | basis | plus | minus | product | real |
    tilt (close to a product of Pauli eigenstates) | ghz | int (integer dtype)."""
    rs = np.random.RandomState(seed % (2 ** 32))
    d = 2 ** k
    if kind == "basis":
        v = np.zeros(d, dtype=complex)
        v[rs.randint(d)] = 1
        return v
    if kind == "plus":
        return np.ones(d) / math.sqrt(d)
    if kind == "minus":
        v = np.ones(1)
        for _ in range(k):
            v = np.kron(v, np.array([1.0, [1, -1][rs.randint(2)]]) / math.sqrt(2))
        return v
    if kind == "int":
        v = np.zeros(d, dtype=int)
        v[rs.randint(d)] = 1
        return v
    if kind == "ghz":
        v = np.zeros(d, dtype=complex)
        v[0] += 1
        v[-1] += np.exp(1j * rs.uniform(0, 6))
        return v / np.linalg.norm(v)
    if kind == "tilt":
        v = np.ones(1, dtype=complex)
        for _ in range(k):
            e = 10 ** rs.uniform(-1.4, -0.3)
            x = {0: [1, 1], 1: [1, -1], 2: [1, 1j], 3: [1, -1j], 4: [1, 0], 5: [0, 1]}[rs.randint(6)]
            x = np.array(x) / np.linalg.norm(x)
            y = np.array([-np.conj(x[1]), np.conj(x[0])])
            v = np.kron(v, math.cos(e) * x + math.sin(e) * np.exp(1j * rs.uniform(0, 6)) * y)
        return v
    if kind == "product":
        v = np.ones(1, dtype=complex)
        for _ in range(k):
            x = rs.normal(size=2) + 1j * rs.normal(size=2)
            v = np.kron(v, x / np.linalg.norm(x))
        return v
    v = rs.normal(size=d)
    if kind == "haar":
        v = v + 1j * rs.normal(size=d)
    return v / np.linalg.norm(v)


PSI = ["haar", "haar", "haar", "basis", "plus", "minus", "product", "real", "tilt", "tilt", "ghz", "int"]


def psi_spec(rng, near=None):
    """near: a spec from which the state shall differ only slightly."""
    if near is not None:
        return near[:2] + [10 ** -rng.randint(2, 7), rng.getrandbits(31)]
    return [rng.getrandbits(31), rng.choice(PSI)]


def mkpsi(spec, k):
    v = psi(spec[0], k, spec[1])
    if len(spec) > 2:
        v = v + spec[2] * psi(spec[3], k)
        v = v / np.linalg.norm(v)
    return v


def angle_table(rng, n, near=None):
    """near: an earlier table; the new one equals it in most entries or is close."""
    if near is None:
        return [angle(rng) for _ in range(n)]
    t = list(near)
    m = rng.random()
    if m < 0.3:
        rng.shuffle(t)
    elif m < 0.8:
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.randrange(n)
            t[k] = round(t[k] + rng.choice([1, -1]) * 10 ** -rng.randint(1, 7), 9)
    elif m < 0.9:
        t = [x + 2 * PI if rng.random() < 0.3 else -x if rng.random() < 0.3 else x for x in t]
    return t


# ------------------------------------------------------------------ comparison
def same(a, b, tol=1e-6):
    """Numeric equality that treats anything malformed as different."""
    try:
        a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
        if a.shape != b.shape:
            return False
        if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
            return False
        return bool(np.max(np.abs(a - b), initial=0.0) <= tol)
    except (TypeError, ValueError):
        return False


def dev(a, b):
    try:
        a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
        if a.shape != b.shape:
            return f"shape {a.shape} vs {b.shape}"
        return f"max deviation {float(np.max(np.abs(a - b), initial=0.0)):.3g}"
    except (TypeError, ValueError):
        return f"not comparable: {type(a).__name__}"


def proj(v):
    v = np.asarray(v, dtype=complex)
    return np.outer(v, v.conj())


def record(sim, sp, tab=None):
    """Recorded outcomes as {position: value}, or None if malformed."""
    inv = {label(sp, i): i for i in range(sp["n"])}
    return {inv[k]: v for k, v in dict(sim.outcomes).items()}
