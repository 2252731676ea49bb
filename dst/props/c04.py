"""C04: with the reported flow, neither outcomes nor schedule matter."""
from .. import compose, env, fp, gen, ref, seams, sim
from ..core import Skip, Violation

np, mp = env.np, env.mp

ID = "C04"
N = {"quick": 7000, "thorough": 200000}
CHUNK = 40
RULE = ("run = one circuit reporting a flow, executed by the reference adaptively several times, each with random "
        "outcomes and a random schedule admissible under what the circuit reports (partial order, layers, measurement "
        "order); plus assigned orders and caller-given flows, valid and invalid; non-trivial when some outcome was 1")
STATE = "distinct (circuit, schedule, outcome record) triples"
REAL = ["flow search", "partial order, layers and measurement order of MBQCircuit", "order setter", "templates and stacking used to make circuits", "numpy simulators for accepted orders"]
STUB = ["adaptive execution is done by the reference register (no backend of the repository exposes outcome 1 with corrections)"]
ASSUME = ["orders that only misplace nodes which are never measured may be accepted or refused"]


def scenario(rng, i, tier):
    m = rng.random()
    if m < 0.75:
        sp = gen.flow_spec(rng, rng.choice([3, 4, 5, 6, 7, 8, 9]), wmax=3, extra=8, mix=gen.XYMIX)
        gen.restyle(rng, sp, 0.3)
        src = {"sp": sp}
    else:
        src = {"template": compose.random_template(rng)}
    execs = []
    for _ in range(rng.choice([2, 3, 4])):
        execs.append({"by": rng.choice(["partial_order", "layers", "order"]), "bits": [rng.randint(0, 1) for _ in range(20)],
                      "s": rng.getrandbits(31)})
    orders = [{"s": rng.getrandbits(31), "kind": rng.choice(["linear", "random", "swap", "drop", "dup", "reverse", "foreign"])}
              for _ in range(rng.choice([1, 2, 3]))]
    flows = [{"s": rng.getrandbits(31), "kind": rng.choice(["valid", "valid-topological", "wrong-image", "wrong-order", "self", "input-image"])}
             for _ in range(rng.choice([0, 1, 1]))]
    return {**src, "psi": gen.psi_spec(rng), "angles": gen.angle_table(rng, 24), "execops": execs, "orderops": orders, "flowops": flows}


def view(c):
    """Plain view of a circuit, nodes as reported."""
    nodes = list(c.graph.nodes)
    edges = [tuple(e) for e in c.graph.edges]
    return nodes, edges, list(c.input_nodes), list(c.output_nodes)


def adaptive(nodes, edges, ins, outs, f, setting, psi, order, bits):
    """Executes adaptively.  bits: node -> outcome."""
    adj = {v: set() for v in nodes}
    for a, b in edges:
        adj[a].add(b)
        adj[b].add(a)
    q = ref.graph_register(nodes, edges, ins, psi)
    for u in order:
        pl, a = setting[u]
        p = q.project(u, ref.eigvec(pl, a, bits[u]))
        if p < 1e-9:
            raise Skip("impossible outcome")
        if bits[u]:
            img = f(u)
            if img not in adj:
                raise Violation("flow-image", f"flow({u}) = {img} is not a node")
            if img not in q.labels:
                raise Violation("correction-on-measured-node", f"outcome of {u} asks for a correction on {img}, which is already measured (order {order})")
            q.gate1(ref.X, img)
            for w in adj[img] - {u}:
                if w not in q.labels:
                    raise Violation("correction-on-measured-node", f"outcome of {u} asks for a correction on {w}, which is already measured (order {order})")
                q.gate1(ref.Z, w)
    return q.density(outs)


def linear_extension(rng, items, before):
    """Random order of items such that x precedes y whenever before(x, y)."""
    left, out = list(items), []
    while left:
        free = [y for y in left if not any(before(x, y) for x in left if x is not y and x != y)]
        if not free:
            raise Violation("partial-order-cyclic", f"no node of {left} may be measured next")
        v = rng.choice(free)
        left.remove(v)
        out.append(v)
    return out


def run(sc, ctx):
    import random
    if "sp" in sc:
        c = gen.build(sc["sp"])
    else:
        c = compose.template(sc["template"])
    big = len(c) > 11
    nodes, edges, ins, outs = view(c)
    if c.flow is None:
        if ref.causal_flow(nodes, edges, ins, outs):
            raise Violation("flow-missed", "the open graph has a causal flow but none is reported")
        raise Skip("no flow")
    psi = None if len(ins) > 8 else gen.mkpsi(sc["psi"], len(ins))
    angles = {v: sc["angles"][k % 24] for k, v in enumerate(nodes)}
    measured = [v for v in nodes if v not in outs]
    setting = {}
    for v in measured:
        m = c[v]
        setting[v] = (m.plane, angles[v] if m.angle is None else m.angle)
    if not big:
        base = ref.graph_register(nodes, edges, ins, psi)
        for v in measured:
            base.project(v, ref.eigvec(*setting[v], 0))
        want = base.density(outs)
    else:
        ctx.probe("large-circuit-order-only")
    cons = ref.flow_constraints(nodes, edges, {v: c.flow(v) for v in measured})

    def admissible(order):
        pos = {v: k for k, v in enumerate(order)}
        return len(order) == len(nodes) and set(order) == set(nodes) and all(pos[a] < pos[b] for a, b in cons)

    mo = c.measurement_order
    if mo is None or sorted(map(str, mo)) != sorted(map(str, nodes)):
        raise Violation("order-not-complete", f"measurement order {mo} of nodes {nodes}")
    if not admissible(list(mo)):
        pos = {v: k for k, v in enumerate(mo)}
        badp = [(a, b) for a, b in cons if pos[a] > pos[b]]
        raise Violation("order-contradicts-flow", f"{mo}: {badp[:4]} are in the wrong order")

    for a, b in cons:
        if not c.partial_order(a, b):
            raise Violation("partial-order-contradicts-flow", f"{a} must precede {b} for the reported flow, the reported order does not say so")

    for ex in sc["execops"] if not big else []:
        rng = random.Random(ex["s"])
        bits = dict(zip(measured, ex["bits"] * 9))
        if ex["by"] == "order":
            order = [v for v in mo if v in setting]
        elif ex["by"] == "partial_order":
            order = [v for v in linear_extension(rng, nodes, c.partial_order) if v in setting]
        else:
            lay = c.ordered_layers()
            if sorted(str(v) for l in lay for v in l) != sorted(map(str, nodes)):
                raise Violation("layers-not-complete", f"{lay}")
            order = []
            for l in lay:
                l = [v for v in l if v in setting]
                rng.shuffle(l)
                order += l
        got = adaptive(nodes, edges, ins, outs, c.flow, setting, psi, order, bits)
        ctx.step(len(order))
        if any(bits[v] for v in measured):
            ctx.nontrivial = True
            ctx.fault("outcome-1", sum(bits[v] for v in measured))
        if not gen.same(got, want):
            raise Violation("outcome-dependent", f"outcomes {bits}, order {order}: {gen.dev(got, want)}")
        ctx.event("exec", ex["by"], [str(v) for v in order], [bits[v] for v in order])
        ctx.state([ex["by"], [str(v) for v in order], [bits[v] for v in order], sorted(map(str, edges))])

    for o in sc["orderops"]:
        rng = random.Random(o["s"])
        before = list(c.measurement_order)
        k = o["kind"]
        if k == "linear":
            order = linear_extension(rng, nodes, lambda x, y: (x, y) in cons)
        elif k == "random":
            order = rng.sample(nodes, len(nodes))
        elif k == "reverse":
            order = before[::-1]
        else:
            order = list(before)
            a, b = rng.randrange(len(order)), rng.randrange(len(order))
            if k == "swap":
                order[a], order[b] = order[b], order[a]
            elif k == "drop":
                order.pop(a)
            elif k == "dup":
                order[a] = order[b] if a != b else order[a]
            elif k == "foreign":
                order.append("nowhere")
        mpos = {v: j for j, v in enumerate(order)}
        perm = len(order) == len(nodes) and set(order) == set(nodes)
        must_refuse = not perm or any(mpos[a] > mpos[b] for a, b in cons if b in setting)
        must_accept = admissible(order)
        given = list(order)
        try:
            c.measurement_order = order
            ok = True
        except Exception:  # noqa: BLE001
            ok = False
        if ok and must_refuse:
            raise Violation("bad-order-accepted", f"{given}; constraints {sorted(map(str, cons))}")
        if not ok and must_accept:
            raise Violation("good-order-refused", f"{given}")
        if ok and list(c.measurement_order) != given:
            raise Violation("order-not-stored", f"{given} became {c.measurement_order}")
        if not ok:
            ctx.fault("refused-order")
            if list(c.measurement_order) != before:
                raise Violation("refused-order-stored", f"{given}")
        elif must_accept and len(nodes) <= 8:
            # the accepted order drives a real simulator to the same state
            vec = [angles[v] for v in c.trainable_nodes]
            got = mp.PatternSimulator(c, psi, backend="numpy-sv").run(vec)
            if not gen.same(got, want):
                raise Violation("order-changes-result", f"{given}: {gen.dev(got, want)}")
            ctx.probe("simulated-accepted-order")
        ctx.event("order", k, ok)

    if "sp" in sc:
        for o in sc["flowops"]:
            given_flow(sc["sp"], o, ctx)


def given_flow(sp, o, ctx):
    """Circuits constructed with a flow and partial order given by the caller."""
    import random
    rng = random.Random(o["s"])
    cf = ref.causal_flow(range(sp["n"]), sp["edges"], sp["ins"], sp["outs"])
    if cf is None:
        return
    f, layer = dict(cf[0]), dict(cf[1])
    po = None
    k = o["kind"]
    cons = ref.flow_constraints(range(sp["n"]), sp["edges"], f)
    meas = list(f)
    if not meas:
        return
    if k == "valid-topological":
        lin = linear_extension(rng, range(sp["n"]), lambda x, y: (x, y) in cons)
        pos = {v: j for j, v in enumerate(lin)}
        po = lambda x, y: pos[x] < pos[y]
    elif k == "wrong-image":
        f[rng.choice(meas)] = rng.randrange(sp["n"])
    elif k == "wrong-order":
        a, b = rng.sample(range(sp["n"]), 2)
        layer[a], layer[b] = layer[b], layer[a]
    elif k == "self":
        v = rng.choice(meas)
        f[v] = v
    elif k == "input-image":
        f[rng.choice(meas)] = rng.choice(sp["ins"])
    if po is None:
        po = lambda x, y: layer[x] > layer[y]
    cons = ref.flow_constraints(range(sp["n"]), sp["edges"], f)
    # a flow together with a compatible order, by definition
    adj = {frozenset(e) for e in sp["edges"]}
    valid = (all(f[u] not in sp["ins"] and frozenset((u, f[u])) in adj and u != f[u] for u in meas)
             and all(po(a, b) for a, b in cons))
    nm = {i: gen.name(sp, i) for i in range(sp["n"])}
    back = {v: i for i, v in nm.items()}
    # positions before relabelling
    fl = lambda x: nm[f[back[x]]]
    pr = lambda x, y: po(back[x], back[y])
    kw = {} if sp["relabel"] else {"relabel_indices": False}
    try:
        c = mp.MBQCircuit(gen.mk_graph(sp), input_nodes=[nm[i] for i in sp["ins"]], output_nodes=[nm[i] for i in sp["outs"]],
                          flow=fl, partial_order=pr, **kw)
        ok = True
    except ValueError:
        ok = False
    if ok and not valid:
        raise Violation("bad-flow-accepted", f"{k}: {f}")
    if not ok and valid:
        raise Violation("good-flow-refused", f"{k}: {f}")
    if ok:
        ctx.probe("given-flow-accepted")
        lab = lambda i: gen.label(sp, i)
        if any(c.flow(lab(u)) != lab(f[u]) for u in meas):
            raise Violation("given-flow-changed", k)
        pos = {v: j for j, v in enumerate(c.measurement_order)}
        if len(pos) != sp["n"] or any(pos[lab(a)] > pos[lab(b)] for a, b in cons):
            raise Violation("order-contradicts-flow", f"caller-given flow: {c.measurement_order}")
    else:
        ctx.fault("refused-flow")
    ctx.event("given-flow", k, ok)
