"""C07: the correcting backend agrees with the post-selecting ones; noise is applied."""
import itertools
import math

from .. import env, gen, ref, seams, sim
from ..core import Skip, Violation

np, mp = env.np, env.mp

ID = "C07"
N = {"quick": 12000, "thorough": 30000}
CHUNK = 10
RULE = ("run = one circuit with flow driven through the PennyLane backend (and a numpy backend) for several inputs, "
        "compared with the reference zero branch; or a circuit with a noise channel on every resource qubit, compared "
        "with the reference average over all outcomes; or a pattern PennyLane cannot represent; non-trivial when "
        "at least one measured node has a correction on another measured node, or noise was injected, or a refusal was due")
STATE = "distinct (circuit, backend, noise) triples"
REAL = ["PennylaneSimulator", "PennyLane default.qubit / default.mixed", "NumpySimulatorDM", "NumpySimulatorSV", "flow and measurement order"]
STUB = ["none; the backend averages over all outcomes"]
ASSUME = ["PennyLane's definition of the named channels (depolarizing p/3 per Pauli)"]

CHANNELS = ("depolarizing", "amplitude_damping", "phase_damping", "phase_flip")


def kraus(name, p):
    s = math.sqrt
    if name == "depolarizing":
        return [s(1 - p) * ref.I2, s(p / 3) * ref.X, s(p / 3) * ref.Y, s(p / 3) * ref.Z]
    if name == "phase_flip":
        return [s(1 - p) * ref.I2, s(p) * ref.Z]
    if name == "amplitude_damping":
        return [np.array([[1, 0], [0, s(1 - p)]]), np.array([[0, s(p)], [0, 0]])]
    return [np.array([[1, 0], [0, s(1 - p)]]), np.array([[0, 0], [0, s(p)]])]


def scenario(rng, i, tier):
    m = rng.random()
    base = {"psi": gen.psi_spec(rng)}
    if m < 0.62:
        nmax = rng.choice([2, 3, 4, 5, 5, 6])
        sp = gen.flow_spec(rng, nmax, wmax=3, extra=6, mix=gen.XYMIX)
        if rng.random() < 0.5:
            gen.restyle(rng, sp, 0.0)
        ops = [{"psi": gen.psi_spec(rng), "angles": gen.angle_table(rng, sp["n"]), "how": rng.choice(["new", "reset", "run", "call"])}
               for _ in range(rng.choice([1, 2, 2]))]
        return {**base, "kind": "agree", "sp": sp, "numpy": rng.choice(["numpy-dm", "numpy-sv"]), "ops": ops}
    if m < 0.85:
        sp = gen.flow_spec(rng, rng.choice([2, 3, 3, 4]), wmax=2, extra=3, mix=gen.XYMIX)
        return {**base, "kind": "noise", "sp": sp, "noise": rng.choice(CHANNELS), "p": rng.choice([0.0, 1e-3, 0.05, 0.2, 0.5, 0.75, 1.0]),
                "angles": gen.angle_table(rng, sp["n"])}
    sp = gen.flow_spec(rng, rng.choice([3, 4]), wmax=2, mix=gen.XYMIX)
    why = rng.choice(["plane", "plane", "output", "control", "noflow", "channel"])
    if why == "plane":
        nodes = [v for v in range(sp["n"]) if v not in sp["outs"]]
        v = rng.choice(nodes) if nodes else None
        if v is None:
            why = "output"
        else:
            sp["ments"] = [x for x in (sp["ments"] or []) if x[0] != v] + [[v, gen.ment(rng, (("Z", 1), ("XZ", 1), ("YZ", 1), ("XZ*", 1), ("YZ*", 1)))]]
    if why == "output":
        v = rng.choice(sp["outs"])
        sp["ments"] = [x for x in (sp["ments"] or []) if x[0] != v] + [[v, gen.ment(rng)]]
    if why == "noflow":
        for _ in range(20):
            n, e, a, b = gen.random_graph(rng, 5)
            if not ref.causal_flow(range(n), e, a, b):
                break
        sp = gen.disguise(rng, n, e, a, b)
    return {**base, "kind": "refuse", "why": why, "sp": sp, "angles": gen.angle_table(rng, sp["n"]), "pick": rng.getrandbits(20)}


def zero_branch(sp, angles, psi):
    tab = gen.table(sp)
    rec = {v: 0 for v in tab if tab[v] is not None}
    return gen.conditional(sp, angles, psi, rec, None, tab)[0]


def noisy(sp, angles, psi, name, p, f):
    """Density-matrix reference: channel on every qubit, then all outcomes with corrections."""
    n = sp["n"]
    q = gen.reference(sp, angles, psi)
    v = q.vector(list(range(n)))
    rho = np.outer(v, v.conj())

    def op(m, a):
        return np.kron(np.kron(np.eye(2 ** a), m), np.eye(2 ** (n - a - 1)))

    for a in range(n):
        rho = sum(op(k, a) @ rho @ op(k, a).conj().T for k in kraus(name, p))
    tab = gen.table(sp)
    adj = {x: set() for x in range(n)}
    for a, b in sp["edges"]:
        adj[a].add(b)
        adj[b].add(a)
    _, layer = ref.causal_flow(range(n), sp["edges"], sp["ins"], sp["outs"])
    for u in sorted(f, key=lambda x: -layer[x]):
        pl, a = gen.setting(tab[u], angles[u])
        new = 0
        for s in (0, 1):
            e = ref.eigvec(pl, a, s)
            m = op(np.outer(e, e.conj()), u)
            if s:
                m = op(ref.X, f[u]) @ m
                for w in adj[f[u]] - {u}:
                    m = op(ref.Z, w) @ m
            new = new + m @ rho @ m.conj().T
        rho = new
    # trace out everything but the outputs
    t = rho.reshape((2,) * (2 * n))
    keep = list(sp["outs"])
    rest = [x for x in range(n) if x not in keep]
    t = t.transpose(keep + rest + [n + x for x in keep] + [n + x for x in rest])
    k, r = 2 ** len(keep), 2 ** len(rest)
    return np.einsum("abcb->ac", t.reshape(k, r, k, r))


def run(sc, ctx):
    sp = sc["sp"]
    if sc["kind"] == "refuse":
        return refuse(sc, ctx)
    tab = gen.table(sp)
    c = gen.build(sp)
    sim.check_trainables(c, sp, tab)
    k = len(sp["ins"])
    ctx.state([sp, sc.get("noise"), sc.get("p")])
    if sc["kind"] == "noise":
        psi = gen.mkpsi(sc["psi"], k)
        angles = dict(enumerate(sc["angles"]))
        s = mp.PatternSimulator(c, psi, backend="pennylane", device="default.mixed", circuit_noise=sc["noise"], p=sc["p"])
        got = s.run(sim.angle_vec(c, sp, angles))
        f, _ = ref.causal_flow(range(sp["n"]), sp["edges"], sp["ins"], sp["outs"])
        want = noisy(sp, angles, psi, sc["noise"], sc["p"], f)
        ctx.step()
        ctx.fault(f"noise-{sc['noise']}")
        ctx.event("noise", sc["noise"], sc["p"])
        if not gen.same(got, want):
            raise Violation("wrong-noise", f"{sc['noise']} p={sc['p']}: {gen.dev(got, want)}")
        return
    pl = nps = None
    for r in sc["ops"]:
        psi = gen.mkpsi(r["psi"], k)
        angles = dict(enumerate(r["angles"]))
        vec = sim.angle_vec(c, sp, angles)
        kw = {}
        if pl is None or r["how"] == "new":
            pl = mp.PatternSimulator(c, psi, backend="pennylane")
            nps = mp.PatternSimulator(c, psi, backend=sc["numpy"])
        elif r["how"] == "run":
            kw = {"input_state": psi}
        else:
            pl.reset(input_state=psi)
        nps.reset(input_state=psi)
        a = pl(vec, **kw) if r["how"] == "call" else pl.run(vec, **kw)
        b = nps.run(list(vec))
        want = zero_branch(sp, angles, psi)
        ctx.step(2)
        if not gen.same(a, want, 1e-6):
            raise Violation("pennylane-differs", gen.dev(a, want))
        if not gen.same(b, want, 1e-6):
            raise Violation("numpy-differs", f"{sc['numpy']}: {gen.dev(b, want)}")
        ctx.event("agree", r["how"])
    f, layer = ref.causal_flow(range(sp["n"]), sp["edges"], sp["ins"], sp["outs"])
    if any(v in f for v in f.values()):
        ctx.nontrivial = True
        ctx.probe("corrections-on-measured-nodes")


def refuse(sc, ctx):
    sp = sc["sp"]
    why = sc["why"]
    ctx.fault(f"unrepresentable-{why}")
    angles = dict(enumerate(sc["angles"]))
    psi = gen.mkpsi(sc["psi"], len(sp["ins"]))
    c = gen.build(sp)
    kw = {}
    if why == "control":
        nodes = [v for v in c.measurement_order if v not in c.output_nodes]
        if len(nodes) < 2:
            raise Skip("too few measured nodes")
        c[nodes[-1]] = mp.ControlMent(c[nodes[0]].outcome, 0.3, "XY", 1.1, "XY")
    if why == "channel":
        kw = {"circuit_noise": "no_such_noise", "p": 0.1, "device": "default.mixed"}
    try:
        s = mp.PatternSimulator(c, psi, backend="pennylane", **kw)
        inv = {gen.label(sp, i): i for i in range(sp["n"])}
        got = s.run([angles[inv[v]] for v in c.trainable_nodes])
    except Exception as e:  # noqa: BLE001
        ctx.probe("refused")
        ctx.event("refused", why, type(e).__name__)
        return
    raise Violation("unrepresentable-accepted", f"{why}: returned {type(got).__name__} instead of an error")


def shrink(sc):
    sp = sc["sp"]
    for j in range(len(sp["edges"])):
        e = sp["edges"][:j] + sp["edges"][j + 1:]
        if ref.causal_flow(range(sp["n"]), e, sp["ins"], sp["outs"]):
            yield {**sc, "sp": {**sp, "edges": e}}
    if sp["ments"]:
        for j in range(len(sp["ments"])):
            yield {**sc, "sp": {**sp, "ments": sp["ments"][:j] + sp["ments"][j + 1:]}}
