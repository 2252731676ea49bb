"""C17: sampled fidelities and expressivities are what they claim for every entropy stream."""
import math

from .. import env, fp, gen, ref, seams
from ..core import Skip, Violation

np, mp = env.np, env.mp

U_ = mp.utils

ID = "C17"
N = {"quick": 4000, "thorough": 120000}
CHUNK = 10
RULE = ("run = one expressivity workload (fidelity samples, histogram divergences, a digraph over a flow space, refused requests) "
        "under one entropy stream, seeded, extreme, or with the first attempt aborted at a chosen source line; samples are "
        "checked for range, number and, over the batch, for their distribution against an independent simulation; "
        "non-trivial when the stream was not plain seeded, an abort fired or a request was refused")
STATE = "distinct (workload, entropy) pairs"
REAL = ["mentpy.utils.expressivity", "mentpy.utils.flow_space", "PennylaneSimulator on default.qubit", "generate_haar_random_states"]
STUB = ["entropy words installed by the simulator", "aborts raised by a line tracer"]
ASSUME = ["statistical tests at about 6.5 standard deviations",
          "a divergence and the samples it is computed from draw the same entropy when the generators are in the same state"]


def scenario(rng, i, tier):
    k = rng.choice(["samples"] * 5 + ["same"] * 2 + ["expr"] * 3 + ["space", "bad"])
    nmax = rng.choice([2, 3, 3, 4, 5])
    sp = gen.disguise(rng, *gen.wires_graph(rng, nmax, 2, 3))
    gen.add_ments(rng, sp, gen.XYMIX)
    if k == "same":  # H^2: every fidelity is 1
        w = rng.choice([1, 1, 2])
        sp = {"n": 3 * w, "nodes": list(range(3 * w)), "edges": [[3 * j + a, 3 * j + a + 1] for j in range(w) for a in (0, 1)],
              "ins": [3 * j for j in range(w)], "outs": [3 * j + 2 for j in range(w)], "style": "int", "relabel": True,
              "ments": [[3 * j + a, ["X", None] if rng.random() < 0.5 else ["XY", 0.0]] for j in range(w) for a in (0, 1)]}
    return {"kind": k, "sp": sp, "n": rng.choice([1, 2, 3, 5, 10, 25]), "bins": rng.choice([1, 2, 5, 10, 50, 1000]),
            "method": rng.choice(["KL", "RE", "JS", "default"]), "es": rng.getrandbits(31),
            "profile": rng.choice(["seeded", "seeded", "seeded", "mixed", "burst", "low", "high"]),
            "abort": round(rng.random(), 4) if rng.random() < 0.2 else None, "rs": rng.getrandbits(31)}


def entropy(sc):
    seams.entropy(sc["es"], sc["profile"], 6 if sc["profile"] in ("low", "high") else 0)


def divergence(fids, k, bins, method):
    """Histogram divergence from the Haar density, from the definitions."""
    d = 2 ** k
    cnt = [0] * bins
    for f in fids:
        cnt[min(bins - 1, int(f * bins))] += 1
    p = [c / len(fids) for c in cnt]
    q = [(d - 1) * (1 - (j + 0.5) / bins) ** (d - 2) / bins for j in range(bins)]
    rel = lambda x, y: x * math.log(x / y) if x > 0 else 0.0
    if method == "RE":
        return sum(rel(x, y) for x, y in zip(p, q))
    if method == "KL":
        return sum(rel(x, y) - x + y for x, y in zip(p, q))
    sp, sq = sum(p), sum(q)
    p, q = [x / sp for x in p], [x / sq for x in q]
    m = [(x + y) / 2 for x, y in zip(p, q)]
    return math.sqrt(max(0.0, sum(rel(x, z) for x, z in zip(p, m)) / 2 + sum(rel(y, z) for y, z in zip(q, m)) / 2))


def samples(c, n):
    return U_.sample_probability_density_of_fidelities(c, n_samples=n)


def check_range(fids, n):
    if len(fids) != n:
        raise Violation("wrong-number", f"{len(fids)} samples instead of {n}")
    for f in fids:
        f = float(f)
        if not -1e-12 <= f <= 1 + 1e-12:
            raise Violation("not-a-fidelity", f"{f}")


def aborted(sc, ctx, fn):
    """A first attempt that is aborted half-way leaves no trace."""
    if sc["abort"] is None:
        return
    with seams.LineFault() as cnt:
        fn()
    try:
        with seams.LineFault(1 + int(sc["abort"] * max(1, cnt.count))):
            fn()
    except seams.InjectedInterrupt:
        ctx.fault("abort-interrupt")


def run(sc, ctx):
    sp, k, n = sc["sp"], sc["kind"], sc["n"]
    c = gen.build(sp)
    q = len(sp["ins"])
    before = fp.circuit(c)
    if sc["profile"] != "seeded":
        ctx.fault(f"entropy-{sc['profile']}")
    ctx.step()
    if k in ("samples", "same"):
        entropy(sc)
        aborted(sc, ctx, lambda: samples(c, min(n, 2)))
        entropy(sc)
        fids = samples(c, n)
        check_range(fids, n)
        if k == "same":
            if any(abs(f - 1) > 1e-6 for f in fids):
                raise Violation("wrong-fidelity", f"the circuit returns its input, fidelities {list(fids)}")
        elif sc["profile"] == "seeded":
            statistics(sc, ctx, c, sp, q, [float(f) for f in fids])
        ctx.event(k, [round(float(f), 6) for f in fids])
    elif k == "expr":
        kw = {} if sc["method"] == "default" else {"method": sc["method"]}
        m = kw.get("method", "KL")
        entropy(sc)
        fids = samples(c, n)
        aborted(sc, ctx, lambda: U_.expressivity_with_histogram(c, n_samples=1, n_bins=5, **kw))
        entropy(sc)
        got = U_.expressivity_with_histogram(c, n_samples=n, n_bins=sc["bins"], **kw)
        want = divergence(fids, len(sp["outs"]), sc["bins"], m)
        edge = any(abs(f * sc["bins"] - round(f * sc["bins"])) < 1e-6 for f in fids if f < 1 - 1e-9)
        if not edge and not abs(got - want) <= 1e-6 * (1 + abs(want)):
            raise Violation("wrong-divergence", f"{m} of {n} samples in {sc['bins']} bins: {got}, the definition gives {want}")
        ctx.probe(f"divergence-{m}")
        ctx.event(k, round(float(got), 6))
    elif k == "bad":
        entropy(sc)
        f0 = seams.rng_fingerprint()
        try:
            U_.expressivity_with_histogram(c, n_samples=2, method=["kl", "XX", "", None][sc["n"] % 4])
        except (UserWarning, ValueError, KeyError, TypeError):
            ctx.fault("refused-request")
        else:
            raise Violation("unsupported-method-accepted", "an unknown method was accepted")
        ctx.event(k)
    else:
        space(sc, ctx)
    d = fp.diff(before, fp.circuit(c))
    if d:
        raise Violation("circuit-changed", d)
    ctx.state([k, sp, sc["es"], sc["profile"]])


def statistics(sc, ctx, c, sp, q, fids):
    """The same number of fidelities from an independent simulation."""
    rs = np.random.RandomState(sc["rs"] % 2 ** 32)
    tab = gen.table(sp)
    free = [v for v in tab if gen.trainable(tab[v])]
    mine = []
    for _ in range(max(4, len(fids))):
        psi = rs.normal(size=2 ** q) + 1j * rs.normal(size=2 ** q)
        psi /= np.linalg.norm(psi)
        ang = {v: rs.uniform(0, 2 * math.pi) for v in free}
        rec = {v: 0 for v in tab if tab[v] is not None}
        rho, _ = gen.conditional(sp, ang, psi, rec)
        mine.append(float(np.real(psi.conj() @ rho @ psi)))
    key = f"{q}:{min(len(free), 2)}"
    m = len(mine)
    for a, f in enumerate(fids):
        for nm, g in (("f", lambda x: x), ("ff", lambda x: x * x), ("h", lambda x: math.cos(6 * x))):
            d = g(f) - g(mine[a % m])
            ctx.add(f"{nm}|{key}", d)
            ctx.add(f"{nm}v|{key}", d * d)
        ctx.add(f"n|{key}", 1)
    if free:
        for a in range(0, len(fids) - 1, 2):
            d = (fids[a] - mine[a % m]) * (fids[a + 1] - mine[(a + 1) % m])
            ctx.add(f"c|{key}", d - 0.0)
            ctx.add(f"cv|{key}", d * d)
            # the same statistic of the independent samples: circuits differ in their mean
            e = (mine[(a + 2) % m] - mine[a % m]) * (mine[(a + 3) % m] - mine[(a + 1) % m]) if m >= 4 else 0.0
            ctx.add(f"c|{key}", -e)
            ctx.add(f"cv|{key}", e * e)


def space(sc, ctx):
    rs = sc["rs"]
    ins, outs = [([0], [2]), ([0, 1], [2, 3]), ([1, 3], [0, 2]), ([0, 1], [1, 2])][rs % 4]
    c0 = mp.MBQCircuit(mp.GraphState([(0, 1), (1, 2), (2, 3)][:max(ins + outs)]), input_nodes=ins, output_nodes=outs)
    fs = U_.FlowSpace(c0)
    entropy(sc)
    g = U_.digraph_expressivity_of_flow_space(fs, method="RE", n_samples=3, n_bins=8)
    h = fs.flow_graph_space
    if set(g.nodes) != set(h.nodes):
        raise Violation("digraph-nodes", f"{list(g.nodes)} instead of {list(h.nodes)}")
    if {frozenset(e) for e in g.edges} != {frozenset(e) for e in h.edges} or g.number_of_edges() != h.number_of_edges():
        raise Violation("digraph-edges", f"{list(g.edges)} instead of {list(h.edges)}")
    for a, b in g.edges:
        if g.nodes[a]["expr"] < g.nodes[b]["expr"]:
            raise Violation("digraph-orientation", f"{a} -> {b} although {g.nodes[a]['expr']} < {g.nodes[b]['expr']}")
    ctx.step(len(h))
    ctx.probe("digraph-edges" if g.number_of_edges() else "digraph")
    ctx.event("space", len(g), sorted(map(list, g.edges)))


def aggregate(v):
    for key in sorted({k.split("|")[1] for k in v if "|" in k}):
        if v.get(f"n|{key}", 0) < 300:
            continue
        for nm in ("f", "ff", "h", "c"):
            s, var = v.get(f"{nm}|{key}", 0), v.get(f"{nm}v|{key}", 0)
            if var > 1 and abs(s) > 6.5 * math.sqrt(var):
                raise Violation("distribution:" + nm, f"{key} (inputs:free angles): sum of deviations {s:.3f}, standard deviation {math.sqrt(var):.3f}")


def shrink(sc):
    for k, x in (("profile", "seeded"), ("abort", None), ("n", 1), ("n", 2), ("bins", 5)):
        if sc[k] != x:
            yield {**sc, k: x}
