"""C05: flow detection is exact, whatever the names, hashes and insertion order."""
import random

import networkx as nx

from .. import env, gen, ref, seams
from ..core import Skip, Violation

np, mp = env.np, env.mp

ID = "C05"
N = {"quick": 24000, "thorough": 600000}
CHUNK = 60
RULE = ("run = one open graph presented several times with node names whose hashes the simulator chooses (so that set "
        "iteration order varies), shuffled insertion order, and permuted input and output lists; every answer is compared "
        "with the reference; non-trivial when the graph has a flow or gflow, or nearly has one (an edge was toggled)")
STATE = "distinct (open graph, hash assignment, insertion order)"
REAL = ["find_cflow", "find_gflow", "Flow", "MBQCircuit flow attributes", "networkx"]
STUB = ["hash values of node names are chosen by the simulator"]
ASSUME = ["hash seeds of Python strings are covered by separate processes in C13"]


def scenario(rng, i, tier):
    m = rng.random()
    if m < 0.012:
        n = rng.choice([300, 700, 1100, 1500])
        k = rng.choice([1, 1, 2])
        L = n // k
        edges = [[w * L + j, w * L + j + 1] for w in range(k) for j in range(L - 1)]
        if k == 2:
            edges += [[j, L + j] for j in range(0, L, rng.choice([1, 7, 50])) if rng.random() < 0.5]
        g = {"n": k * L, "edges": edges, "ins": [w * L for w in range(k)], "outs": [w * L + L - 1 for w in range(k)]}
        pres = 1
    elif m < 0.017:
        # many measured nodes that are corrected together, in several rounds
        k, depth = rng.choice([(rng.randint(1, 7), 1)] * 3 + [(rng.choice([21, 22]), 1)] + [(rng.randint(1, 3), rng.randint(2, 3)), (1, rng.randint(4, 9))] * 2)
        n = 3 * k * (depth + 1)
        edges = [[3 * k * t + 3 * j + x, 3 * k * (t + 1) + 3 * j + y] for t in range(depth) for j in range(k)
                 for x, row in enumerate(("110", "111", "011")) for y in range(3) if row[y] == "1"]
        for _ in range(rng.choice([0, 0, 1, 3])):  # links between the blocks, within a round
            t = rng.randint(0, depth)
            x, y = rng.sample(range(3 * k * t, 3 * k * (t + 1)), 2)
            if [x, y] not in edges and [y, x] not in edges:
                edges.append([x, y])
        if rng.random() < 0.25:
            edges.pop(rng.randrange(len(edges)))
        g = {"n": n, "edges": edges, "ins": list(range(3 * k)), "outs": list(range(n - 3 * k, n)), "blocks": True}
        pres = 1
    else:
        if m < 0.55:
            n, e, a, b = gen.wires_graph(rng, rng.choice([3, 5, 7, 9, 11, 14]), wmax=3, extra=10)
            if rng.random() < 0.4:  # toggle a pair: often destroys the flow, sometimes keeps it
                x, y = sorted(rng.sample(range(n), 2))
                e = [q for q in e if set(q) != {x, y}] + ([] if any(set(q) == {x, y} for q in e) else [(x, y)])
        elif m < 0.75:
            # bipartite-like graphs between measured nodes and outputs: often gflow without causal flow
            for _ in range(12):
                k = rng.randint(2, 4)
                mid = rng.choice([0, 0, 0, 1, 2, 3])
                n = 2 * k + mid
                a, b = list(range(k)), list(range(n - k, n))
                pr = rng.choice([0.4, 0.6])
                e = [(x, y) for x in range(n) for y in range(max(x + 1, k), n) if rng.random() < pr]
                if ref.gflow(range(n), e, a, b) and not ref.causal_flow(range(n), e, a, b):
                    if rng.random() < 0.3:
                        e.pop(rng.randrange(len(e)))
                    break
        else:
            n, e, a, b = gen.random_graph(rng, rng.choice([3, 4, 5, 6, 7, 8]))
        g = {"n": n, "edges": [list(q) for q in e], "ins": a, "outs": b}
        pres = 3
    views = [{"s": rng.getrandbits(31), "via": rng.choice(["cflow", "cflow", "Flow", "circuit", "circuit", "circuit-raw", "gflow"]),
              "plain": rng.random() < 0.2,
              "names": rng.choice(["hash", "hash", "clash", "int", "gap", "str"])} for _ in range(pres)]
    return {"g": g, "ops": views}


def names_for(view, n, rng):
    kind = view["names"]
    if kind == "hash" or kind == "clash" and n > 20:
        return [seams.HashLabel(i, rng.getrandbits(40)) for i in range(n)]
    if kind == "clash" and n <= 20:
        return [seams.HashLabel(i, rng.randrange(3)) for i in range(n)]
    perm = list(range(n))
    rng.shuffle(perm)
    if kind == "int":
        return perm
    if kind == "gap":
        return [5 * p + 3 for p in perm]
    return [f"q{p:04d}" for p in perm]


def run(sc, ctx):
    g = sc["g"]
    n = g["n"]
    cf = ref.causal_flow(range(n), g["edges"], g["ins"], g["outs"])
    gf = None
    if cf is None and (n <= 16 or g.get("blocks")):
        gf = ref.gflow(range(n), g["edges"], g["ins"], g["outs"])
    ctx.probe("causal-flow" if cf else ("gflow-only" if gf else "no-flow"))
    if cf or gf:
        ctx.nontrivial = True
    if n > 250:
        ctx.probe("long-graph")
    elif g.get("blocks"):
        ctx.probe("wide-gflow" if gf and len(g["ins"]) > 60 else "blocks")
    for v in sc["ops"]:
        rng = random.Random(v["s"])
        ctx.step()
        nm = names_for(v, n, rng)
        back = {x: i for i, x in enumerate(nm)}
        nodes = list(range(n))
        edges = [tuple(e) for e in g["edges"]]
        rng.shuffle(nodes)
        rng.shuffle(edges)
        G = mp.GraphState() if not v.get("plain") else nx.Graph()
        G.add_nodes_from(nm[i] for i in nodes)
        G.add_edges_from((nm[a], nm[b]) if rng.random() < 0.5 else (nm[b], nm[a]) for a, b in edges)
        ins, outs = [nm[i] for i in rng.sample(g["ins"], len(g["ins"]))], [nm[i] for i in rng.sample(g["outs"], len(g["outs"]))]
        ctx.fault("hash-order" if v["names"] in ("hash", "clash") else "renaming")
        ctx.state([g, v["s"], v["names"]])
        via = v["via"]
        f = lay = depth = layers = None
        if via == "cflow":
            fn, po, depth, ld = mp.flow.find_cflow(G, ins, outs)
            if fn is not None:
                f = {i: fn(nm[i]) for i in range(n) if i not in g["outs"]}
                lay = {back[a]: b for a, b in ld.items()}
                has = "causal"
            else:
                has = None
                if cf is None and (po, depth, ld) != (None, None, None):
                    raise Violation("half-answer", "no flow function but other flow data")
        elif via == "gflow":
            if n > 16 and not g.get("blocks"):
                continue
            gflow_view(g, G, nm, back, ins, outs, gf, cf, v)
            ctx.event(via)
            continue
        elif via == "Flow":
            F = mp.flow.Flow(G, ins, outs)
            layers, depth = F.layers, F.depth
            has = None if F.func is None else "some"
            if cf is not None and has:
                f = {i: F(nm[i]) for i in range(n) if i not in g["outs"]}
        else:
            kw = {"relabel_indices": False} if via == "circuit-raw" else {}
            c = mp.MBQCircuit(G, input_nodes=ins, output_nodes=outs, **kw)
            if via == "circuit":
                srt = sorted(nm)
                nm = nm_index(nm, srt)
                back = {x: i for i, x in enumerate(nm)}
            layers = c.ordered_layers()
            depth = c.depth
            has = "causal" if c.flow is not None else ("some" if layers is not None else None)
            if c.flow is not None:
                f = {i: c.flow(nm[i]) for i in range(n) if i not in g["outs"]}
        # existence
        if cf is not None and has is None:
            raise Violation("flow-missed", f"{via} with {v['names']} names finds no flow")
        if cf is None and has == "causal":
            raise Violation("flow-invented", f"{via} with {v['names']} names reports a causal flow")
        if (n <= 16 or g.get("blocks")) and via in ("Flow", "circuit", "circuit-raw") and cf is None and (gf is not None) != (layers is not None):
            raise Violation("gflow-missed" if gf is not None else "gflow-invented", f"{via} with {v['names']} names")
        if cf is None and gf is not None and layers is not None:
            want = max(gf.values(), default=0)
            if depth != want:
                raise Violation("gflow-depth", f"{via}: depth {depth}, the maximally delayed gflow has {want} rounds")
            got = [sorted(back[x] for x in l) for l in layers]
            exp = [sorted(x for x in range(n) if gf[x] == j) for j in range(want, -1, -1)]
            if got != exp:
                raise Violation("gflow-layers", f"{via}: {got} instead of {exp}")
        # content
        if cf is not None:
            if f is not None:
                try:
                    fm = {a: back[b] for a, b in f.items()}
                except (KeyError, TypeError):
                    raise Violation("flow-image", f"{f}")
                if fm != cf[0]:
                    d = [a for a in fm if fm[a] != cf[0][a]][:3]
                    raise Violation("flow-wrong", f"{via}: differs at {d}")
            want = max(cf[1].values(), default=0)
            if depth != want:
                raise Violation("depth-wrong", f"{via}: depth {depth}, {want} measurement rounds")
            if lay is not None and lay != cf[1]:
                raise Violation("layers-wrong", f"{via}: {lay} instead of {cf[1]}" if n < 20 else via)
            if layers is not None:
                got = [sorted(back[x] for x in l) for l in layers]
                exp = [sorted(x for x in range(n) if cf[1][x] == j) for j in range(want, -1, -1)]
                if got != exp:
                    raise Violation("layers-wrong", f"{via}: {got} instead of {exp}" if n < 20 else via)
        ctx.event(via, has, depth)


def gflow_view(g, G, nm, back, ins, outs, gf, cf, v):
    """find_gflow itself: layers of the maximally delayed gflow and corrections
    (vectors over the available corrected nodes in graph order) that work."""
    n = g["n"]
    if cf is not None:
        gf = ref.gflow(range(n), g["edges"], g["ins"], g["outs"])
    fn, po, depth, ld = mp.flow.find_gflow(G, ins, outs)
    if (fn is None) != (gf is None):
        raise Violation("gflow-missed" if gf else "gflow-invented", f"find_gflow with {v['names']} names")
    if fn is None:
        return
    lay = {back[a]: b for a, b in ld.items()}
    if lay != gf or depth != max(gf.values()):
        raise Violation("gflow-layers", f"find_gflow: {lay}, depth {depth} instead of {gf}")
    adj = {x: set() for x in range(n)}
    for a, b in g["edges"]:
        adj[a].add(b)
        adj[b].add(a)
    order = [back[x] for x in G.nodes]
    for u in range(n):
        if u in g["outs"]:
            continue
        cols = [w for w in order if gf[w] < gf[u] and w not in g["ins"]]
        vec = [int(t) % 2 for t in np.asarray(fn(nm[u])).ravel()]
        if len(vec) != len(cols):
            raise Violation("gflow-corrections", f"node {u}: vector of {len(vec)} for {len(cols)} nodes")
        odd = set()
        for w, t in zip(cols, vec):
            if t:
                odd ^= adj[w]
        if {x for x in odd if gf[x] >= gf[u]} != {u}:
            raise Violation("gflow-corrections", f"node {u}: correcting {[w for w, t in zip(cols, vec) if t]} acts on {sorted(odd)}")


def nm_index(nm, srt):
    pos = {x: j for j, x in enumerate(srt)}
    return [pos[x] for x in nm]


def shrink(sc):
    g = sc["g"]
    for j in range(len(g["edges"])):
        yield {**sc, "g": {**g, "edges": g["edges"][:j] + g["edges"][j + 1:]}}
    if g["n"] > 2:
        for x in range(g["n"]):
            if x in g["ins"] or x in g["outs"]:
                continue
            r = lambda q: q - (q > x)
            yield {**sc, "g": {"n": g["n"] - 1, "edges": [[r(a), r(b)] for a, b in g["edges"] if x not in (a, b)],
                               "ins": [r(q) for q in g["ins"]], "outs": [r(q) for q in g["outs"]]}}
