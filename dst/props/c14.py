"""C14: a composition executes as its parts, whatever the outcomes."""
from .. import compose, env, fp, gen, ref, seams, sim
from ..core import Skip, Violation
from . import c04

np, mp = env.np, env.mp

ID = "C14"
N = {"quick": 30000, "thorough": 300000}
CHUNK = 40
RULE = ("run = one nested expression of hstack, vstack and merge over random circuits and templates; the composed "
        "circuit is executed for a random outcome record, adaptively with its reported flow and on the numpy backends, "
        "and compared with its parts executed one after the other by the reference; non-trivial when some outcome was 1")
STATE = "distinct (expression, outcome record) pairs"
REAL = ["hstack, vstack, merge", "MBQCircuit built by them, with flow, orders, measurements and relabelled conditions", "numpy simulators (all-zero record)"]
STUB = ["records with outcome 1 are executed by the reference register on the composed circuit's reported graph and measurements"]
ASSUME = ["joined outputs are not measured", "circuits to be composed are numbered 0..n-1 (the constructor's default)",
          "the parts of a merge have as many outputs as inputs"]


def scenario(rng, i, tier):
    mode = rng.choice(["zero", "zero", "record", "record", "flow"])
    budget = [rng.choice([6, 8, 10, 11] + ([13] if tier != "quick" else []))]
    leaves = []

    def leaf(last, width=None):
        if leaves and mode != "record" and rng.random() < 0.25 and not leaves[-1].get("mo"):
            j = rng.randrange(len(leaves))
            w = leaves[j]["w"]
            if (width is None or w == width) and leaves[j]["size"] <= budget[0] and not leaves[j].get("mo"):
                budget[0] -= leaves[j]["size"]
                return ["leaf", j], w
        if rng.random() < 0.12 and width is None and mode != "record":
            t = rng.choice([["linear", rng.randint(2, 4)], ["wires", [rng.randint(2, 3) for _ in range(rng.randint(1, 2))]], ["grid", rng.randint(1, 2), rng.randint(2, 3), False]])
            w = {"linear": 1, "wires": len(t[1]) if t[0] == "wires" else 0, "grid": t[1] if t[0] == "grid" else 0}[t[0]]
            size = {"linear": t[1], "wires": sum(t[1]) if t[0] == "wires" else 0, "grid": t[1] * t[2] if t[0] == "grid" else 0}[t[0]]
            budget[0] -= size
            leaves.append({"template": t, "w": w, "size": size})
            return ["leaf", len(leaves) - 1], w
        mix = gen.XYMIX if mode == "flow" else gen.FULLMIX
        for _ in range(30):
            mo = 0.5 if last and mode != "flow" and rng.random() < 0.3 else 0
            n = min(rng.choice([2, 3, 3, 4, 4, 5]), max(2, budget[0]))
            sp = gen.flow_spec(rng, max(n, 2 * (width or 1) if rng.random() < 0.7 else n), wmax=3 if width is None else max(width, 1), mix=mix, measured_outputs=mo)
            if width is None or len(sp["ins"]) == width:
                break
        if rng.random() < 0.3:
            sp["style"] = rng.choice(["gap", "str"])
        else:
            sp["relabel"] = rng.random() < 0.8
        if mode == "record":
            tag(rng, sp, len(leaves), last)
        budget[0] -= sp["n"]
        d = {"sp": sp, "w": len(sp["ins"]), "size": sp["n"]}
        if sp["ments"] and any(m is not None and v in sp["outs"] for v, m in sp["ments"]):
            d["mo"] = True
        leaves.append(d)
        return ["leaf", len(leaves) - 1], len(sp["ins"])

    def expr(depth, last, width=None):
        if depth == 0 or budget[0] <= 3:
            return leaf(last, width)
        k = rng.choice(["h", "h", "v", "m", "m"]) if width is None else "h"
        if k == "h":
            a, w = expr(depth - 1, False, width)
            b, w2 = expr(depth - 1, last, w)
            if w2 != w:
                return a, w
            return ["h", a, b], w
        a, wa = expr(depth - 1, last if k == "v" else False)
        b, wb = expr(depth - 1, last)
        if k == "v":
            return ["v", a, b], wa + wb
        j = rng.randint(1, min(wa, wb))
        along = [list(x) for x in zip(rng.sample(range(wa), j), rng.sample(range(wb), j))]
        return ["m", a, b, along], wa + wb - j

    e, w = expr(rng.choice([1, 1, 2, 2, 3]), True)
    return {"mode": mode, "leaves": leaves, "expr": e, "psi": gen.psi_spec(rng), "bits": [rng.randint(0, 1) for _ in range(24)],
            "angles": [round(rng.uniform(-3, 3), 6) for _ in range(24)], "group": rng.random() < 0.5}


def tag(rng, sp, j, last):
    """Every measured node gets a measurement nobody else has, or is trainable."""
    ms, k = [], 0
    nodes = list(range(sp["n"]))
    rng.shuffle(nodes)
    have = {v for v, m in (sp["ments"] or []) if m is not None}
    for v in nodes:
        if v in sp["outs"] and not (last and v in have):
            continue
        k += 1
        uniq = round(0.1 + 0.21 * j + 0.017 * k, 4)
        r = rng.random()
        if r < 0.4:
            ms.append([v, [rng.choice(["XY", "XZ", "YZ"]), uniq]])
        elif r < 0.6:
            ms.append([v, [rng.choice(["XY", "XZ", "YZ"]), None]])
        else:
            others = [x for x in nodes if x != v and (x not in sp["outs"] or x in have)]
            if sp["n"] <= 6 and others:
                ms.append([v, {"cond": gen.cond(rng, others, 1), "t": ["XY", uniq], "f": [rng.choice(["XY", "YZ"]), round(-uniq, 4)]}])
            else:
                ms.append([v, ["XY", uniq]])
    sp["ments"] = ms


class Leaf:
    def __init__(self, d):
        if "sp" in d:
            sp = d["sp"]
            try:
                self.c = gen.build(sp)
            except ValueError:
                # conditions that contradict the flow: drop them
                sp["ments"] = [[v, m["t"] if isinstance(m, dict) else m] for v, m in sp["ments"]]
                self.c = gen.build(sp)
            lab = lambda i: gen.label(sp, i)
            self.nodes = [lab(i) for i in range(sp["n"])]
            self.edges = [(lab(a), lab(b)) for a, b in sp["edges"]]
            self.ins, self.outs = [lab(i) for i in sp["ins"]], [lab(i) for i in sp["outs"]]
            self.table = {lab(v): m for v, m in gen.table(sp).items()}
            self.lab = lab
        else:
            self.c = compose.template(d["template"])
            self.nodes, self.edges, self.ins, self.outs = c04.view(self.c)
            self.table = {v: None if m is None else [m.plane, m.angle] for v, m in self.c.measurements.items()}
            self.lab = lambda i: i
        self.trainable = list(self.c.trainable_nodes)


def build(e, leaves):
    if e[0] == "leaf":
        return leaves[e[1]].c
    a, b = build(e[1], leaves), build(e[2], leaves)
    if e[0] == "h":
        return mp.hstack([a, b])
    if e[0] == "v":
        return mp.vstack([a, b])
    return mp.merge(a, b, along=[(a.output_nodes[i], b.input_nodes[j]) for i, j in e[3]])


def flat(e):
    """[h, [h, a, b], c] -> [h, a, b, c], to use the list interface."""
    if e[0] in ("h", "v") and e[1][0] == e[0]:
        x = flat(e[1])
        return x[:1] + x[1:] + [e[2]]
    return e


def build_flat(e, leaves):
    if e[0] == "leaf":
        return leaves[e[1]].c
    if e[0] == "m":
        return build(e, leaves)
    f = flat(e)
    return {"h": mp.hstack, "v": mp.vstack}[e[0]]([build_flat(x, leaves) for x in f[1:]])


def occurrences(e):
    if e[0] == "leaf":
        return [e[1]]
    return occurrences(e[1]) + occurrences(e[2])


def arity(e, leaves):
    """(number of inputs, number of outputs)"""
    if e[0] == "leaf":
        return len(leaves[e[1]].ins), len(leaves[e[1]].outs)
    a, b = arity(e[1], leaves), arity(e[2], leaves)
    if e[0] == "h":
        return a[0], b[1]
    if e[0] == "v":
        return a[0] + b[0], a[1] + b[1]
    return a[0] + b[0] - len(e[3]), a[1] + b[1] - len(e[3])


def execute(e, leaves, q, ins, occ, angle, rec, low):
    """Runs the parts one after the other on the register q; returns output labels."""
    if e[0] == "leaf":
        k = occ[0]
        occ[0] += 1
        L = leaves[e[1]]
        name = {v: (k, v) for v in L.nodes}
        for v, x in zip(L.ins, ins):
            name[v] = x
        for v in L.nodes:
            if v not in L.ins:
                q.add([name[v]], ref.PLUS)
        for a, b in L.edges:
            q.cz(name[a], name[b])
        sub = {v: rec.get((k, v), 0) for v in L.nodes}
        inv = {L.lab(i): i for i in range(len(L.nodes))}
        for v in L.nodes:
            m = L.table[v]
            if m is None:
                continue
            ang = angle.get((k, v))
            if isinstance(m, dict):
                m = m["t"] if gen.cond_eval(m["cond"], {inv[x]: o for x, o in sub.items()}) else m["f"]
            a = ang if gen.trainable(m) else (m[1] or 0.0)
            low.append(q.project(name[v], ref.eigvec(m[0], a, sub[v])))
        return [name[v] for v in L.outs]
    if e[0] == "h":
        mid = execute(e[1], leaves, q, ins, occ, angle, rec, low)
        return execute(e[2], leaves, q, mid, occ, angle, rec, low)
    na, _ = arity(e[1], leaves)
    if e[0] == "v":
        a = execute(e[1], leaves, q, ins[:na], occ, angle, rec, low)
        b = execute(e[2], leaves, q, ins[na:], occ, angle, rec, low)
        return a + b
    a = execute(e[1], leaves, q, ins[:na], occ, angle, rec, low)
    nb, _ = arity(e[2], leaves)
    extra = list(ins[na:])
    joined = {j: i for i, j in e[3]}
    bins = [a[joined[j]] if j in joined else extra.pop(0) for j in range(nb)]
    b = execute(e[2], leaves, q, bins, occ, angle, rec, low)
    out = [b[dict((i, j) for i, j in e[3])[i]] if i in dict((i, j) for i, j in e[3]) else a[i] for i in range(len(a))]
    return out + [b[j] for j in range(len(b)) if j not in joined]


def run(sc, ctx):
    leaves = [Leaf(d) for d in sc["leaves"]]
    e = sc["expr"]
    if e[0] == "leaf":
        raise Skip("single part")
    before = [fp.circuit(L.c) for L in leaves]
    s = (build_flat if sc["group"] else build)(e, leaves)
    for L, b in zip(leaves, before):
        d = fp.diff(b, fp.circuit(L.c))
        if d:
            raise Violation("part-changed", d)
    occ = occurrences(e)
    nin, nout = arity(e, leaves)
    njoin = _joins(e, leaves)
    want_len = sum(len(leaves[j].nodes) for j in occ) - njoin
    if len(s) != want_len or len(s.input_nodes) != nin or len(s.output_nodes) != nout:
        raise Violation("shape", f"{len(s)} nodes, {len(s.input_nodes)} inputs, {len(s.output_nodes)} outputs; the parts give {want_len}, {nin}, {nout}")
    ctx.step()
    # angles: concatenation of the parts' angle vectors
    angle, vec = {}, []
    for k, j in enumerate(occ):
        for v in leaves[j].trainable:
            vec.append(sc["angles"][len(vec) % 24])
            angle[(k, v)] = vec[-1]
    if len(s.trainable_nodes) != len(vec):
        raise Violation("trainable-nodes", f"{len(s.trainable_nodes)} angles asked for, the parts have {len(vec)}")
    cangle = dict(zip(s.trainable_nodes, vec))
    nodes, edges, ins, outs = c04.view(s)
    measured = [v for v in nodes if s[v] is not None]

    # outcome record
    prec, crec = {}, {v: 0 for v in nodes}
    if sc["mode"] == "record":
        ident = {}
        for k, j in enumerate(occ):
            for v, m in leaves[j].table.items():
                if m is None:
                    continue
                key = ("angle", angle[(k, v)]) if gen.trainable(m) else ("ment", str(fp.ment(leaves[j].c[v])[:2]))
                if key in ident:
                    raise Skip("ambiguous node")
                ident[key] = (k, v)
        where = {}
        for v in measured:
            m = s[v]
            key = ("angle", cangle[v]) if v in cangle else ("ment", str(fp.ment(m)[:2]))
            if key not in ident or ident[key] in where.values():
                raise Violation("measurement-lost", f"node {v} of the composition has {m!r}, which belongs to no node of the parts (or twice)")
            where[v] = ident[key]
        if len(where) != len(ident):
            raise Violation("measurement-lost", f"{len(where)} measured nodes, the parts have {len(ident)}")
        for n_, v in enumerate(measured):
            crec[v] = sc["bits"][n_ % 24]
            prec[where[v]] = crec[v]
        if any(crec.values()):
            ctx.fault("outcome-1", sum(crec.values()))

    psi = gen.mkpsi(sc["psi"], nin)
    q, low = ref.QState(), []
    labels = [("in", i) for i in range(nin)]
    q.add(labels, psi)
    outlab = execute(e, leaves, q, labels, [0], angle, prec, low)
    if min(low, default=1) < 1e-4:
        raise Skip("outcome record of negligible probability")
    want = q.density([x for x in outlab if x in q.labels])

    def setting(v, rec):
        m = s[v]
        if isinstance(m, mp.ControlMent):
            m = m._true_ment if m.condition(rec) else m
            pl, a = m._plane, m._angle
        else:
            pl, a = m.plane, m.angle
        return pl, (cangle[v] if a is None else a)

    reg = ref.graph_register(nodes, edges, ins, psi)
    for v in measured:
        reg.project(v, ref.eigvec(*setting(v, dict(crec)), crec[v]))
    qo = [v for v in outs if s[v] is None]
    if list(s.quantum_output_nodes) != qo:
        raise Violation("outputs", f"quantum outputs {s.quantum_output_nodes}, expected {qo}")
    got = reg.density(qo)
    if not gen.same(got, want):
        raise Violation("differs-from-parts", f"{sc['expr']}: the composed pattern gives another state: {gen.dev(got, want)}")
    ctx.state([sc["leaves"], e, crec])
    ctx.event("composed", len(s), sorted(crec.values()))

    if sc["mode"] == "flow":
        if all(L.c.flow is not None for L in leaves) and s.flow is None:
            raise Violation("flow-lost", f"every part has a flow, the composition {e} has none")
        if s.flow is None:
            raise Skip("no flow")
        bits = {v: sc["bits"][k % 24] for k, v in enumerate(nodes)}
        order = [v for v in s.measurement_order if v not in outs]
        if any(bits[v] for v in order):
            ctx.fault("outcome-1", sum(bits[v] for v in order))
        st = {v: setting(v, {}) for v in order}
        got = c04.adaptive(nodes, edges, ins, outs, s.flow, st, psi, order, bits)
        if not gen.same(got, want):
            raise Violation("record-dependent", f"{e}, outcomes {bits}: {gen.dev(got, want)}")
        ctx.state([sc["leaves"], e, bits])
    if sc["mode"] != "record" and s.measurement_order is not None and len(s) <= 9:
        if all(not isinstance(s[v], mp.ControlMent) and s[v].plane != "Z" for v in measured) and min(low, default=1) > 1e-2:
            for be in ("numpy-dm", "numpy-sv"):
                try:
                    out = mp.PatternSimulator(s, psi, backend=be).run(list(vec))
                except (ValueError, NotImplementedError) as x:
                    if be == "numpy-dm":
                        raise Violation("composition-not-simulated", f"{be}: {x}")
                    ctx.probe("sv-refused")
                    continue
                out = np.asarray(out)
                if out.ndim == 1:
                    out = gen.proj(out)
                ctx.probe(f"simulated-{be}")
                if not gen.same(out, want, 1e-5):
                    raise Violation("simulation-differs-from-parts", f"{be}, {e}: {gen.dev(out, want)}")


def _joins(e, leaves):
    if e[0] == "leaf":
        return 0
    n = _joins(e[1], leaves) + _joins(e[2], leaves)
    if e[0] == "h":
        return n + arity(e[1], leaves)[1]
    return n + (len(e[3]) if e[0] == "m" else 0)


def shrink(sc):
    e = sc["expr"]
    for k in (1, 2):
        if e[0] != "leaf" and e[k][0] != "leaf":
            yield {**sc, "expr": e[k]}
    if any(sc["bits"]):
        yield {**sc, "bits": [0] * 24}
        for j in range(24):
            if sc["bits"][j]:
                b = list(sc["bits"])
                b[j] = 0
                yield {**sc, "bits": b}
    for j, d in enumerate(sc["leaves"]):
        if "sp" not in d:
            continue
        sp = d["sp"]
        cand = []
        if sp["style"] != "int" or not sp["relabel"]:
            cand.append({**sp, "style": "int", "relabel": True})
        cand += [{**sp, "edges": sp["edges"][:k] + sp["edges"][k + 1:]} for k in range(len(sp["edges"]))]
        if sp["ments"]:
            cand += [{**sp, "ments": sp["ments"][:k] + sp["ments"][k + 1:]} for k in range(len(sp["ments"]))]
        for s2 in cand:
            ls = list(sc["leaves"])
            ls[j] = {**d, "sp": s2}
            yield {**sc, "leaves": ls}
