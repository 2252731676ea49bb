"""C09: a circuit is what its graph and measurements say, after any edit history."""
import copy

from .. import env, fp, gen, seams
from ..core import Skip, Violation

np, mp = env.np, env.mp

ID = "C09"
N = {"quick": 12000, "thorough": 200000}
CHUNK = 25
RULE = ("run = one circuit under a random history of edits (set, delete, assign table, add edges, stack), edits that "
        "must be refused, edits aborted at a chosen source line and then repeated, and read-only uses (some aborted); "
        "after every operation the circuit is compared with the model of its contents and with a circuit rebuilt from "
        "them; non-trivial when an abort fired or an edit was refused")
STATE = "distinct circuit fingerprints reached"
REAL = ["MBQCircuit with all its edits", "hstack, vstack, merge", "simulators, drawing and analysis as read-only uses"]
STUB = ["aborts raised by a line tracer"]
ASSUME = ["an abort is an exception raised between two source lines of mentpy; the interrupted edit is repeated",
          "measurement objects of a circuit are not modified in place by the caller"]


def any_ment(rng, nodes):
    m = rng.random()
    if m < 0.28:
        t, f = gen.ment(rng, gen.FULLMIX), gen.ment(rng, gen.FULLMIX)
        return {"cond": gen.cond(rng, rng.sample(nodes, min(len(nodes), rng.choice([1, 1, 2]))), 1), "t": t, "f": f}
    return gen.ment(rng, gen.FULLMIX)


def scenario(rng, i, tier):
    if rng.random() < 0.85:
        sp = gen.flow_spec(rng, rng.choice([2, 3, 4, 5, 6]), wmax=2, mix=gen.FULLMIX, measured_outputs=rng.choice([0, 0.4]))
    else:
        sp = gen.any_spec(rng, 5, mix=gen.FULLMIX, measured_outputs=0.2)
    gen.restyle(rng, sp, 0.3)
    nodes = list(range(sp["n"]))
    ops = []
    frate = rng.choice([0, 0.25, 0.5])
    for _ in range(rng.randint(1, 10)):
        k = rng.choice(["set", "set", "set", "set", "del", "table", "edge", "edges", "bad", "bad", "read", "read", "share", "stack"])
        op = {"op": k, "fault": None}
        if k == "set":
            op.update(node=rng.choice(nodes), ment=any_ment(rng, nodes), poke=rng.random() < 0.3, own=rng.random() < 0.5)
        elif k == "del":
            op.update(node=rng.choice(nodes))
        elif k == "table":
            some = rng.sample(nodes, rng.randint(0, len(nodes)))
            op.update(ments=[[v, None if rng.random() < 0.15 else any_ment(rng, nodes)] for v in some])
        elif k in ("edge", "edges"):
            op.update(edges=[rng.sample(nodes, 2) for _ in range(1 if k == "edge" else rng.randint(0, 3))],
                      new=rng.random() < 0.05)
        elif k == "bad":
            op.update(kind=rng.choice(["set-node", "set-value", "del-node", "table-node", "table-value", "cond-self", "cond-unknown"]),
                      node=rng.choice(nodes), value=rng.choice(["none", "float", "str", "list"]))
        elif k == "read":
            op.update(what=rng.choice(["run-dm", "run-sv", "run-pl", "layers", "stack", "deepcopy", "order", "draw", "partial", "merge", "lie"]),
                      es=rng.getrandbits(31))
            if op["what"] in ("draw", "run-pl", "lie") and rng.random() < 0.8:
                op["what"] = "layers"
        elif k == "share":
            op.update(nodes=rng.sample(nodes, min(2, len(nodes))), ment=gen.ment(rng, gen.FULLMIX))
        elif k == "stack":
            op.update(sp=gen.flow_spec(rng, 3, wmax=2, mix=gen.FULLMIX), how=rng.choice(["h", "v", "m", "v-first", "h-first"]), cont=rng.random() < 0.5,
                      e=rng.getrandbits(16))
        if k in ("set", "del", "table", "edge", "edges", "read") and rng.random() < frate:
            op["fault"] = [round(rng.random(), 4), rng.choice(["interrupt", "memory"])]
        ops.append(op)
    return {"sp": sp, "ops": ops, "default": rng.choice([None, None, ["XY", 0.25], ["X", None]]), "rec": rng.getrandbits(30)}


class Model:
    """graph and measurements, nothing else"""

    def __init__(self, graph, ins, outs, ments, default):
        self.nodes, self.edges = list(graph.nodes), {frozenset(e) for e in graph.edges}
        self.ins, self.outs = list(ins), list(outs)
        self.ments, self.default = dict(ments), default

    def complete(self):
        for v in self.nodes:
            if v not in self.ments:
                self.ments[v] = None if v in self.outs else self.default
        return self

    def copy(self):
        m = copy.copy(self)
        m.nodes, m.edges, m.ments = list(self.nodes), set(self.edges), dict(self.ments)
        return m

    def build(self):
        g = mp.GraphState()
        g.add_nodes_from(self.nodes)
        g.add_edges_from(tuple(e) for e in self.edges)
        return mp.MBQCircuit(g, list(self.ins), list(self.outs), measurements=dict(self.ments),
                             default_measurement=self.default, relabel_indices=False)


def rebuilt(c, default):
    return mp.MBQCircuit(c.graph.copy(), list(c.input_nodes), list(c.output_nodes), measurements=dict(c.measurements),
                         default_measurement=default, relabel_indices=False)


def verify(c, model, rec, what):
    if set(c.graph.nodes) != set(model.nodes) or len(c.graph.nodes) != len(model.nodes):
        raise Violation("nodes", f"after {what}: nodes {list(c.graph.nodes)}, expected {model.nodes}")
    if {frozenset(e) for e in c.graph.edges} != model.edges:
        raise Violation("edges", f"after {what}: edges {list(c.graph.edges)}, expected {[tuple(e) for e in model.edges]}")
    if list(c.input_nodes) != model.ins or list(c.output_nodes) != model.outs:
        raise Violation("inputs-outputs", f"after {what}: {c.input_nodes} {c.output_nodes}")
    if set(c.measurements) != set(model.ments):
        raise Violation("measurement-table", f"after {what}: table of {sorted(map(str, c.measurements))}, expected {sorted(map(str, model.ments))}")
    bits = {v: (rec >> k) & 1 for k, v in enumerate(sorted(model.nodes, key=str))}
    for v, m in model.ments.items():
        got = c[v]
        if fp.ment(got) != fp.ment(m):
            raise Violation("measurement-table", f"after {what}: node {v} has {got!r}, expected {m!r}")
        if got is not None:
            if int(got.outcome(dict(bits))) != bits[v]:
                raise Violation("outcome-of-other-node", f"after {what}: the outcome object of node {v} reads another node")
            if isinstance(got, mp.ControlMent) and bool(got.condition(dict(bits))) != bool(m.condition(dict(bits))):
                raise Violation("condition", f"after {what}: the condition of node {v} evaluates differently")
    d = fp.diff(fp.circuit(c), fp.circuit(rebuilt(c, model.default)))
    if d:
        raise Violation("differs-from-rebuilt:" + d.split(":")[0], f"after {what}: edited vs rebuilt {d}")


def run(sc, ctx):
    sp = sc["sp"]
    lab = lambda i: gen.label(sp, i)
    nm = lambda i: gen.name(sp, i)
    default = gen.mk_ment(sc["default"]) if sc["default"] else mp.Ment("XY")
    kw = {} if sc["default"] is None else {"default_measurement": gen.mk_ment(sc["default"])}
    if sp["ments"] is not None:
        kw["measurements"] = {nm(v): gen.mk_ment(m, nm) for v, m in sp["ments"]}
    if not sp["relabel"]:
        kw["relabel_indices"] = False
    c = mp.MBQCircuit(gen.mk_graph(sp), input_nodes=[nm(i) for i in sp["ins"]], output_nodes=[nm(i) for i in sp["outs"]], **kw)
    g = mp.GraphState()
    g.add_nodes_from(lab(i) for i in sp["nodes"])
    g.add_edges_from((lab(a), lab(b)) for a, b in sp["edges"])
    model = Model(g, [lab(i) for i in sp["ins"]], [lab(i) for i in sp["outs"]],
                  {lab(v): gen.mk_ment(m, lab) for v, m in (sp["ments"] or [])}, default).complete()
    rec = sc["rec"]
    verify(c, model, rec, "construction")
    names = [lab(i) for i in range(sp["n"])]  # what positions in ops mean now
    here = lambda i: names[i % len(names)]
    ctx.event("built", fp.circuit(c))

    def attempt(op, change, edit, what):
        """Applies edit(circuit) when the contents `change(model)` are buildable,
        else requires a refusal that changes nothing."""
        nonlocal model
        target = model.copy()
        change(target)
        try:
            target.build()
            ok = True
        except ValueError:
            ok = False
        before = fp.circuit(c)
        if op.get("fault"):
            with seams.LineFault() as cnt:
                try:
                    edit(rebuilt(c, model.default))
                except Exception:  # noqa: BLE001
                    pass
            f = op["fault"]
            try:
                with seams.LineFault(1 + int(f[0] * cnt.count), f[1]):
                    edit(c)
            except (seams.InjectedInterrupt, seams.InjectedMemoryError):
                ctx.fault(f"abort-{f[1]}")
            except ValueError:
                # a swallowed and re-labelled abort, or a proper refusal
                ctx.fault(f"abort-{f[1]}-as-refusal")
            if not ok:
                # the refused edit must still have no effect when repeated
                before = fp.circuit(c)
        try:
            edit(c)
            done = True
        except Exception as e:  # noqa: BLE001
            done = False
            msg = str(e)
        if done and not ok:
            raise Violation("accepted", f"{what} was accepted although the resulting circuit cannot be built")
        if not done:
            if ok:
                raise Violation("refused", f"{what} was refused: {msg}")
            ctx.fault("refused-edit")
            d = fp.diff(before, fp.circuit(c))
            if d:
                raise Violation("refused-edit-changed-circuit", f"{what}: {d}")
        else:
            model = target
        verify(c, model, rec, what)
        ctx.event(op["op"], done)

    for op in sc["ops"]:
        ctx.step()
        k = op["op"]
        if k == "set":
            v = here(op["node"])
            own = op["own"] and all(c[here(x)] is not None for x in (gen.cond_nodes(op["ment"]["cond"]) if isinstance(op["ment"], dict) else []))
            objs = []

            def edit(x):
                m = gen.mk_ment(op["ment"], here, x if own else None)
                objs.append(m)
                x[v] = m
            attempt(op, lambda t: t.ments.__setitem__(v, gen.mk_ment(op["ment"], here)), edit, f"set {v} to {op['ment']}")
            if op["poke"]:
                for m in objs:  # the caller goes on using its object
                    m.set_angle(1.125 if m._angle is None or m._plane in ("X", "Y", "Z") else None)
                    m.node_id = here(op["node"] + 1)
                verify(c, model, rec, f"set {v} and the caller reusing its object")
        elif k == "share":
            a, b = here(op["nodes"][0]), here(op["nodes"][-1])
            m = gen.mk_ment(op["ment"])

            def edit(x):
                x[a] = m
                x[b] = m

            def change(t):
                t.ments[a] = gen.mk_ment(op["ment"])
                t.ments[b] = gen.mk_ment(op["ment"])
            mid = model.copy()
            mid.ments[a] = gen.mk_ment(op["ment"])
            try:
                mid.build()
            except ValueError:
                continue
            attempt(op, change, edit, f"set {a} and {b} to one object")
        elif k == "del":
            v = here(op["node"])
            attempt(op, lambda t: t.ments.__setitem__(v, None), lambda x: x.__delitem__(v), f"delete {v}")
        elif k == "table":
            def change(t):
                t.ments = {here(v): gen.mk_ment(m, here) for v, m in op["ments"]}
                t.complete()

            def edit(x):
                given = {here(v): gen.mk_ment(m, here) for v, m in op["ments"]}
                keep = dict(given)
                try:
                    x.measurements = given
                finally:
                    if given.keys() != keep.keys() or any(given[q] is not keep[q] for q in keep):
                        raise Violation("caller-data-modified", "assigning the table changed the caller's dictionary")
            attempt(op, change, edit, f"table {op['ments']}")
        elif k in ("edge", "edges"):
            es = [(here(a), here(b)) for a, b in op["edges"] if here(a) != here(b)]
            if op["new"] and es and isinstance(names[0], int):
                es[-1] = (es[-1][0], max(model.nodes) + 5)

            def change(t):
                for a, b in es:
                    for x in (a, b):
                        if x not in t.nodes:
                            t.nodes.append(x)
                    t.edges.add(frozenset((a, b)))
                t.complete()
            if k == "edge":
                if not es:
                    continue
                attempt(op, change, lambda x: x.add_edge(*es[0]), f"add_edge {es[0]}")
            else:
                attempt(op, change, lambda x: x.add_edges_from(list(es)), f"add_edges_from {es}")
        elif k == "bad":
            bad = {"none": None, "float": 0.5, "str": "XY", "list": [0.1]}[op["value"]]
            v, kind = here(op["node"]), op["kind"]
            alien = 977 if isinstance(names[0], int) else "zz"
            before = fp.circuit(c)
            try:
                if kind == "set-node":
                    c[alien] = mp.Ment("X")
                elif kind == "set-value":
                    c[v] = bad
                elif kind == "del-node":
                    del c[alien]
                elif kind == "table-node":
                    c.measurements = {v: mp.Ment("Y"), alien: mp.Ment("X")}
                elif kind == "table-value":
                    if bad is None:
                        continue
                    c.measurements = {v: bad}
                elif kind == "cond-self":
                    c[v] = gen.mk_ment({"cond": ["o", v], "t": ["XY", None], "f": ["X", None]}, lambda x: x)
                else:
                    c[v] = gen.mk_ment({"cond": ["o", alien], "t": ["XY", None], "f": ["X", None]}, lambda x: x)
            except Exception:  # noqa: BLE001
                ctx.fault("refused-edit")
            else:
                raise Violation("accepted", f"invalid edit {kind} ({op['value']}) was accepted")
            d = fp.diff(before, fp.circuit(c))
            if d:
                raise Violation("refused-edit-changed-circuit", f"{kind}: {d}")
            verify(c, model, rec, f"refused {kind}")
        elif k == "read":
            before = fp.circuit(c)
            ctx.probe(f"read-{op['what']}")
            f = op.get("fault")
            rng_seed = op["es"]
            seams.entropy(rng_seed, "mixed")
            try:
                if f:
                    with seams.LineFault() as cnt:
                        try:
                            read(op["what"], rebuilt(c, model.default), rng_seed)
                        except Exception:  # noqa: BLE001
                            pass
                    with seams.LineFault(1 + int(f[0] * cnt.count), f[1]):
                        read(op["what"], c, rng_seed)
                else:
                    read(op["what"], c, rng_seed)
            except (seams.InjectedInterrupt, seams.InjectedMemoryError):
                ctx.fault(f"abort-{f[1]}")
            except Exception:  # noqa: BLE001  other properties judge whether it works
                ctx.probe(f"read-{op['what']}-raised")
            d = fp.diff(before, fp.circuit(c))
            if d:
                raise Violation("read-only-use-changed-circuit", f"{op['what']}: {d}")
            verify(c, model, rec, f"read-only {op['what']}")
        elif k == "stack":
            if not all(isinstance(v, int) for v in model.nodes) or sorted(model.nodes) != list(range(len(model.nodes))):
                continue
            if len(model.nodes) + op["sp"]["n"] > 11:
                continue
            o = gen.build(op["sp"])
            bc, bo = fp.circuit(c), fp.circuit(o)
            how = op["how"]
            a, b = (o, c) if how.endswith("first") else (c, o)
            try:
                if how[0] == "h":
                    s = mp.hstack([a, b])
                elif how[0] == "v":
                    s = mp.vstack([a, b])
                else:
                    s = mp.merge(a, b, along=[(a.output_nodes[0], b.input_nodes[0])])
            except ValueError:
                ctx.probe("stack-refused")
                continue
            ctx.probe("stacked")
            for nm_, x, bx in (("first", c, bc), ("other", o, bo)):
                d = fp.diff(bx, fp.circuit(x))
                if d:
                    raise Violation("stacking-changed-part", f"{how}: {nm_}: {d}")
            sm = Model(s.graph, s.input_nodes, s.output_nodes, {v: None if m is None else _own(m, v) for v, m in s.measurements.items()}, mp.Ment("XY"))
            verify(s, sm, rec, "stacking")
            # edits of the result stay in the result
            vs = list(s.graph.nodes)
            for j in range(2):
                v = vs[(op["e"] >> (4 * j)) % len(vs)]
                try:
                    s[v] = mp.Ment(0.777, "XY")
                    sm.ments[v] = mp.Ment(0.777, "XY")
                except ValueError:
                    pass
            verify(s, sm, rec, "edits of a stack")
            for nm_, x, bx in (("first", c, bc), ("other", o, bo)):
                d = fp.diff(bx, fp.circuit(x))
                if d:
                    raise Violation("stack-shares-state", f"editing the stack changed the {nm_} circuit: {d}")
            # and edits of the parts stay in the parts
            bs = fp.circuit(s)
            for x in (c, o):
                v = list(x.graph.nodes)[op["e"] % len(x.graph)]
                old = x[v]
                try:
                    x[v] = mp.Ment(-0.333, "XY")
                except ValueError:
                    continue
                d = fp.diff(bs, fp.circuit(s))
                if d:
                    raise Violation("stack-shares-state", f"editing a part changed the stack: {d}")
                if old is None:
                    del x[v]
                else:
                    x[v] = old
            verify(c, model, rec, "setting a measurement back")
            if op["cont"]:
                c, model, names = s, sm, vs
        ctx.state(fp.circuit(c))
    ctx.event("end", fp.circuit(c))


def _own(m, v):
    m = m.copy()
    m.node_id = v
    return m


def read(what, c, seed):
    if what.startswith("run"):
        be = {"dm": "numpy-dm", "sv": "numpy-sv", "pl": "pennylane"}[what[4:]]
        if len(c) > 7:
            return
        s = mp.PatternSimulator(c, backend=be)
        s.run([0.1 * j for j in range(len(c.trainable_nodes))])
        s.reset()
    elif what == "layers":
        c.ordered_layers()
        c.depth
        len(c), repr(c), c.outputc, c.inputc
        list(c.graph.nodes)
    elif what == "stack":
        mp.vstack([c, c])
        if len(c.input_nodes) == len(c.output_nodes):
            mp.hstack([c, c, c])
    elif what == "merge":
        mp.merge(c, c, along=[(c.output_nodes[-1], c.input_nodes[0])])
    elif what == "deepcopy":
        d = copy.deepcopy(c)
        for v in list(d.graph.nodes)[:2]:
            d[v] = mp.Ment(0.123)
    elif what == "order":
        if c.flow is not None:
            c.calculate_order()
    elif what == "partial":
        if c.flow is not None:
            for a in c.graph.nodes:
                for b in c.graph.nodes:
                    c.partial_order(a, b)
    elif what == "draw":
        import matplotlib.pyplot as plt
        try:
            mp.draw(c)
        finally:
            plt.close("all")
    elif what == "lie":
        if len(c) <= 6:
            mp.utils.calculate_complete_gens_lie_algebra(c)
