"""C16: a copied or restored object resumes exactly where the original stood."""
import copy
import json
import os
import subprocess
import sys
import tempfile

import dill

from .. import env, fp, gen, opt, seams, sim
from ..core import Skip, Violation, sub

np, mp = env.np, env.mp

ID = "C16"
N = {"quick": 9000, "thorough": 250000}
CHUNK = 25
RULE = ("run = one circuit, numpy simulator or optimiser driven to a random point of its history (also into an aborted "
        "call), checkpointed by deepcopy or serialisation, restored after the process is lost (only the bytes survive, "
        "some are restored in a fresh interpreter), and continued next to the original under the same entropy; afterwards "
        "each of the two is changed and the other watched; every run injects a checkpoint")
STATE = "distinct (object, history, checkpoint) triples"
REAL = ["MBQCircuit, Ment, ControlMent, MentOutcome, Flow", "PatternSimulator with the numpy backends", "optimisers", "copy.deepcopy, dill"]
STUB = ["entropy words installed by the simulator", "aborts raised by a line tracer"]
ASSUME = ["objects are serialised with dill (pickle cannot serialise the closures a circuit holds)"]
HOW = ["deepcopy", "dill", "dill", "double", "dill-deepcopy", "bundle"]


def scenario(rng, i, tier):
    if i % 400 == 7:
        return {"kind": "fresh", "parts": [part(rng, dump=True) for _ in range(40)]}
    return part(rng)


def part(rng, dump=False):
    k = rng.choice(["circuit", "sim", "sim", "opt"])
    sc = {"kind": k, "how": rng.choice(HOW if not dump else ["dill"]), "es": rng.getrandbits(31), "psi": gen.psi_spec(rng)}
    if k == "opt":
        d = rng.choice([1, 2, 3])
        sc.update(opt=opt.opt_spec(rng), cost=opt.cost_spec(rng, d), x0=[round(rng.uniform(-2, 2), 4) for _ in range(d)],
                  pre=rng.randint(0, 5), post=rng.randint(1, 5), abort=round(rng.random(), 4) if rng.random() < 0.2 else None)
        return sc
    be = rng.choice(["numpy-dm", "numpy-dm", "numpy-sv"])
    mix = gen.FULLMIX if be == "numpy-dm" else gen.XYMIX
    sp = gen.flow_spec(rng, rng.choice([2, 3, 4, 5]), wmax=2, mix=mix, measured_outputs=rng.choice([0, 0.4]))
    gen.restyle(rng, sp, 0.3)
    sc.update(sp=sp, backend=be)
    nodes = list(range(sp["n"]))

    def edits(n):
        out = []
        for _ in range(n):
            m = gen.ment(rng, mix)
            if rng.random() < 0.35 and be == "numpy-dm":
                m = {"cond": gen.cond(rng, rng.sample(nodes, min(2, len(nodes))), 1), "t": gen.ment(rng, mix), "f": gen.ment(rng, mix)}
            out.append({"op": rng.choice(["set", "set", "set", "del", "edge", "order"]), "node": rng.choice(nodes), "ment": m, "edge": rng.sample(nodes, 2),
                        "s": rng.getrandbits(20)})
        return out

    def simops(n, first):
        out = []
        for _ in range(n):
            o = {"op": rng.choice(["measure", "measure", "run", "reset", "resetpsi", "edit"] if not first else ["measure", "measure", "run", "reset", "resetpsi"]),
                 "angles": gen.angle_table(rng, sp["n"]), "psi": gen.psi_spec(rng), "count": rng.randint(1, 3), "node": rng.choice(nodes), "ment": gen.ment(rng, mix),
                 "abort": round(rng.random(), 4) if first and rng.random() < 0.25 else None}
            out.append(o)
        return out
    sc["editops"] = edits(rng.randint(0, 4))
    if k == "sim":
        sc.update(preops=simops(rng.randint(0, 4), True), postops=simops(rng.randint(1, 4), False), window=rng.choice([None, None, "N"]))
    else:
        sc["postops"] = edits(rng.randint(1, 4))
    return sc


# ------------------------------------------------------------------ driving
def edit(c, sp, op):
    """Applies one edit; returns what happened."""
    lab = lambda i: gen.label(sp, i)
    try:
        if op["op"] == "set":
            c[lab(op["node"])] = gen.mk_ment(op["ment"], lab)
        elif op["op"] == "del":
            if lab(op["node"]) in c.output_nodes:
                del c[lab(op["node"])]
        elif op["op"] == "edge":
            c.add_edge(lab(op["edge"][0]), lab(op["edge"][1]))
        elif op["op"] == "order":
            mo = list(c.measurement_order or [])
            if len(mo) > 1:
                j = op["s"] % (len(mo) - 1)
                mo[j], mo[j + 1] = mo[j + 1], mo[j]
                c.measurement_order = mo
        return "done"
    except ValueError:
        return "refused"


def look(c, sp, seed):
    """Everything observable about a circuit, as plain data."""
    d = fp.circuit(c)
    r = sub(seed, "look")
    rec = {v: r.randint(0, 1) for v in c.graph.nodes}
    d["conditions"] = {str(v): bool(c[v].condition(dict(rec))) for v in c.controlled_nodes}
    d["outcomes"] = {str(v): int(c[v].outcome(dict(rec))) for v in c.graph.nodes if c[v] is not None}
    d["settings"] = {str(v): np.round(np.asarray(m.matrix(0.3 if m.is_trainable() else None, dict(rec))), 9).tolist().__repr__()
                     for v, m in c.measurements.items() if m is not None}
    return d


def plain(x):
    x = np.asarray(x)
    return [list(x.shape), np.round(x.real, 9).ravel().tolist(), np.round(x.imag, 9).ravel().tolist()]


def near(a, b):
    """Equality of plain results with numeric tolerance."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(near(a[k], b[k]) for k in a)
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, str) or a is None:
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-7 or (a != a and b != b)
    return a == b


def drive(s, sc, ops, k, seed):
    """Continues a simulator; returns plain results of every call."""
    sp = sc["sp"]
    out = []
    for j, op in enumerate(ops):
        seams.entropy(seed + j, "mixed", 30)
        try:
            if op["op"] == "measure":
                for t in range(op["count"]):
                    st, o = s.measure(op["angles"][t])
                    out.append(["measure", plain(st), float(np.real(o))])
            elif op["op"] == "run":
                v = sim.angle_vec(s.mbqcircuit, sp, dict(enumerate(op["angles"])))
                out.append(["run", plain(s.run(v))])
            elif op["op"] == "reset":
                s.reset()
            elif op["op"] == "resetpsi":
                s.reset(input_state=gen.mkpsi(op["psi"], k))
            elif op["op"] == "edit":
                v = gen.label(sp, op["node"])
                if s.mbqcircuit[v] is not None:
                    s.mbqcircuit[v] = gen.mk_ment(op["ment"])
        except Exception as e:  # noqa: BLE001
            out.append(["raised", type(e).__name__])
        out.append({str(a): int(b) for a, b in dict(s.outcomes).items()})
        out.append(plain(s.qstate) if s.qstate is not None else None)
    return out


def prepare(sc, ctx=None):
    """The object at its checkpoint, and a function continuing any such object."""
    es = sc["es"]
    if sc["kind"] == "opt":
        o = opt.make(sc["opt"])
        f = opt.cost_fn(sc["cost"])
        x = np.array(sc["x0"])
        seams.entropy(es, "seeded")
        for i in range(sc["pre"]):
            x = o.step(f, x, i)
        if sc["abort"] is not None:
            try:
                with seams.LineFault(1 + int(sc["abort"] * 30)):
                    o.step(f, x, sc["pre"])
            except seams.InjectedInterrupt:
                if ctx:
                    ctx.fault("abort-interrupt")

        def go(ob):
            seams.entropy(es + 1, "seeded")
            y, out = x, []
            for i in range(sc["pre"], sc["pre"] + sc["post"]):
                y = ob.step(f, y, i)
                out.append([float(t) for t in y])
            ob.reset()
            out.append([float(t) for t in ob.optimize(f, np.array(sc["x0"]), num_iters=3)])
            return out
        return o, go
    sp = sc["sp"]
    c = gen.build(sp)
    for op in sc["editops"]:
        edit(c, sp, op)
    k = len(sp["ins"])
    if sc["kind"] == "circuit":
        def go(ob):
            out = [look(ob, sp, es)]
            for op in sc["postops"]:
                out.append(edit(ob, sp, op))
                out.append(look(ob, sp, es))
            seams.entropy(es, "seeded")
            try:
                s = mp.PatternSimulator(ob, gen.mkpsi(sc["psi"], k), backend=sc["backend"])
                out.append(plain(s.run([0.2 * j for j in range(len(ob.trainable_nodes))])))
            except Exception as e:  # noqa: BLE001
                out.append(type(e).__name__)
            if all(isinstance(v, int) for v in ob.graph.nodes) and sp["relabel"]:
                try:
                    out.append(look(mp.vstack([ob, ob]), sp, es))
                except ValueError as e:
                    out.append("refused")
            return out
        return c, go
    if c.measurement_order is None:
        raise Skip("no flow")
    psi = gen.mkpsi(sc["psi"], k)
    try:
        s = sim.make(c, sp, psi, sc["backend"], sp["n"] if sc["window"] == "N" else None)
    except (ValueError, NotImplementedError):
        raise Skip("circuit refused")
    for j, op in enumerate(sc["preops"]):
        if op["abort"] is None:
            drive(s, sc, [op], k, es + 50 + j)
            continue
        seams.entropy(es + 50 + j, "seeded")
        try:
            with seams.LineFault(1 + int(op["abort"] * 120)):
                v = sim.angle_vec(c, sp, dict(enumerate(op["angles"])))
                s.run(v) if op["op"] == "run" else (s.measure(0.1) if op["op"] == "measure" else s.reset())
        except seams.InjectedInterrupt:
            if ctx:
                ctx.fault("abort-interrupt")
        except Exception:  # noqa: BLE001
            pass

    def go(ob):
        return [{str(a): int(b) for a, b in dict(ob.outcomes).items()}, plain(ob.qstate)] + drive(ob, sc, sc["postops"], k, es + 200) + [fp.circuit(ob.mbqcircuit)]
    return s, go


def duplicate(obj, how):
    if how == "deepcopy":
        return copy.deepcopy(obj)
    if how == "dill":
        return dill.loads(dill.dumps(obj))
    if how == "double":
        return copy.deepcopy(copy.deepcopy(obj))
    if how == "dill-deepcopy":
        return dill.loads(dill.dumps(copy.deepcopy(obj)))
    return dill.loads(dill.dumps({"a": [obj, 1], "b": obj}))["a"][0]


def touch(sc, obj):
    """Changes an object thoroughly."""
    if sc["kind"] == "opt":
        f = opt.cost_fn(sc["cost"])
        for i in range(2):
            obj.step(f, np.array(sc["x0"]) + 3, i)
        for a in ("m", "v"):
            x = getattr(obj, a, None)
            if isinstance(x, np.ndarray):
                x[...] = 99.0
        return
    c = obj if sc["kind"] == "circuit" else obj.mbqcircuit
    for v in list(c.graph.nodes):
        m = c[v]
        for ch in (lambda: m.set_angle(0.45), lambda: m.true_ment.set_angle(0.3)):  # in place, where the interface offers it
            try:
                ch()
            except Exception:  # noqa: BLE001
                pass
        try:
            if m is not None:
                c[v] = mp.Ment(0.987, "XY")
        except ValueError:
            pass
    if sc["kind"] == "circuit":
        vs = list(c.graph.nodes)
        try:
            c.add_edge(vs[0], vs[-1])
        except ValueError:
            pass
    else:
        obj.reset()
        obj.outcomes["other"] = 1
        if isinstance(obj.qstate, np.ndarray):
            obj.qstate[...] = 0.5
        obj.input_state[...] = 0.25


def run(sc, ctx):
    if sc["kind"] == "fresh":
        return fresh(sc, ctx)
    a, go = prepare(sc, ctx)
    ctx.fault("checkpoint")
    ctx.probe(f"{sc['kind']}-{sc['how']}")
    before = watch(sc, a)
    b = duplicate(a, sc["how"])
    if not near(before, watch(sc, a)):
        raise Violation("copying-changed-original", f"{sc['kind']} {sc['how']}: {_first(before, watch(sc, a))}")
    spare = duplicate(a, sc["how"])
    ra = go(a)
    after_a = watch(sc, a)
    rb = go(b)
    ctx.step(len(ra))
    if not near(ra, rb):
        raise Violation("copy-behaves-differently", f"{sc['kind']} by {sc['how']}: {_first(ra, rb)}")
    if not near(after_a, watch(sc, a)):
        raise Violation("copy-shares-state", f"{sc['kind']} by {sc['how']}: continuing the copy changed the original: {_first(after_a, watch(sc, a))}")
    touch(sc, b)
    if not near(after_a, watch(sc, a)):
        raise Violation("copy-shares-state", f"{sc['kind']} by {sc['how']}: changing the copy changed the original: {_first(after_a, watch(sc, a))}")
    touch(sc, a)
    rs = go(spare)
    if not near(ra, rs):
        raise Violation("copy-shares-state", f"{sc['kind']} by {sc['how']}: changing the original changed a copy: {_first(ra, rs)}")
    ctx.state(sc)
    ctx.event(sc["kind"], sc["how"], len(ra))


def watch(sc, o):
    if sc["kind"] == "opt":
        return [None if getattr(o, n, None) is None else plain(getattr(o, n)) for n in ("m", "v", "step_size")]
    if sc["kind"] == "circuit":
        return look(o, sc["sp"], sc["es"])
    return [{str(a): float(np.real(b)) for a, b in dict(o.outcomes).items()}, plain(o.qstate), plain(o.input_state), fp.circuit(o.mbqcircuit)]


def _first(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if not near(a[k], b.get(k)):
                return f"{k}: {str(a[k])[:200]} != {str(b.get(k))[:200]}"
    if isinstance(a, list) and isinstance(b, list):
        for k, (x, y) in enumerate(zip(a, b)):
            if not near(x, y):
                return f"result {k}: {_first(x, y)}"
    return f"{str(a)[:200]} != {str(b)[:200]}"


def fresh(sc, ctx):
    """The process is lost; a new interpreter continues from the bytes."""
    jobs, want = [], []
    for p in sc["parts"]:
        try:
            a, go = prepare(p, ctx)
        except Skip:
            continue
        jobs.append([p, dill.dumps(a).hex()])
        want.append(go(a))
        ctx.fault("crash-restart")
    fd, path = tempfile.mkstemp(prefix="dst16")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(jobs, f)
        here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        e = {**os.environ, "PYTHONHASHSEED": str(len(jobs) + 17)}
        r = subprocess.run([sys.executable, "-m", "dst.props.c16", path], cwd=here, env=e, capture_output=True, text=True, timeout=300)
        lines = [x for x in r.stdout.splitlines() if x.startswith("RESULT ")]
        if not lines:
            raise Violation("restore-failed", r.stderr[-600:])
        got = json.loads(lines[-1][7:])
    finally:
        os.unlink(path)
    for (p, _), w, g in zip(jobs, want, got):
        w = json.loads(json.dumps(w))
        if isinstance(g, str):
            raise Violation("restore-failed", f"{p['kind']}: {g}")
        if not near(w, g):
            raise Violation("restored-behaves-differently", f"{p['kind']} in a fresh interpreter: {_first(w, g)}")
    ctx.step(len(jobs))
    ctx.event("fresh", len(jobs))


def shrink(sc):
    if sc["kind"] == "fresh":
        ps = sc["parts"]
        for size in (20, 10, 5, 1):
            for j in range(0, len(ps), size):
                if len(ps) > size:
                    yield {**sc, "parts": ps[j:j + size]}
        return
    for h in ("deepcopy", "dill"):
        if sc["how"] != h:
            yield {**sc, "how": h}
    if "sp" in sc:
        sp = sc["sp"]
        if sp["style"] != "int" or not sp["relabel"]:
            yield {**sc, "sp": {**sp, "style": "int", "relabel": True}}
        for j in range(len(sp["edges"])):
            yield {**sc, "sp": {**sp, "edges": sp["edges"][:j] + sp["edges"][j + 1:]}}


if __name__ == "__main__":
    res = []
    for p, hx in json.load(open(sys.argv[1])):
        try:
            o = dill.loads(bytes.fromhex(hx))
            seams.entropy(0, "seeded")
            _, go = prepare(p)
            res.append(go(o))
        except Exception as e:  # noqa: BLE001
            res.append(f"{type(e).__name__}: {e}")
    print("RESULT " + json.dumps(res))
