"""C13: results are a function of inputs and the seeded global generators only."""
import gc
import json
import os
import random
import subprocess
import sys
import tempfile

from .. import env, gen, ref, seams, sim, tasks
from ..core import Skip, Violation, sub

np, mp = env.np, env.mp

ID = "C13"
N = {"quick": 40, "thorough": 1200}
CHUNK = 1
REDO = 2
PER = 150
ALARM, LINES = 300, 60_000_000  # a run is 150 workloads
RULE = ("run = 150 seeded workloads (circuits with renamed and unordered nodes, flow, stacking, templates, simulation, sampling, "
        "data generation, optimisation, Lie algebra, flow space, drawing) executed in this process, again after a different "
        "history, and in two fresh interpreters with other hash seeds, another order, preceding junk work, a simulated clock "
        "that jumps and another operating-system entropy source; all results must agree and deterministic calls must leave "
        "the global generators untouched; every run injects these faults")
STATE = "distinct (workload, seed) pairs"
REAL = ["the whole library in fresh interpreters"]
STUB = ["clock functions", "os.urandom", "hash seed", "global generator seeds"]
ASSUME = ["results are compared with tolerance 1e-7; one linear-algebra thread"]


def item(rng):
    k = rng.random()
    xy = rng.random() < 0.5
    mix = gen.XYMIX if xy else gen.FULLMIX
    if k < 0.75:
        sp = gen.flow_spec(rng, rng.choice([3, 4, 5, 6, 7]), wmax=3, mix=mix, measured_outputs=0 if xy else rng.choice([0, 0.4]))
    else:
        sp = gen.any_spec(rng, rng.choice([3, 4, 5]), mix=mix)
    sp["style"] = rng.choice(["str", "str", "str", "gap", "int"])
    sp["relabel"] = rng.random() < 0.5
    if rng.random() < 0.04:
        t = {"t": "churn", "family": family(rng), "psi": gen.psi_spec(rng), "angles": gen.angle_table(rng, 8)}
    elif rng.random() < 0.15:
        t = {"t": rng.choice(["space", "draw", "pauli", "grad"]), "rs": rng.getrandbits(20)}
    else:
        t = tasks.task(rng, sp, mix, xy, heavy=sp["n"] <= 5, pl=rng.random() < 0.03)
    return {"sp": sp, "task": t, "rs": rng.getrandbits(31), "profile": rng.choice(["seeded", "seeded", "mixed"])}


def family(rng):
    """Circuits of one size that differ in edges, roles or measurements."""
    sp = gen.flow_spec(rng, rng.choice([4, 5, 6]), wmax=2, mix=gen.XYMIX)
    sp["style"], sp["relabel"] = "int", True
    out = [sp]
    for _ in range(rng.randint(3, 6)):
        q = json.loads(json.dumps(sp))
        m = rng.random()
        if m < 0.5:
            pairs = [[a, b] for a in range(sp["n"]) for b in range(a) if [a, b] not in sp["edges"] and [b, a] not in sp["edges"]]
            rng.shuffle(pairs)
            for e in pairs:
                if ref.causal_flow(range(sp["n"]), sp["edges"] + [e], sp["ins"], sp["outs"]):
                    q["edges"].append(e)
                    break
        elif m < 0.65:
            rng.shuffle(q["outs"])
        elif m < 0.75:
            rng.shuffle(q["ins"])
        else:
            gen.add_ments(rng, q, gen.XYMIX, table=True)
        out.append(q)
    return out


def scenario(rng, i, tier):
    return {"itemops": [item(rng) for _ in range(PER)],
            "envs": [{"hash": rng.choice([0, rng.randrange(1, 2 ** 32 - 1)]), "clock": rng.getrandbits(30), "urandom": rng.getrandbits(30),
                      "order": rng.getrandbits(30), "junk": rng.choice([0.0, 0.2])} for _ in range(2)]}


def needs_entropy(it):
    t = it["task"]
    if t["t"] in ("data", "draw"):  # drawings place free nodes at random
        return True
    if t.get("be") == "pennylane":  # its device seeds itself from the global generator
        return True
    if t["t"] in ("opt", "step") and t["opt"][0] == "rcd":
        return True
    if t["t"] in ("sim", "copyedit", "opt", "stack"):
        # a Z measurement is sampled
        return (any("Z" in json.dumps(m) for _, m in it["sp"]["ments"] or []) or "Z" in json.dumps(t.get("edits", "")))
    return False


def do(it):
    """One workload -> (result, whether the generators were left untouched)."""
    seams.entropy(it["rs"], it["profile"], 30)
    f0 = seams.rng_fingerprint()
    t = it["task"]
    try:
        c = gen.build(it["sp"])
    except Exception as e:  # noqa: BLE001
        return [{"raised": type(e).__name__}, f0 == seams.rng_fingerprint()]
    if t["t"] in EXTRA:
        try:
            r = {"ok": EXTRA[t["t"]](t, c, it["sp"])}
        except Exception as e:  # noqa: BLE001
            r = {"raised": type(e).__name__}
    else:
        r = tasks.run(t, c, it["sp"])
    return [r, f0 == seams.rng_fingerprint(), [plain_rng()]]


def plain_rng():
    """What the generators emit next: the amount of entropy consumed is part of the result."""
    return [float(np.random.random_sample()), random.random()]


def x_space(t, c, sp):
    r = sub(t["rs"], "space")
    d = mp.MBQCircuit(mp.GraphState([(0, 1), (1, 2)] if r.random() < 0.5 else [(0, 1), (1, 2), (2, 3)]), input_nodes=[0], output_nodes=[2])
    f = mp.utils.FlowSpace(d)
    return [[sorted(map(str, g.nodes)), sorted(sorted(map(str, e)) for e in g.edges)] for g in (f.total_graph_space, f.flow_graph_space, f.no_flow_graph_space)]


def x_draw(t, c, sp):
    import matplotlib.pyplot as plt
    mp.draw(c)
    ax = plt.gca()
    out = [sorted(x.get_text() for x in ax.texts), len(ax.patches), [tasks.plain(np.asarray(col.get_offsets())) for col in ax.collections]]
    plt.close("all")
    return out


def x_pauli(t, c, sp):
    r = sub(t["rs"], "pauli")
    n = r.randint(1, 3)
    ops = mp.PauliOp(";".join("".join(r.choice("IXYZ") for _ in range(n)) for _ in range(r.randint(1, 4))))
    out = [str(ops), str(ops[0] * ops[-1]), tasks.plain(ops.symplectic_prod(ops)), str(ops[0].commutator(ops[-1]))]
    out.append(str(c.stabilizers()))
    out.append([str(s) for s in mp.utils.lie_algebra_completion(ops)])
    return out


def x_grad(t, c, sp):
    from .. import opt
    r = sub(t["rs"], "grad")
    d = r.randint(1, 3)
    f = opt.cost_fn(opt.cost_spec(r, d))
    x = np.array([r.uniform(-2, 2) for _ in range(d)])
    return [tasks.plain(mp.gradients.get_gradient(f, x)), tasks.plain(mp.gradients.get_gradient(f, x, method="fd")), tasks.plain(mp.gradients.get_hessian(f, x))]


HISTORY = [None]  # decides the order in which the members of a family are visited


def x_churn(t, c, sp):
    """Circuits of one size, built, used and thrown away one after another."""
    out = [None] * len(t["family"])
    order = list(range(len(out)))
    if HISTORY[0] is not None:
        HISTORY[0].shuffle(order)
    for k in order:
        q = t["family"][k]
        d = gen.build(q)
        psi = gen.mkpsi(t["psi"], len(q["ins"]))
        r = [str(d.stabilizers()),
             d.flow is not None and [[v, d.flow(v)] for v in sorted(d.graph.nodes) if v not in d.output_nodes], list(map(str, d.measurement_order))]
        for f in (mp.utils.calculate_gens_lie_algebra, mp.utils.calculate_lie_algebra):
            try:
                r.append(str(f(d)) if q["n"] <= 5 or f is mp.utils.calculate_gens_lie_algebra else None)
            except Exception as e:  # noqa: BLE001
                r.append(type(e).__name__)
        for be in ("numpy-sv", "numpy-dm"):
            r.append(tasks.plain(sim.make(d, q, psi, be).run(sim.angle_vec(d, q, dict(enumerate(t["angles"]))))))
        out[k] = r
        del d
        gc.collect(0)
    return out


EXTRA = {"churn": x_churn, "space": x_space, "draw": x_draw, "pauli": x_pauli, "grad": x_grad}


def work(items, e):
    """Executes items in the order and after the history the environment dictates."""
    r = sub(e["order"], "order")
    idx = list(range(len(items)))
    r.shuffle(idx)
    out = [None] * len(items)
    HISTORY[0] = sub(e["order"], "history")
    for i in idx:
        if r.random() < e["junk"]:
            do(item(r))
        out[i] = do(items[i])
    HISTORY[0] = None
    return out


def fresh(items, e):
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    fd, path = tempfile.mkstemp(prefix="dst13")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump({"items": items, "env": e}, f)
        r = subprocess.run([sys.executable, "-m", "dst.child", path], cwd=here, env={**os.environ, "PYTHONHASHSEED": str(e["hash"])},
                           capture_output=True, text=True, timeout=400)
    finally:
        os.unlink(path)
    lines = [x for x in r.stdout.splitlines() if x.startswith("RESULT ")]
    if not lines:
        raise RuntimeError("child failed: " + r.stderr[-1500:])
    return json.loads(lines[-1][7:])


def check(items, a, b, what):
    for i, (x, y) in enumerate(zip(a, b)):
        if not tasks.near(x, y):
            raise Violation("result-depends-on-environment", f"workload {i} ({items[i]['task']['t']}), {what}: {tasks.first(x, y)}")


def run(sc, ctx):
    items = sc["itemops"]
    a = json.loads(json.dumps([do(it) for it in items]))
    ctx.step(len(items))
    for i, (it, r) in enumerate(zip(items, a)):
        ctx.probe(f"{it['task']['t']}" + ("-raised-" + r[0]["raised"] if "raised" in r[0] else ""))
        if not needs_entropy(it):
            ctx.probe("generators-untouched")
            if not r[1]:
                raise Violation("entropy-consumed", f"workload {i} ({it['task']['t']}) needs no randomness but changed the state of the global generators")
        ctx.state([it["sp"], it["task"], it["rs"]])
    b = json.loads(json.dumps(work(items, {"order": sc["envs"][0]["order"] + 1, "junk": 0.1})))
    ctx.fault("other-history")
    check(items, a, b, "same process, other history")
    for e in sc["envs"]:
        g = fresh(items, e)
        for k in ("hash-seed", "restart", "clock-jumps", "os-entropy", "other-order"):
            ctx.fault(k)
        check(items, a, g["results"], f"fresh interpreter, hash seed {e['hash']}")
    ctx.event([r[0].keys() == {"ok"} for r in a])


def shrink(sc):
    if len(sc["envs"]) > 1:
        for e in sc["envs"]:
            yield {**sc, "envs": [e]}
    for k, e in enumerate(sc["envs"]):
        if e["junk"]:
            es = list(sc["envs"])
            es[k] = {**e, "junk": 0.0}
            yield {**sc, "envs": es}
