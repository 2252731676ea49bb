"""Small workloads over one circuit, as JSON, whose results are plain data.
Used for concurrent threads (C08) and for repetition in other processes (C13)."""
import copy

from . import compose, env, fp, gen, opt, seams, sim
from .core import sub

np, mp = env.np, env.mp


def plain(x):
    x = np.asarray(x)
    if x.dtype == object:
        return [plain(y) for y in x]
    if x.dtype.kind in "iub":
        return [list(x.shape), x.astype(int).ravel().tolist()]
    return [list(x.shape), np.round(x.real, 10).ravel().tolist(), np.round(x.imag, 10).ravel().tolist()]


def near(a, b, tol=1e-7):
    """Equality of plain results with numeric tolerance."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(near(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(near(a[k], b[k], tol) for k in a)
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, str) or a is None:
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= tol or (a != a and b != b)
    return a == b


def first(a, b):
    """First difference, as text."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if not near(a[k], b.get(k)):
                return f"{k}: {first(a[k], b.get(k))}"
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{len(a)} entries != {len(b)} entries"
        for k, (x, y) in enumerate(zip(a, b)):
            if not near(x, y):
                return f"[{k}] {first(x, y)}"
    return f"{str(a)[:160]} != {str(b)[:160]}"


# ------------------------------------------------------------------ generation
def sim_task(rng, sp, xy, pl=False):
    be = rng.choice(["numpy-dm"] + (["numpy-dm", "numpy-sv", "numpy-sv"] if xy else []))
    if pl and xy:
        be = "pennylane"
    return {"t": "sim", "be": be, "psi": gen.psi_spec(rng), "window": rng.choice([None, None, "N"]),
            "mode": rng.choice(["sample", "sample", "expectation"]) if be == "numpy-dm" else "sample",
            "ops": [{"how": rng.choice(["run", "reset", "reset", "new", "steps", "input"]), "psi": gen.psi_spec(rng),
                     "angles": gen.angle_table(rng, sp["n"])} for _ in range(rng.choice([1, 2, 2, 3]) if be != "pennylane" else 1)]}


def opt_task(rng, sp, xy):
    return {"t": "opt", "be": "numpy-sv" if xy and rng.random() < 0.6 else "numpy-dm", "opt": opt.opt_spec(rng),
            "psi": gen.psi_spec(rng), "tgt": gen.psi_spec(rng), "x0": gen.angle_table(rng, sp["n"]),
            "iters": rng.randint(1, 3), "how": rng.choice(["optimize", "steps", "norm"])}


def edit_task(rng, sp, mix):
    e = []
    for _ in range(rng.randint(1, 3)):
        e.append([rng.choice(["set", "set", "del", "edge", "order"]), rng.randrange(sp["n"]), gen.ment(rng, mix), rng.sample(range(sp["n"]), 2)])
    return {"t": "copyedit", "edits": e, "then": rng.random() < 0.5}


def task(rng, sp, mix, xy, heavy=True, pl=False):
    k = rng.choice(["sim", "sim", "sim", "opt", "look", "look", "stack", "copyedit", "ments", "build", "data", "step"] + (["lie"] if heavy else []))
    if k == "sim":
        return sim_task(rng, sp, xy, pl)
    if k == "opt":
        return opt_task(rng, sp, xy)
    if k == "copyedit":
        return edit_task(rng, sp, mix)
    if k == "stack":
        return {"t": k, "op": rng.choice(["hstack", "vstack", "merge"]), "pick": rng.getrandbits(20), "run": rng.random() < 0.5}
    if k == "data":
        return {"t": k, "fn": rng.choice(["dataset", "noisy", "haar", "split", "su"]), "q": rng.randint(1, 2), "m": rng.randint(1, 6),
                "test": rng.choice([0.0, 0.3, 0.5, 1.0]), "noise": rng.choice(["brownian", "bitflip"]), "level": rng.choice([0.0, 0.1, 0.4])}
    if k == "step":
        d = rng.randint(1, 3)
        return {"t": k, "opt": opt.opt_spec(rng), "cost": opt.cost_spec(rng, d), "x0": [round(rng.uniform(-2, 2), 4) for _ in range(d)], "iters": rng.randint(1, 4)}
    if k == "ments":
        return {"t": k, "angles": gen.angle_table(rng, sp["n"]), "rec": rng.getrandbits(30)}
    if k == "build":
        return {"t": k, "template": compose.random_template(rng), "psi": gen.psi_spec(rng), "a": rng.getrandbits(20)}
    return {"t": k}


# ------------------------------------------------------------------ execution
def run(t, c, sp, chosen=None):
    """Result of one task on circuit c as plain data; an exception of the code
    under test is a result as well."""
    try:
        return {"ok": globals()["do_" + t["t"]](t, c, sp)}
    except Exception as e:  # noqa: BLE001
        return {"raised": type(e).__name__}


def outcomes(s):
    return {str(a): float(np.real(b)) for a, b in dict(s.outcomes).items()}


def do_sim(t, c, sp):
    k = len(sp["ins"])
    w = len(c.graph) if t["window"] == "N" and t["be"] != "pennylane" else None
    kw = {} if t["mode"] == "sample" else {"mode": t["mode"]}
    out = []
    s = sim.make(c, sp, gen.mkpsi(t["psi"], k), t["be"], w)
    for op in t["ops"]:
        v = sim.angle_vec(c, sp, dict(enumerate(op["angles"])))
        if op["how"] == "new":
            s = sim.make(c, sp, gen.mkpsi(op["psi"], k), t["be"], w)
        elif op["how"] == "reset":
            s.reset(input_state=gen.mkpsi(op["psi"], k))
        elif op["how"] == "steps" and t["be"] != "pennylane":
            s.reset(input_state=gen.mkpsi(op["psi"], k))
            for v in c.measurement_order[:3]:
                m = c[v]
                if m is None:
                    break
                st, o = s.measure(op["angles"][0] if m.is_trainable() else m.angle)
                out.append([plain(st), float(np.real(o))])
            continue
        elif op["how"] == "run":
            s.reset()
        if op["how"] == "input":
            st = s.run(v, input_state=gen.mkpsi(op["psi"], k), **kw)
        else:
            st = s.run(v, **kw)
        out += [plain(st), outcomes(s)]
    return out


def do_opt(t, c, sp):
    k = len(sp["ins"])
    psi, tgt = gen.mkpsi(t["psi"], k), None
    s = sim.make(c, sp, psi, t["be"])
    dim = len(c.quantum_output_nodes)
    tgt = gen.mkpsi(t["tgt"], dim)

    def cost(x):
        s.reset(input_state=psi)
        o = np.asarray(s.run(list(x)))
        return float(1 - np.real(tgt.conj() @ o @ tgt)) if o.ndim == 2 else float(1 - np.abs(np.vdot(tgt, o)) ** 2)
    x0 = np.array(t["x0"][:len(c.trainable_nodes)], dtype=float)
    o = opt.make(t["opt"])
    seen = []
    if t["how"] == "optimize":
        x = o.optimize(cost, x0, num_iters=t["iters"], callback=lambda p, i: seen.append([plain(p), i]))
    elif t["how"] == "norm":
        x = o.optimize_and_gradient_norm(cost, x0, num_iters=t["iters"])
        return plain(x[0]), plain(x[1])
    else:
        x = x0
        for i in range(t["iters"]):
            x = o.step(cost, x, i)
    return [plain(x), seen]


def do_step(t, c, sp):
    o, f = opt.make(t["opt"]), opt.cost_fn(t["cost"])
    x, out = np.array(t["x0"]), []
    for i in range(t["iters"]):
        x = o.step(f, x, i)
        out.append(plain(x))
    return out


def do_look(t, c, sp):
    out = [fp.circuit(c)]
    for st in (lambda: mp.mbqc.flow.find_cflow(c.graph, c.input_nodes, c.output_nodes),
               lambda: mp.mbqc.flow.find_gflow(c.graph, c.input_nodes, c.output_nodes)):
        try:
            r = st()
            f, lay = r[0], r[2] if len(r) > 2 else None
            vs = [v for v in c.graph.nodes if v not in set(c.output_nodes)]
            out.append([[str(sorted(map(str, f(v)))) if isinstance(f(v), (set, frozenset, list)) else str(f(v)) for v in vs] if callable(f) else str(f is None)])
        except ValueError:
            out.append("none")
    return out


def do_ments(t, c, sp):
    r = sub(t["rec"], "rec")
    rec = {v: r.randint(0, 1) for v in c.graph.nodes}
    out = {}
    for j, (v, m) in enumerate(c.measurements.items()):
        if m is None:
            continue
        a = t["angles"][j % len(t["angles"])] if m.is_trainable() else None
        # controlled trainable settings take the angle only if the setting is free
        out[str(v)] = [plain(m.matrix(a, dict(rec))), [plain(x) for x in m.get_povm(a, dict(rec))] if hasattr(m, "get_povm") else None,
                       int(m.outcome(dict(rec)))]
    return out


def do_stack(t, c, sp):
    if t["op"] == "merge":
        k = min(len(c.input_nodes), len(c.output_nodes))
        r = sub(t["pick"], "m")
        j = r.randint(1, k)
        d = mp.merge(c, c, along=list(zip(r.sample(list(c.output_nodes), j), r.sample(list(c.input_nodes), j))))
    else:
        d = getattr(mp, t["op"])([c, c])
    out = [fp.circuit(d)]
    if t["run"] and len(d.graph) <= 9:
        s = mp.PatternSimulator(d, backend="numpy-dm")
        out.append(plain(s.run([0.1 * i for i in range(len(d.trainable_nodes))])))
    return out


def do_copyedit(t, c, sp):
    d = copy.deepcopy(c)
    out = []
    lab = lambda i: gen.label(sp, i)
    for op, v, m, e in t["edits"]:
        try:
            if op == "set":
                d[lab(v)] = gen.mk_ment(m)
            elif op == "del" and lab(v) in d.output_nodes:
                del d[lab(v)]
            elif op == "edge":
                d.add_edge(lab(e[0]), lab(e[1]))
            elif op == "order" and d.measurement_order:
                d.measurement_order = list(d.measurement_order)
        except ValueError:
            out.append("refused")
        out.append(fp.circuit(d))
    if t["then"]:
        s = mp.PatternSimulator(d, backend="numpy-dm")
        out.append(plain(s.run([0.3 * i for i in range(len(d.trainable_nodes))])))
    return out


def do_build(t, c, sp):
    d = compose.template(t["template"])
    out = [fp.circuit(d)]
    if len(d.graph) <= 12:
        s = mp.PatternSimulator(d, gen.mkpsi(t["psi"], len(d.input_nodes)), backend="numpy-sv")
        r = sub(t["a"], "ang")
        out.append(plain(s.run([r.uniform(-3, 3) for _ in d.trainable_nodes])))
    return out


def do_data(t, c, sp):
    u = mp.utils
    if t["fn"] == "haar":
        return plain(u.generate_haar_random_states(t["q"], n_samples=t["m"]))
    if t["fn"] == "su":
        return plain(mp.gates.random_su(t["q"]))
    if t["fn"] == "dataset":
        a, b = u.generate_random_dataset(mp.gates.random_su(t["q"]), t["m"], test_size=t["test"])
    elif t["fn"] == "noisy":
        a, b = u.generate_random_dataset_noisy(mp.gates.random_su(t["q"]), t["m"], t["level"], test_size=t["test"], noise_type=t["noise"])
    else:
        xs = u.generate_haar_random_states(1, n_samples=t["m"])
        xs = np.atleast_2d(xs)
        a, b = u.train_test_split(xs, xs, test_size=t["test"], randomize=True)
    return [[[plain(y) for y in x] for x in part] for part in (a, b)]


def do_lie(t, c, sp):
    try:
        g = mp.utils.calculate_gens_lie_algebra(c)
    except ValueError:
        return "refused"
    a = mp.utils.calculate_lie_algebra(c)
    return [str(g), str(a)]
