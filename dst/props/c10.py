"""C10: optimiser runs are reproducible, crash-safe and follow their update rule."""
from .. import env, gen, opt, seams
from ..core import Skip, Violation

np, mp = env.np, env.mp
from mentpy.gradients import get_gradient  # noqa: E402

ID = "C10"
N = {"quick": 30000, "thorough": 400000}
CHUNK = 40
RULE = ("run = one or two optimisers under a random history of optimisations through all entry points and of resets, "
        "with the cost function, the callback or any source line failing at a chosen instant, steered coordinate "
        "choices and a caller that keeps every iterate; each iterate is compared with the textbook rule; non-trivial "
        "when a failure fired")
STATE = "distinct (optimiser, history) trajectories"
REAL = ["AdamOptimizer, SGDOptimizer, RCDOptimizer", "mentpy.gradients", "NumpySimulatorSV in the costs built on a simulation"]
STUB = ["entropy words of the coordinate choice installed by the simulator", "failures raised by the cost, the callback or a line tracer"]
ASSUME = ["the gradient is the one mentpy.gradients evaluates (its exactness is N01)",
          "an optimiser is reset between optimisations; optimising on without reset is not specified"]
EXC = {"runtime": RuntimeError, "value": ValueError, "key": KeyError, "stop": StopIteration, "interrupt": KeyboardInterrupt,
       "memory": MemoryError, "attr": AttributeError, "warn": UserWarning}


def scenario(rng, i, tier):
    spec = opt.opt_spec(rng)
    ops = []
    d = rng.choice([1, 2, 2, 3, 4])
    m = rng.random()
    if m < 0.06:
        d = rng.randint(5, 24)
    for _ in range(rng.randint(1, 4)):
        cost = ["sim", d, rng.getrandbits(20)] if rng.random() < 0.03 and d <= 3 else opt.cost_spec(rng, d)
        op = {"entry": rng.choice(["optimize", "optimize", "norm", "norm", "steps", "steps"]), "iters": rng.choice([0, 1, 2, 3, 5, 8, 12]), "cost": cost,
              "x0": [round(rng.uniform(-2, 2), 4) for _ in range(d)], "form": rng.choice(["array", "array", "list", "int", "tuple", "f32"]),
              "kw": opt.grad_kw(rng) if spec[0] != "rcd" else {}, "es": rng.getrandbits(31), "verbose": rng.random() < 0.08,
              "callback": rng.random() < 0.8, "decay": rng.random() < 0.1, "fault": None}
        if 0.06 < m < 0.08 and d <= 3:
            # compared step by step: over many steps rounding would be amplified
            op["iters"], op["callback"] = rng.randint(30, 160), True
        if cost[0] in ("big", "huge"):
            op["callback"] = True
        if op["form"] == "int":
            op["x0"] = [rng.randint(-2, 2) for _ in range(d)]
        if op["form"] == "tuple" and spec[0] != "rcd":
            op["form"] = "array"
        if rng.random() < 0.5:
            op["fault"] = [rng.choice(["cost", "cost", "callback", "line"]), round(rng.random(), 4), rng.choice(sorted(EXC))]
        ops.append(op)
    return {"opt": spec, "ops": ops, "two": opt.opt_spec(rng) if rng.random() < 0.25 else None, "order": rng.getrandbits(40)}


def start(op):
    x = op["x0"]
    return {"array": lambda: np.array(x, dtype=float), "int": lambda: np.array(x, dtype=int), "list": lambda: list(x),
            "tuple": lambda: tuple(x), "f32": lambda: np.array(x, dtype=np.float32)}[op["form"]]()


class Watch:
    """Keeps every iterate as object and as value."""

    def __init__(self):
        self.objs, self.vals, self.idx = [], [], []

    def add(self, x, i=None):
        self.objs.append(x)
        self.vals.append(np.array(x, dtype=float, copy=True))
        self.idx.append(i)

    def verify(self, what):
        for k, (o, v) in enumerate(zip(self.objs, self.vals)):
            if not np.array_equal(np.array(o, dtype=float), v):
                raise Violation("iterate-modified", f"{what}: iterate {k} handed out as {v} became {o}")


def evaluated(f, x, kw):
    g = get_gradient(f, x, **kw)
    want, err = opt.gradient(f, x, kw)
    if np.shape(g) != want.shape or not np.all(np.abs(np.asarray(g) - want) <= 1e-6 * (1e-6 + np.abs(want)) + err):
        raise Violation("wrong-gradient", f"at {list(x)} with {kw}: {g}, the evaluations give {want}")
    return g


def close(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-8 * (1 + np.abs(b))))


def run(sc, ctx):
    o = opt.make(sc["opt"])
    spec = [sc["opt"][0], dict(sc["opt"][1])]
    for k, op in enumerate(sc["ops"]):
        ctx.step()
        if k:
            o.reset()
        one(sc, o, spec, op, ctx)
    if sc["two"]:
        interleaved(sc, ctx)


def one(sc, o, spec, op, ctx):
    kind, n = spec[0], op["iters"]
    f = opt.cost_fn(op["cost"])
    book = opt.Textbook(spec)
    x0 = start(op)
    keep0 = np.array(x0, copy=True)
    watch = Watch()
    watch.add(x0)
    fault = op["fault"]
    exc = None
    evals_per_iter = 2 if kind == "rcd" else 2 * len(op["x0"])
    cost = opt.Recorder(f)
    fail_cb = None
    if fault and fault[0] != "line":
        exc = EXC[fault[2]]("injected")
        if fault[0] == "cost":
            cost.at, cost.exc = 1 + int(fault[1] * max(1, n) * evals_per_iter), exc
        else:
            fail_cb = int(fault[1] * max(1, n))
    seen = {"k": 0, "x": np.array(x0, dtype=float), "norms": []}
    step0 = getattr(o, "step_size", None)

    def advance(x):
        """The next iterate must be the textbook one."""
        x = np.array(x, dtype=float)
        prev = seen["x"]
        ev = cost.drain()
        if kind == "rcd":
            pg = opt.partial_gradient(prev, ev)
            if pg is None:
                raise Violation("not-a-coordinate-step", f"evaluations {[p.tolist() for p, _ in ev]} at iterate {prev.tolist()}")
            g = np.zeros(len(prev))
            g[pg[0]] = pg[1]
            ctx.probe(f"coordinate-{pg[0]}")
        else:
            g = evaluated(f, prev, op["kw"])
        want = book.update(prev, g)
        tol = 1e-8 if kind != "rcd" else 1e-6
        if x.shape != want.shape or not np.all(np.abs(x - want) <= tol * (1 + np.abs(want) + np.abs(g))):
            raise Violation("not-the-textbook-step", f"{spec} step {seen['k']} from {prev.tolist()}: {x.tolist()}, the rule gives {want.tolist()}")
        if kind == "rcd" and np.any(np.delete(x - prev, pg[0]) != 0):
            raise Violation("other-coordinate-changed", f"coordinate {pg[0]} was chosen, {prev.tolist()} became {x.tolist()}")
        seen["x"], seen["k"] = x, seen["k"] + 1
        seen["norms"].append(float(np.linalg.norm(g)))
        if op["decay"]:
            book.p["step_size"] *= 0.9

    def callback(x, i):
        if i != seen["k"]:
            raise Violation("callback-index", f"callback got index {i} at iterate {seen['k']}")
        watch.add(x, i)
        advance(x)
        if op["decay"]:
            o.update_step_size(x, i, factor=0.9)
        if fail_cb is not None and i == fail_cb:
            raise exc

    use_cb = op["callback"] or op["decay"] or fail_cb is not None or kind == "rcd"
    kw = dict(op["kw"])
    seams.entropy(op["es"], "seeded")

    def call():
        if op["entry"] == "steps":
            x = x0
            for i in range(n):
                x = o.step(cost, x, i, **kw)
                callback(x, i)
            return x
        fn = o.optimize if op["entry"] == "optimize" else o.optimize_and_gradient_norm
        return fn(cost, x0, num_iters=n, callback=callback if use_cb else None, verbose=op["verbose"], **kw)

    caught, res = None, None
    try:
        if fault and fault[0] == "line":
            with seams.LineFault() as cnt:
                t = opt.make(spec)
                fn = t.optimize_and_gradient_norm if op["entry"] == "norm" else t.optimize
                fn(f, start(op), num_iters=n, **kw)
            seams.entropy(op["es"], "seeded")
            try:
                with seams.LineFault(1 + int(fault[1] * max(1, cnt.count)), "interrupt"):
                    res = call()
            except seams.InjectedInterrupt as e:
                caught = e
                ctx.fault("abort-interrupt")
        else:
            res = call()
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, Violation) or exc is None or e is not exc:
            if exc is not None and not isinstance(e, Violation):
                raise Violation("exception-changed", f"the {fault[0]} raised {type(exc).__name__}, the caller got {type(e).__name__}: {e}")
            raise
        caught = e
        ctx.fault(f"{fault[0]}-fails-{fault[2]}")
    if exc is not None and caught is None:
        fired = cost.n >= cost.at if fault[0] == "cost" else seen["k"] > fail_cb
        if fired:
            raise Violation("exception-swallowed", f"the {fault[0]} raised {type(exc).__name__}, nothing reached the caller")
    if caught is None:
        norms = None
        if op["entry"] == "norm":
            if not isinstance(res, tuple) or len(res) != 2:
                raise Violation("malformed-result", f"{res}")
            res, norms = res
        if use_cb or op["entry"] == "steps":
            if seen["k"] != n:
                raise Violation("iterate-missed", f"{seen['k']} callbacks for {n} iterations")
            final = seen["x"]
        else:
            x = np.array(x0, dtype=float)
            for i in range(n):
                g = evaluated(f, x, op["kw"])
                seen["norms"].append(float(np.linalg.norm(g)))
                x = book.update(x, g)
            final = x
        if not close(res, final):
            raise Violation("wrong-result", f"{spec} {op['entry']}: returned {np.asarray(res).tolist()}, the last iterate is {final.tolist()}")
        if norms is not None:
            tol = 1e-6 if op["cost"][0] not in ("big", "huge") else 1e-2
            if len(norms) != n or not all(abs(a - b) <= tol * (1 + abs(b)) for a, b in zip(norms, seen["norms"])):
                raise Violation("wrong-gradient-norms", f"{list(norms)}, expected {seen['norms']}")
        ctx.state([spec, op["entry"], np.round(final, 9).tolist()])
    elif op["entry"] == "steps" and fault[0] == "cost":
        # the failed step is repeated: as if it had not been tried
        x, left = watch.objs[-1], max(1, min(4, n - seen["k"]))
        cost = opt.Recorder(f)
        for j in range(left):
            i = seen["k"]
            prev = np.array(x, dtype=float)
            x = o.step(cost, x, i, **kw)
            try:
                advance(x)
            except Violation as v:
                raise Violation("failed-step-left-traces", f"step {i} at {prev.tolist()}, repeated after a failure: {v}")
            if op["decay"]:
                o.update_step_size(x, i, factor=0.9)
        ctx.probe("step-repeated")
    if not np.array_equal(np.array(x0), keep0):
        raise Violation("starting-point-modified", f"{keep0.tolist()} became {np.array(x0).tolist()}")
    watch.verify(f"{spec} {op['entry']}")
    if op["decay"]:
        o.step_size = step0  # hyperparameters are the caller's
    ctx.event(op["entry"], seen["k"], repr(caught), [round(float(v), 9) for v in seen["x"]])


def interleaved(sc, ctx):
    """Two optimisers advanced alternately do not influence each other."""
    specs = [sc["opt"], [sc["opt"][0], dict(sc["opt"][1])] if sc["order"] & 1 else sc["two"]]
    objs = [opt.make(s) for s in specs]
    op = sc["ops"][0] if sc["ops"] else None
    if op is None:
        return
    d = len(op["x0"])
    fs = [opt.cost_fn(opt_) for opt_ in (["quad", d, sc["order"] & 0xFFFF], ["trig", d, sc["order"] >> 16 & 0xFFFF])]
    recs = [opt.Recorder(f) for f in fs]
    books = [opt.Textbook(s) for s in specs]
    xs = [np.array(op["x0"], dtype=float), np.array(op["x0"], dtype=float) + 0.5]
    its = [0, 0]
    seams.entropy(sc["order"], "seeded")
    for b in range(12):
        j = sc["order"] >> (b + 3) & 1
        x = objs[j].step(recs[j], xs[j], its[j])
        ev = recs[j].drain()
        if specs[j][0] == "rcd":
            pg = opt.partial_gradient(xs[j], ev)
            if pg is None:
                raise Violation("not-a-coordinate-step", "interleaved")
            g = np.zeros(d)
            g[pg[0]] = pg[1]
        else:
            g = get_gradient(fs[j], xs[j])
        want = books[j].update(xs[j], g)
        if not np.all(np.abs(np.asarray(x) - want) <= 1e-6 * (1 + np.abs(want) + np.abs(g))):
            raise Violation("optimisers-influence-each-other", f"{specs} step {its} of {j}: {np.asarray(x).tolist()} instead of {want.tolist()}")
        xs[j], its[j] = np.asarray(x), its[j] + 1
    ctx.fault("interleaved-optimisers")
    ctx.step(12)


def shrink(sc):
    if sc["two"]:
        yield {**sc, "two": None}
    import copy
    for j, op in enumerate(sc["ops"]):
        for k, v in (("form", "array"), ("verbose", False), ("decay", False), ("kw", {}), ("iters", 1), ("iters", 2), ("iters", 3)):
            if op[k] != v:
                c = copy.deepcopy(sc)
                c["ops"][j][k] = v
                yield c
