"""C11: optimisation makes progress within bounded steps once faults stop."""
import math

from .. import env, gen, opt, seams
from ..core import Skip, Violation

np, mp = env.np, env.mp

ID = "C11"
N = {"quick": 6000, "thorough": 200000}
CHUNK = 20
RULE = ("run = one optimiser on a random smooth convex cost, with steered coordinate choices and, at first, failing or "
        "noisy evaluations; after the faults stop it gets a bounded number of iterations (coordinate rounds) and must be "
        "near the minimum; coordinate steps are checked for monotone decrease; non-trivial when a fault fired or the "
        "coordinate sequence was steered")
STATE = "distinct (optimiser, cost, coordinate sequence) histories"
REAL = ["AdamOptimizer, SGDOptimizer, RCDOptimizer", "mentpy.gradients"]
STUB = ["costs with injected failures and noise", "entropy words of the coordinate choice installed by the simulator"]
ASSUME = ["costs have curvature between 0.5 and 2; step sizes suit that curvature",
          "a failed step is retried by the caller", "bounded evaluation noise leaves the gradient bounded"]
MU, L = 0.5, 2.0


def scenario(rng, i, tier):
    d = rng.choice([1, 2, 2, 3, 4]) if rng.random() < 0.95 else rng.randint(5, 20)
    kind = rng.choice(["adam", "sgd", "sgd", "rcd", "rcd", "rcd"])
    if kind == "adam":
        kw = {"step_size": rng.choice([0.05, 0.1])}
        if rng.random() < 0.3:
            kw["b1"] = 0.8
    elif kind == "sgd":
        mom = rng.choice([0.0, 0.0, 0.5, 0.9])
        kw = {"step_size": rng.choice([0.2, 0.4]) if mom == 0 else rng.choice([0.05, 0.15]), "momentum": mom, "nesterov": rng.random() < 0.5}
    else:
        kw = {"step_size": rng.choice([0.25, 0.5]), "adaptive": rng.random() < 0.25}
        if kw["adaptive"]:
            kw["step_size"] = 0.5
    pat = None
    if kind == "rcd":
        pat = rng.choice(["random", "robin", "blocks", "repeat", "late", "palindrome"])
    fault = None
    if rng.random() < 0.6:
        fault = [rng.choice(["fail", "fail", "noise", "both"]), rng.randint(1, 30 if kind == "rcd" else 60), round(rng.uniform(0.05, 0.5), 3)]
    return {"opt": [kind, kw], "cost": [rng.choice(["quad", "quad", "logcosh"]), d, rng.getrandbits(31)], "pattern": pat, "fault": fault,
            "entry": rng.choice(["optimize", "norm", "steps"]), "splits": rng.choice([1, 1, 2, 3]), "es": rng.getrandbits(31),
            "x0": [round(rng.uniform(-3, 3), 4) for _ in range(d)], "deliver": rng.choice(["array", "list"])}


def cost(spec):
    kind, d, s = spec
    rs = np.random.RandomState(s % 2 ** 32)
    Q, _ = np.linalg.qr(rs.normal(size=(d, d)))
    b = rs.uniform(-1.5, 1.5, size=d)
    if kind == "quad":
        A = Q @ np.diag(rs.uniform(MU, L, size=d)) @ Q.T
        return (lambda x: float(0.5 * (x - b) @ A @ (x - b))), b
    w = rs.uniform(0.5, 1.2, size=d)
    return (lambda x: float(np.sum(np.logaddexp(w * (x - b), -w * (x - b)) - math.log(2)) + 0.25 * (x - b) @ (x - b))), b


def words(pattern, d, rng, n=540):
    k = d.bit_length()
    seq = []
    perm = list(range(d))
    rng.shuffle(perm)
    while len(seq) < n:
        if pattern == "robin":
            seq += perm
        elif pattern == "blocks":
            for p in perm:
                seq += [p] * rng.randint(1, 6)
        elif pattern == "repeat":
            seq += [rng.randrange(d)] * rng.randint(1, 12)
        elif pattern == "late":
            seq += perm[:-1] * 8 + perm[-1:]
        elif pattern == "palindrome":
            seq += perm + perm[::-1]
        else:
            seq.append(rng.randrange(d))
    return [(c << (32 - k)) & seams.M32 for c in seq[:n]], seq[:n]


def run(sc, ctx):
    from ..core import sub
    kind, kw = sc["opt"]
    f, xmin = cost(sc["cost"])
    d = sc["cost"][1]
    rng = sub(sc["es"], "c11")
    if sc["pattern"] and sc["pattern"] != "random":
        w, seq = words(sc["pattern"], d, rng)
        seams.install_words(w, rng)
        ctx.fault(f"coordinates-{sc['pattern']}")
    else:
        seams.entropy(sc["es"], "seeded")
    gkw = {} if kind == "rcd" else ({"method": "fd"} if sc["cost"][0] == "logcosh" else rng.choice([{}, {"method": "fd"}]))
    o = opt.make(sc["opt"])
    x = np.array(sc["x0"], dtype=float)
    if sc["deliver"] == "list":
        x = list(x)
    f0 = f(np.asarray(x))
    it = 0

    # ---- phase 1: faulty evaluations
    if sc["fault"]:
        what, budget, level = sc["fault"]
        fd = kind == "rcd" or gkw.get("method") == "fd"
        amp = level * (2e-6 if fd else 0.3)
        cnt = {"n": 0}

        class Boom(Exception):
            pass

        def faulty(p):
            cnt["n"] += 1
            if what in ("fail", "both") and rng.random() < 0.15:
                ctx.fault("evaluation-fails")
                raise Boom()
            y = f(np.asarray(p))
            if what in ("noise", "both"):
                ctx.fault("evaluation-noise")
                y += amp * rng.uniform(-1, 1)
            return y
        tries = 0
        while it < budget and tries < 40 * budget:
            tries += 1
            try:
                x = o.step(faulty, x, it, **gkw)
            except Boom:
                continue  # the caller retries
            it += 1
            if not np.all(np.isfinite(np.asarray(x, dtype=float))) or np.linalg.norm(np.asarray(x) - xmin) > 60:
                raise Violation("diverged-under-bounded-faults", f"{sc['opt']}: {np.asarray(x).tolist()} after {it} faulty steps")
        ctx.step(it)

    # ---- phase 2: faults have stopped
    fstart = f(np.asarray(x, dtype=float))
    rec = opt.Recorder(f)
    hist = [np.array(x, dtype=float)]
    coords = []

    def cb(y, i):
        y = np.array(y, dtype=float)
        ev = rec.drain()
        if kind == "rcd":
            prev = hist[-1]
            ch = np.nonzero(y != prev)[0]
            pg = opt.partial_gradient(prev, ev)
            if pg is None:
                raise Violation("not-a-coordinate-step", f"evaluations {[p.tolist() for p, _ in ev]} at {prev.tolist()}")
            if len(ch) > 1 or (len(ch) == 1 and ch[0] != pg[0]):
                raise Violation("other-coordinate-changed", f"coordinate {pg[0]} was probed, {ch.tolist()} changed")
            coords.append(pg[0])
            if f(y) > f(prev) + 1e-9 * (1 + abs(f(prev))):
                raise Violation("cost-increased", f"{sc['opt']}: {f(prev):.12g} -> {f(y):.12g} on coordinate {pg[0]}")
        hist.append(y)

    bound = {"adam": 500, "sgd": 250, "rcd": 110 * d}[kind]
    if kind == "rcd" and kw.get("adaptive"):
        bound = 250 * d
    parts = [bound] if sc["fault"] else _split(bound, sc["splits"])
    for n in parts:
        if sc["entry"] == "steps" or (sc["fault"] and kind != "rcd"):
            for i in range(n):
                x = o.step(rec, x, it + i, **gkw)
                cb(x, i)
            it += n
        elif sc["entry"] == "norm":
            x, norms = o.optimize_and_gradient_norm(rec, x, num_iters=n, callback=cb, **gkw)
        else:
            x = o.optimize(rec, x, num_iters=n, callback=cb, **gkw)
        ctx.step(n)
    x = np.asarray(x, dtype=float)
    if not np.array_equal(x, hist[-1]):
        raise Violation("result-is-not-last-iterate", f"{x.tolist()} vs {hist[-1].tolist()}")
    final = f(x)
    limit = {"adam": 2e-2, "sgd": 1e-5, "rcd": 1e-2}[kind] * max(1, d / 4)
    if kind == "rcd":
        rounds, seen = 0, set()
        for c in coords:
            seen.add(c)
            if len(seen) == d:
                rounds, seen = rounds + 1, set()
        if sc["pattern"] == "random":
            n = len(coords)
            if n >= 60 * d and len(set(coords)) < d:
                raise Violation("coordinate-never-chosen", f"{sorted(set(range(d)) - set(coords))} of {d} in {n} unsteered steps")
            for k in range(d):
                ctx.add(f"c{d}:{k}", coords.count(k))
                ctx.add(f"n{d}", coords.count(k))
            ctx.add("index", sum(coords) - n * (d - 1) / 2)
            ctx.add("indexv", n * (d * d - 1) / 12)
            ctx.add("repeat", sum(a == b for a, b in zip(coords, coords[1:])) - (n - 1) / d)
            ctx.add("repeatv", (n - 1) / d * (1 - 1 / d))
        if rounds < 25:
            ctx.probe("unfair-coordinates")
            return
        if d > 4:
            limit += 0.1 * fstart
        if kw.get("adaptive"):
            limit = 0.5 * fstart + 1e-3
    if not final <= limit:
        raise Violation("no-convergence", f"{sc['opt']} on {sc['cost'][0]} in {d} dimensions: cost {fstart:.4g} -> {final:.4g} (limit {limit:.3g}) after {bound} fault-free iterations")
    ctx.probe(f"converged-{kind}")
    ctx.state([sc["opt"], sc["cost"], coords[:40]])
    ctx.event("end", round(final, 9))
    if env.os.environ.get("DST_CAL"):
        ctx.probe(f"cal-{kind}-{kw.get('adaptive')}-{math.floor(math.log10(max(final, 1e-16) / (fstart if kw.get('adaptive') else 1)) * 2) / 2}")


def _split(n, k):
    return [n // k] * (k - 1) + [n - (n // k) * (k - 1)]


def aggregate(values):
    """Every coordinate is chosen equally often by the unsteered source."""
    for name in ("index", "repeat"):
        if values.get(name + "v", 0) > 100 and abs(values[name]) > 6.5 * math.sqrt(values[name + "v"]):
            raise Violation("unfair-coordinate-choice", f"{name}: deviation {values[name]:.1f}, standard deviation {math.sqrt(values[name + 'v']):.1f}")
    for d in range(2, 21):
        n = values.get(f"n{d}", 0)
        if n < 1000:
            continue
        for k in range(d):
            p = values.get(f"c{d}:{k}", 0) / n
            if abs(p - 1 / d) > 6.5 * math.sqrt(1 / d * (1 - 1 / d) / n) + 1e-4:
                raise Violation("unfair-coordinate-choice", f"coordinate {k} of {d} chosen with frequency {p:.4f} in {n:.0f} steps")


def shrink(sc):
    for k, v in (("fault", None), ("splits", 1), ("deliver", "array"), ("entry", "steps")):
        if sc[k] != v:
            yield {**sc, k: v}
    if sc["pattern"] not in (None, "random"):
        yield {**sc, "pattern": "random"}
