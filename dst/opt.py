"""Optimisers: costs as JSON, textbook models, instrumented cost functions."""
import math

from . import env, gen

np, mp = env.np, env.mp


# ------------------------------------------------------------------ costs
def cost_spec(rng, d):
    k = rng.choice(["quad", "trig", "mixed", "trig"])
    r = rng.random()
    if r < 0.16:
        k = rng.choice(["const", "flat", "big", "huge", "tiny"])
    return [k, d, rng.getrandbits(31)]


def cost_fn(spec):
    k, d, s = spec
    if k == "sim":
        return sim_cost(d, s)
    rs = np.random.RandomState(s % 2 ** 32)
    A = rs.normal(size=(d, d))
    A = A @ A.T / d + 0.2 * np.eye(d)
    b, w, a = rs.normal(size=d), rs.uniform(0.3, 1.3, size=d), rs.normal(size=d)

    def quad(x):
        return float(0.5 * (x - b) @ A @ (x - b))

    def trig(x):
        return float(a @ np.sin(w * x + b) + 0.3 * np.prod(np.cos(x)))

    def flat(x):
        # only the even coordinates matter
        return float(np.sum(np.sin(w * np.asarray(x) + b)[::2]))
    return {"quad": quad, "trig": trig, "mixed": lambda x: quad(x) + trig(x), "const": lambda x: 0.75, "flat": flat,
            "big": lambda x: 300.0 * trig(x), "huge": lambda x: 1e5 * trig(x), "tiny": lambda x: 1e-7 * trig(x)}[k]


def gradient(f, x, kw):
    """What the chosen method defines, and the error rounding may cause."""
    x = np.array(x, dtype=float)
    kw = dict(kw)
    method = kw.pop("method", "parameter-shift")
    fd = method in ("finite-differences", "fd", "finitedifferences")
    h, kind = (kw.get("h", 1e-5), kw.get("type", "central")) if fd else (kw.get("shift", 1.5), "central")
    g, err = np.zeros(len(x)), 0.0
    for i in range(len(x)):
        up, lo = x.copy(), x.copy()
        up[i] += 0.0 if kind == "backward" else h
        lo[i] -= 0.0 if kind == "forward" else h
        a, b = f(up), f(lo)
        g[i] = (a - b) / (2 * h if kind == "central" else h)
        err = max(err, 1e-13 * (abs(a) + abs(b)) / h, 1e-14 * abs(x[i] * g[i]) / h)
    return g, err


def sim_cost(d, s):
    c = mp.templates.linear_cluster(d + 1)
    target = gen.psi(s, 1)
    psi = gen.psi(s + 1, 1)
    simu = mp.PatternSimulator(c, psi, backend="numpy-sv")

    def cost(x):
        simu.reset(input_state=psi)
        out = np.asarray(simu.run(list(x)))
        return float(1 - np.abs(np.vdot(target, out)) ** 2) if out.ndim == 1 else float(1 - np.real(target.conj() @ out @ target))
    return cost


def opt_spec(rng):
    k = rng.choice(["adam", "adam", "sgd", "sgd", "rcd", "rcd"])
    s = rng.choice([0.1, 0.05, 0.3, 0.011])
    if k == "adam":
        kw = {} if rng.random() < 0.3 else {"step_size": s, "b1": rng.choice([0.9, 0.5, 0.0]), "b2": rng.choice([0.999, 0.9]), "eps": rng.choice([1e-8, 1e-3])}
    elif k == "sgd":
        kw = {"step_size": s, "momentum": rng.choice([0.0, 0.0, 0.9, 0.5]), "nesterov": rng.random() < 0.4}
    else:
        kw = {"step_size": s, "adaptive": rng.random() < 0.4}
    return [k, kw]


def make(spec):
    return {"adam": mp.optimizers.AdamOptimizer, "sgd": mp.optimizers.SGDOptimizer, "rcd": mp.optimizers.RCDOptimizer}[spec[0]](**spec[1])


def grad_kw(rng):
    return rng.choice([{}, {}, {"method": "fd"}, {"method": "psr", "shift": 0.5}, {"method": "fd", "h": 1e-3, "type": "forward"},
                       {"method": "finite-differences", "type": "backward"}])


# ------------------------------------------------------------------ models
class Textbook:
    """Update rules as in the literature; fed with gradients."""

    def __init__(self, spec):
        self.kind, kw = spec
        d = {"adam": dict(step_size=0.1, b1=0.9, b2=0.999, eps=1e-8), "sgd": dict(step_size=0.1, momentum=0.0, nesterov=False),
             "rcd": dict(step_size=0.1, adaptive=False)}[self.kind]
        self.p = {**d, **kw}
        self.t = 0
        self.m = self.v = None

    def update(self, x, g):
        p, self.t = self.p, self.t + 1
        x, g = np.array(x, dtype=float), np.array(g, dtype=float)
        if self.m is None:
            self.m, self.v = np.zeros(len(x)), np.zeros(len(x))
        if self.kind == "adam":
            self.m = p["b1"] * self.m + (1 - p["b1"]) * g
            self.v = p["b2"] * self.v + (1 - p["b2"]) * g * g
            mh, vh = self.m / (1 - p["b1"] ** self.t), self.v / (1 - p["b2"] ** self.t)
            return x - p["step_size"] * mh / (np.sqrt(vh) + p["eps"])
        if self.kind == "sgd":
            old = self.v
            self.v = p["momentum"] * old - p["step_size"] * g
            return x + (p["momentum"] * self.v - p["step_size"] * g if p["nesterov"] else self.v)
        s = p["step_size"] / (math.sqrt(self.t) if p["adaptive"] else 1.0)
        return x - s * g


class Recorder:
    """Wraps a cost: keeps every evaluation, raises at a chosen one."""

    def __init__(self, f, at=None, exc=None, noise=None):
        self.f, self.at, self.exc, self.noise = f, at, exc, noise
        self.points, self.values, self.n = [], [], 0

    def __call__(self, x):
        self.n += 1
        if self.at is not None and self.n == self.at:
            raise self.exc
        p = np.array(x, dtype=float, copy=True)
        y = self.f(p.copy())
        if self.noise:
            y += self.noise(self.n)
        self.points.append(p)
        self.values.append(y)
        return y

    def drain(self):
        r = list(zip(self.points, self.values))
        self.points, self.values = [], []
        return r


def partial_gradient(x, evals):
    """(coordinate, derivative) evaluated by a coordinate method at x, from the
    evaluations it made; None if they are not such an evaluation."""
    x = np.asarray(x, dtype=float)
    pairs = {}
    for p, y in evals:
        if p.shape != x.shape:
            return None
        nz = np.nonzero(np.abs(p - x) > 0)[0]
        if len(nz) == 0:
            continue
        if len(nz) > 1:
            return None
        pairs.setdefault(int(nz[0]), []).append((p[nz[0]] - x[nz[0]], y))
    if len(pairs) != 1:
        return None
    k, ev = pairs.popitem()
    if len(ev) < 2:
        return None
    (d1, y1), (d2, y2) = max(ev), min(ev)
    return k, (y1 - y2) / (d1 - d2)
