"""C12: generated data are valid and complete for every entropy stream."""
import math

from .. import env, gen, ref, seams
from ..core import Skip, Violation

np, mp = env.np, env.mp
from scipy.linalg import expm  # noqa: E402
from mentpy.operators import gates  # noqa: E402

U_ = mp.utils

ID = "C12"
N = {"quick": 50000, "thorough": 250000}
CHUNK = 40
RULE = ("run = one data-generation workload (states, gates, datasets, splits, noisy datasets) under one entropy stream, "
        "seeded or with extreme doubles; each result is checked for validity, completeness and pairing; "
        "distributions are judged over the whole batch of seeded runs; non-trivial when the stream was not plain seeded "
        "or the data were noisy or shuffled")
STATE = "distinct (workload, entropy) pairs"
REAL = ["mentpy.utils.generate_data", "mentpy.operators.gates.random_su", "numpy/scipy sampling from the Mersenne Twister"]
STUB = ["the word streams of the two global random generators are installed by the simulator"]
ASSUME = ["a split of n samples has n*test_size test samples up to rounding", "statistical tests at about 6.5 standard deviations"]


def scenario(rng, i, tier):
    k = rng.choice(["states", "dataset", "dataset", "split", "split", "noisy", "noisy", "noisy", "su", "bad"])
    q = rng.choice([1, 1, 2, 2, 3])
    sc = {"kind": k, "q": q, "n": rng.choice([1, 1, 2, 3, 4, 7, 10, 13]), "test": rng.choice([0.3, 0.3, 0.5, 0.0, 1.0, 0.25, 0.1, round(rng.random(), 3)]),
          "es": rng.getrandbits(31), "profile": rng.choice(["seeded", "seeded", "seeded", "mixed", "low", "high", "burst", "burst"])}
    if k == "split":
        sc.update(form=rng.choice(["list", "array", "tuple-array", "mixed", "2d"]), randomize=rng.random() < 0.7, n=rng.choice([0, 1, 2, 3, 5, 8, 20]))
    if k == "noisy":
        sc.update(type=rng.choice(["brownian", "bitflip", "default"]), level=rng.choice([0.0, 0.0, 1.0, 0.1, 0.35, 0.7, round(rng.random(), 3)]))
    if k == "su" and rng.random() < 0.3:
        sc.update(q=rng.choice([4, 5, 6]), n=1)
    if k in ("states", "dataset") and rng.random() < 0.05:
        sc.update(q=rng.choice([4, 5]), n=rng.choice([1, 2, 5]))
    if k == "bad":
        sc.update(level=rng.choice([-0.1, 1.1, 2, -1]), what=rng.choice(["level", "level", "type"]))
    return sc


def unitary(q, seed):
    rs = np.random.RandomState(seed % 2 ** 32)
    d = 2 ** q
    return np.linalg.qr(rs.normal(size=(d, d)) + 1j * rs.normal(size=(d, d)))[0]


def entropy(sc):
    if sc["profile"] in ("low", "high"):
        seams.entropy(sc["es"], sc["profile"], 6)
    else:
        seams.entropy(sc["es"], sc["profile"])


def good_state(v, d, what):
    v = np.asarray(v)
    if v.shape != (d,):
        raise Violation("state-shape", f"{what} has shape {v.shape}, expected ({d},)")
    if not np.all(np.isfinite(v)) or abs(np.linalg.norm(v) - 1) > 1e-8:
        raise Violation("not-normalised", f"{what} has norm {np.linalg.norm(v)}")
    return v


def sizes(train, test, n, frac):
    (a, b), (c, d) = train, test
    if len(a) != len(b) or len(c) != len(d):
        raise Violation("unpaired", f"{len(a)} inputs and {len(b)} targets to train on, {len(c)} and {len(d)} to test on")
    if len(a) + len(c) != n:
        raise Violation("wrong-size", f"{len(a)} + {len(c)} samples instead of {n}")
    if abs(len(c) - n * frac) >= 1 - 1e-9:
        raise Violation("wrong-proportion", f"{len(c)} of {n} samples in the test part, asked for {frac}")


def run(sc, ctx):
    q, n = sc["q"], sc["n"]
    d = 2 ** q
    stat = sc["profile"] == "seeded"
    if not stat:
        ctx.fault(f"entropy-{sc['profile']}")
    u = unitary(q, sc["es"])
    keep = u.copy()
    entropy(sc)
    ctx.step()
    k = sc["kind"]

    def haar(v):
        if stat:
            for name, x in (("2", abs(v[0]) ** 4), ("l", abs(v[-1]) ** 4), ("p", abs(np.sum(v)) ** 4 / d ** 2),
                            ("m", abs(v[0]) ** 2), ("y", abs(v[0] + 1j * v[-1]) ** 2 / 2), ("re", np.real(np.conj(v[0]) * v[-1]))):
                ctx.add(f"haar{name}:{q}", float(x))
            ctx.add(f"haarn:{q}", 1)

    if k == "states":
        out = U_.generate_haar_random_states(q, n)
        vs = [out] if n == 1 else list(out)
        if len(vs) != n:
            raise Violation("wrong-size", f"{len(vs)} states instead of {n}")
        for v in vs:
            haar(good_state(v, d, "state"))
        distinct(vs)
    elif k == "su":
        for _ in range(min(n, 4)):
            m = np.asarray(gates.random_su(q))
            if m.shape != (d, d) or not gen.same(m @ m.conj().T, np.eye(d), 1e-8):
                raise Violation("not-unitary", f"random_su({q})")
            if abs(np.linalg.det(m) - 1) > 1e-7:
                raise Violation("not-special", f"random_su({q}) has determinant {np.linalg.det(m)}")
            if stat:
                ctx.add(f"sun:{q}", 1)
                ctx.add(f"sut:{q}", float(abs(np.trace(m)) ** 2))
                ctx.add(f"suc:{q}", float(abs(m[0, -1]) ** 4))
                haar(m[:, -1])
                haar(m[0])
    elif k == "dataset":
        train, test = U_.generate_random_dataset(u, n, test_size=sc["test"]) if sc["test"] != 0.3 else U_.generate_random_dataset(u, n)
        sizes(train, test, n, sc["test"])
        every = []
        for part in (train, test):
            for x, y in zip(*part):
                x = good_state(x, d, "input")
                haar(x)
                every.append(x)
                if not gen.same(y, u @ x, 1e-9):
                    raise Violation("wrong-target", f"target is not the unitary applied to its input: {gen.dev(y, u @ x)}")
        distinct(every)
    elif k == "noisy":
        noisy(sc, ctx, u, haar, stat)
    elif k == "bad":
        try:
            if sc["what"] == "level":
                U_.generate_random_dataset_noisy(u, n, sc["level"], "bitflip")
            else:
                U_.generate_random_dataset_noisy(u, n, 0.5, "no-such-noise", test_size=0)
        except Exception:  # noqa: BLE001
            ctx.fault("refused-request")
        else:
            raise Violation("invalid-noise-accepted", f"{sc['what']} {sc['level']}")
    else:
        split(sc, ctx, stat)
    if not np.array_equal(u, keep):
        raise Violation("caller-data-modified", "the unitary was changed")
    ctx.state(sc)
    ctx.event(k, n)


def distinct(vs):
    for a in range(len(vs)):
        for b in range(a):
            if np.max(np.abs(np.asarray(vs[a]) - np.asarray(vs[b]))) < 1e-9:
                raise Violation("repeated-sample", f"samples {b} and {a} are identical")


def noisy(sc, ctx, u, haar, stat):
    q, n, p = sc["q"], sc["n"], sc["level"]
    d = 2 ** q
    kw = {"noise_level": p}
    ty = sc["type"]
    if ty != "default":
        kw["noise_type"] = ty
    else:
        ty = "brownian"
    if sc["test"] != 0.3:
        kw["test_size"] = sc["test"]
    train, test = U_.generate_random_dataset_noisy(u, n, **kw)
    sizes(train, test, n, sc["test"])
    every = [good_state(x, d, "input") for x in list(train[0]) + list(test[0])]
    distinct(every)
    for x in every:
        haar(x)
    for x, y in zip(*test):
        if not gen.same(y, u @ np.asarray(x), 1e-9):
            raise Violation("noise-in-test-part", gen.dev(y, u @ np.asarray(x)))
    for x, y in zip(*train):
        x = np.asarray(x)
        y = good_state(y, d, "training target")
        clean = u @ x
        if p == 0 and not gen.same(y, clean, 1e-8):
            raise Violation("noise-at-level-0", gen.dev(y, clean))
        if ty == "bitflip":
            hit = None
            for mask in range(d):
                idx = np.arange(d) ^ mask
                if gen.same(y, clean[idx], 1e-8):
                    hit = mask
            if hit is None:
                raise Violation("not-bitflip-noise", "a training target is not the clean target with some qubits flipped")
            flips = [(hit >> (q - 1 - k)) & 1 for k in range(q)]
            if p == 1 and not all(flips):
                raise Violation("bitflip-strength", f"level 1 flipped {flips}")
            ctx.fault("bitflip", sum(flips))
            if stat:
                for k in range(q):
                    ctx.add(f"flip{q}:{k}", flips[k] - p)
                    ctx.add(f"flipv{q}:{k}", p * (1 - p))
                if q > 1:
                    ctx.add(f"flipc{q}", (flips[0] - p) * (flips[1] - p))
                    ctx.add(f"flipcv{q}", (p * (1 - p)) ** 2)
        else:
            ctx.fault("brownian-noise")
            if stat and p > 0:
                # the same observable of an independently simulated process
                rs = np.random.RandomState((sc["es"] * 7 + len(ctx.values)) % 2 ** 32)
                m = np.eye(d)
                dt = math.sqrt(1 / (20 * d)) * 2 * math.pi * p
                for _ in range(20):
                    c = rs.normal(size=(d, d)) + 1j * rs.normal(size=(d, d))
                    m = m @ expm(1j * dt * (c + c.conj().T) / 4)
                w = m @ u @ m.conj().T @ x
                a, b = abs(np.vdot(clean, y)) ** 2, abs(np.vdot(clean, w)) ** 2
                bin_ = 0 if p < 0.25 else (1 if p < 0.5 else 2)
                ctx.add(f"bro{q}:{bin_}", a - b)
                ctx.add(f"brov{q}:{bin_}", (a - b) ** 2)
                ctx.add(f"bron{q}:{bin_}", 1)
                ctx.add(f"bros{q}:{bin_}", a * a - b * b)
                ctx.add(f"brosv{q}:{bin_}", (a * a - b * b) ** 2)


def split(sc, ctx, stat):
    n, frac = sc["n"], sc["test"]
    f = sc["form"]
    xs, ys = [100 + j for j in range(n)], [900 + j for j in range(n)]
    if f == "array":
        a, b = np.array(xs), np.array(ys)
    elif f == "mixed":
        a, b = list(xs), np.array(ys)
    elif f == "2d":
        a, b = np.array([[x, -x] for x in xs]).reshape(n, 2), np.array([[y, 2 * y] for y in ys]).reshape(n, 2)
    elif f == "tuple-array":
        a, b = [np.array([x, x]) for x in xs], [np.array([y]) for y in ys]
    else:
        a, b = list(xs), list(ys)
    kw = {} if frac == 0.3 else {"test_size": frac}
    if sc["randomize"]:
        kw["randomize"] = True
        ctx.fault("shuffled-split")
    ka, kb = [np.array(x, copy=True) for x in a], [np.array(x, copy=True) for x in b]
    train, test = U_.train_test_split(a, b, **kw)
    sizes(train, test, n, frac)
    one = lambda v: int(np.asarray(v).reshape(-1)[0])
    got = []
    for part in (train, test):
        for x, y in zip(*part):
            if one(y) - one(x) != 800:
                raise Violation("pairing-lost", f"input {one(x)} came with target {one(y)}")
            if f == "2d" and (int(x[1]) != -one(x) or int(y[1]) != 2 * one(y)):
                raise Violation("sample-mixed", f"{x} {y}")
            got.append(one(x) - 100)
    if sorted(got) != list(range(n)):
        raise Violation("not-a-partition", f"samples {sorted(got)} of {n}")
    if any(not np.array_equal(x, k) for x, k in zip(a, ka)) or any(not np.array_equal(x, k) for x, k in zip(b, kb)) or len(a) != n:
        raise Violation("caller-data-modified", "the split changed the data it was given")
    if stat and sc["randomize"] and n >= 2:
        nt = len(test[0])
        inside = set(got[len(got) - nt:])
        for j, name in ((0, "first"), (n - 1, "last")):
            ctx.add(f"split-{name}", (j in inside) - nt / n)
            ctx.add(f"split-{name}v", nt / n * (1 - nt / n))
        ctx.add("split-pos", got.index(0) / (n - 1) - 0.5)
        ctx.add("split-posv", (n + 1) / (12 * (n - 1)))


def aggregate(v):
    z = 6.5

    def test(name, s, var, n=None):
        if var > 3 and abs(s) > z * math.sqrt(var) + 1e-6:
            raise Violation("distribution:" + name, f"sum of deviations {s:.4g}, standard deviation {math.sqrt(var):.4g}")
    for q in (1, 2, 3):
        d = 2 ** q
        n = v.get(f"haarn:{q}", 0)
        if n > 200:
            m2, m4 = 2 / (d * (d + 1)), math.factorial(4) * math.factorial(d - 1) / math.factorial(d + 3)
            for nm in ("2", "l", "p"):
                dev(f"haar-{nm}-{q}", v[f"haar{nm}:{q}"] / n, m2, math.sqrt((m4 - m2 * m2) / n))
            dev(f"haar-m-{q}", v[f"haarm:{q}"] / n, 1 / d, math.sqrt((m2 - 1 / d ** 2) / n))
            dev(f"haar-y-{q}", v[f"haary:{q}"] / n, 1 / d, math.sqrt((m2 - 1 / d ** 2) / n))
            dev(f"haar-re-{q}", v[f"haarre:{q}"] / n, 0, math.sqrt(0.5 / (d * (d + 1)) / n))
        n = v.get(f"sun:{q}", 0)
        if n > 100:
            # |tr|^2 has mean 1; the variance of |tr U|^2 is at most 1 (d=2: 1, d>2: 1)
            dev(f"su-trace-{q}", v[f"sut:{q}"] / n, 1, math.sqrt(1.2 / n))
        for k in range(q):
            test(f"bitflip-{q}-{k}", v.get(f"flip{q}:{k}", 0), v.get(f"flipv{q}:{k}", 0))
        test(f"bitflip-correlation-{q}", v.get(f"flipc{q}", 0), v.get(f"flipcv{q}", 0) * 4)
        for b in range(3):
            if v.get(f"bron{q}:{b}", 0) > 60:
                test(f"brownian-{q}-{b}", v[f"bro{q}:{b}"], max(v[f"brov{q}:{b}"], 3.1e-0))
                test(f"brownian-spread-{q}-{b}", v[f"bros{q}:{b}"], max(v[f"brosv{q}:{b}"], 3.1e-0))
    for name in ("first", "last"):
        test(f"split-{name}", v.get(f"split-{name}", 0), v.get(f"split-{name}v", 0))
    test("split-position", v.get("split-pos", 0), v.get("split-posv", 0))


def dev(name, got, want, sd):
    if abs(got - want) > 6.5 * sd + 1e-9:
        raise Violation("distribution:" + name, f"{got:.5f}, expected {want:.5f} +- {sd:.5f}")


def shrink(sc):
    for k, x in (("profile", "seeded"), ("n", 1), ("n", 2), ("n", 3), ("q", 1), ("test", 0.5), ("test", 0.3)):
        if sc[k] != x:
            yield {**sc, k: x}
