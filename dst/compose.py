"""Templates and compositions as JSON."""
from . import env, gen

np, mp = env.np, env.mp


def random_template(rng, small=True):
    k = rng.choice(["linear", "wires", "grid", "grid", "muta", "pauli"] + (["spturb"] if rng.random() < 0.1 else []))
    if k == "linear":
        return [k, rng.randint(2, 8)]
    if k == "wires":
        return [k, [rng.randint(2, 4) for _ in range(rng.randint(1, 3))]]
    if k == "grid":
        return [k, rng.randint(1, 3), rng.randint(2, 4), rng.random() < 0.3]
    if k == "muta":
        return [k, rng.randint(2, 3), rng.randint(1, 2)]
    if k == "spturb":
        return [k, 4, 1, rng.random() < 0.5]
    return [k, "".join(rng.choice("XYZI") for _ in range(rng.randint(1, 3)))]


def template(t):
    T = mp.templates
    k, a = t[0], t[1:]
    if k == "linear":
        return T.linear_cluster(*a)
    if k == "wires":
        return T.many_wires(a[0])
    if k == "grid":
        return T.grid_cluster(a[0], a[1], periodic=a[2])
    if k == "muta":
        return T.muta(*a)
    if k == "spturb":
        return T.spturb(a[0], a[1], periodic=a[2])
    return T.from_pauli(mp.PauliOp(a[0]))
