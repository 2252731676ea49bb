"""C06: window size and schedule never change a result; too small is refused."""
import random

from .. import env, gen, ref, seams, sim
from ..core import Skip, Violation

np, mp = env.np, env.mp

ID = "C06"
N = {"quick": 16000, "thorough": 100000}
CHUNK = 30
RULE = ("run = one circuit executed under several (window size, measurement schedule) pairs: every window from 1 past the "
        "number of nodes, default, admissible, random and malformed schedules; each execution must be refused or give the "
        "reference state for its record; non-trivial when at least two different pairs were accepted")
STATE = "distinct (circuit, window, schedule) triples"
REAL = ["NumpySimulatorDM", "NumpySimulatorSV", "MBQCircuit"]
STUB = ["entropy words installed by the simulator"]
ASSUME = ["window size 1 requests the automatic window, as the constructor's default does",
          "any exception raised while building the simulator or running it counts as a refusal"]


def scenario(rng, i, tier):
    be = rng.choice(["numpy-dm", "numpy-sv"])
    mix = gen.XYMIX if be == "numpy-sv" or rng.random() < 0.6 else rng.choice([gen.FULLMIX, gen.XYZMIX])
    nmax = rng.choice([3, 4, 5, 6, 7]) if be == "numpy-sv" else rng.choice([3, 4, 5, 6])
    if rng.random() < 0.06:
        nmax = rng.choice([8, 9, 10]) if be == "numpy-sv" else rng.choice([7, 8])
    mo = rng.choice([0, 0, 0.4])
    sp = gen.flow_spec(rng, nmax, wmax=3, mix=mix, measured_outputs=mo) if rng.random() < 0.75 else gen.any_spec(rng, nmax, mix, mo)
    gen.restyle(rng, sp, 0.15)
    ops = []
    for _ in range(rng.choice([2, 3, 4, 5])):
        kind = rng.choice(["default", "default", "random", "random", "reversed", "near", "bad-missing", "bad-double"])
        ops.append({"window": rng.choice([None, 1, "N", "N", "N+1", "N-1", 2, 3, 4, "rand"]), "wr": rng.randint(1, sp["n"]),
                    "sched": kind, "s": rng.getrandbits(31), "es": rng.getrandbits(31), "twice": rng.random() < 0.3, "dev": rng.random() < 0.25})
    return {"sp": sp, "backend": be, "psi": gen.psi_spec(rng), "angles": gen.angle_table(rng, sp["n"]), "ops": ops}


def run(sc, ctx):
    sp, be = sc["sp"], sc["backend"]
    n = sp["n"]
    tab = gen.table(sp)
    c = gen.build(sp)
    inv = {gen.label(sp, i): i for i in range(n)}
    psi = gen.mkpsi(sc["psi"], len(sp["ins"]))
    angles = dict(enumerate(sc["angles"]))
    vec = sim.angle_vec(c, sp, angles)
    mo = None if c.measurement_order is None else [inv[v] for v in c.measurement_order]
    accepted = set()
    wires = sim.wires(sp)
    for op in sc["ops"]:
        rng = random.Random(op["s"])
        kind = op["sched"]
        sched = None
        if kind == "random":
            sched = rng.sample(range(n), n)
        elif kind == "reversed":
            sched = (mo or list(range(n)))[::-1]
        elif kind == "near":
            sched = list(mo or range(n))
            a = rng.randrange(n - 1)
            sched[a], sched[a + 1] = sched[a + 1], sched[a]
        elif kind == "bad-missing":
            sched = rng.sample(range(n), n - 1)
        elif kind == "bad-double":
            sched = rng.sample(range(n), n)
            a, b = rng.sample(range(n), 2)
            sched[a] = sched[b]
        if sched is None and mo is None:
            sched = list(range(n))
        w = {"N": n, "N+1": n + 1, "N-1": max(1, n - 1), "rand": op["wr"]}.get(op["window"], op["window"])
        perm = sched is None or sorted(sched) == list(range(n))
        ctx.step()
        ctx.fault(f"schedule-{kind}")
        seams.entropy(op["es"], "mixed")
        dev = op["dev"] and wires is not None
        try:
            s = sim.make(c, sp, psi, be, w, sched, **({"dev_mode": True, "wires": wires} if dev else {}))
            out = s.run(vec)
            if op["twice"]:
                s.reset(input_state=psi)
                out = s.run(vec)
            ok = True
        except Exception as e:  # noqa: BLE001
            ok = False
            why = f"{type(e).__name__}: {e}"
        ctx.event(str(op["window"]), kind, ok)
        if not ok:
            ctx.probe("refused")
            if dev and sched is not None:
                continue  # the wires prescribe the order
            if perm and w in (None, n):
                raise Violation("refused-although-large-enough", f"{be}, window {w}, schedule {sched}: {why}")
            if perm and w == 1 and n > 1:
                raise Violation("automatic-window-refused", f"{be}, schedule {sched}: {why}")
            continue
        rec = gen.record(s, sp)
        if dev:
            ctx.probe("dev-mode")
        if not perm or dev:
            # malformed, or ordered by the simulator: it must at least be right
            sim.check_record(rec, tab)
            order = list(rec)
        else:
            sim.check_record(rec, tab)
            order = [v for v in (sched if sched is not None else mo) if tab[v] is not None]
        want, p0 = gen.conditional(sp, angles, psi, rec, order, tab)
        lo = min([p if rec[v] == 0 else 1 - p for v, p in p0.items()], default=1)
        if lo < 1e-9:
            raise Violation("impossible-outcome", f"{be}, window {w}, schedule {sched}: record {rec}")
        if lo < 1e-3:
            ctx.probe("ill-conditioned")
            continue
        if not gen.same(out, want):
            raise Violation("result-depends-on-window", f"{be}, window {w} of {n}, schedule {sched or mo}: {gen.dev(out, want)}")
        ctx.probe("accepted-small-window" if w not in (None, 1) and w < n else "accepted")
        accepted.add((w, tuple(sched or ())))
        ctx.state([sp, w, sched])
    if len(accepted) > 1:
        ctx.nontrivial = True


def shrink(sc):
    sp = sc["sp"]
    if sp["style"] != "int" or not sp["relabel"]:
        yield {**sc, "sp": {**sp, "style": "int", "relabel": True}}
    for j in range(len(sp["edges"])):
        yield {**sc, "sp": {**sp, "edges": sp["edges"][:j] + sp["edges"][j + 1:]}}
    if sp["ments"]:
        for j in range(len(sp["ments"])):
            yield {**sc, "sp": {**sp, "ments": sp["ments"][:j] + sp["ments"][j + 1:]}}
    if any(sc["angles"]):
        yield {**sc, "angles": [0.0] * len(sc["angles"])}
    if sc["psi"] != [0, "plus"]:
        yield {**sc, "psi": [0, "plus"]}
