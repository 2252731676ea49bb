"""C03: sampled outcomes follow the Born rule, conditionally on the record."""
import math

from .. import env, gen, ref, seams, sim
from ..core import Skip, Violation

np, mp = env.np, env.mp

ID = "C03"
N = {"quick": 2400, "thorough": 12000}
CHUNK = 8
RULE = ("run = one circuit with sampled measurements executed many times under seeded entropy streams and a "
        "few times under extreme streams (smallest / largest doubles); every draw is compared with the Born "
        "probability given the outcomes recorded before it; non-trivial when at least one draw had 0<p<1")
STATE = "distinct (circuit, outcome record) pairs"
REAL = ["NumpySimulatorDM", "numpy sampling from the Mersenne Twister", "MBQCircuit"]
STUB = ["the word streams of the two global random generators are installed by the simulator"]
ASSUME = ["statistical tests at about 6 standard deviations (Bernstein bound 1e-9 per test)",
          "an outcome counts as impossible below probability 1e-9"]
MIX = (("Z", 4), ("XY*", 3), ("X", 1), ("Y", 1), ("XZ", 1), ("YZ", 1))


def scenario(rng, i, tier):
    nmax = rng.choice([2, 3, 3, 4, 5])
    if rng.random() < 0.6:
        sp = gen.flow_spec(rng, nmax, wmax=2, mix=MIX, measured_outputs=0.4)
    else:
        sp = gen.any_spec(rng, nmax, mix=MIX, measured_outputs=0.4)
    sp = gen.add_ments(rng, sp, MIX, 0.4, table=True)
    tab = gen.table(sp)
    nonout = [v for v in range(sp["n"]) if v not in sp["outs"]]
    if not any(m and m[0] == "Z" for m in tab.values()):
        v = rng.choice(nonout or sp["outs"])
        sp["ments"] = [x for x in sp["ments"] if x[0] != v] + [[v, ["Z", None]]]
    gen.restyle(rng, sp, 0.1)
    sched = list(range(sp["n"]))
    rng.shuffle(sched)
    if rng.random() < 0.4:
        sched = None
    return {"sp": sp, "schedule": sched, "psi": gen.psi_spec(rng), "angles": gen.angle_table(rng, sp["n"]),
            "reps": 160 if nmax <= 3 else 80, "es": rng.getrandbits(31),
            "extreme": ["low", "high", "mixed", "mixed"]}


def bernstein(var, n, delta=1e-9):
    l = math.log(2 / delta)
    return math.sqrt(2 * var * l) + 2 * l / 3 + 1e-9


def run(sc, ctx):
    sp = sc["sp"]
    tab = gen.table(sp)
    c = gen.build(sp)
    if sc["schedule"] is None and c.measurement_order is None:
        sc["schedule"] = sorted(range(sp["n"]), key=lambda v: (sc["es"] >> v) % 7)
    order = sim.schedule_used(c, sp, sc["schedule"])
    psi = gen.mkpsi(sc["psi"], len(sp["ins"]))
    angles = dict(enumerate(sc["angles"]))
    vec = sim.angle_vec(c, sp, angles)
    simu = sim.make(c, sp, psi, "numpy-dm", None, sc["schedule"])
    zs = [v for v in order if tab[v][0] == "Z"]
    cache = {}

    def probs(rec):
        key = tuple(rec[v] for v in order)
        if key not in cache:
            cache[key] = gen.conditional(sp, angles, psi, rec, order, tab)[1]
        return cache[key]

    def once():
        simu.reset()
        simu.run(vec)
        rec = gen.record(simu, sp)
        sim.check_record(rec, tab)
        ctx.step(len(order))
        p0 = probs(rec)
        for v in order:
            po = p0[v] if rec[v] == 0 else 1 - p0[v]
            if po < 1e-9:
                raise Violation("impossible-outcome", f"node {v} ({tab[v][0]}) drew {rec[v]} of probability {po:.2g}")
        return rec, p0

    for prof in sc["extreme"]:
        seams.entropy(sc["es"] + 1, prof)
        ctx.fault(f"entropy-{prof}")
        rec, p0 = once()
        if any(min(p0[v], 1 - p0[v]) < 1e-9 for v in zs):
            ctx.probe("certain-outcome-under-extreme-stream")
    seams.entropy(sc["es"], "seeded")
    tot = {}
    for _ in range(sc["reps"]):
        rec, p0 = once()
        prev = 0
        for k, v in enumerate(zs):
            p1 = min(max(1 - p0[v], 0), 1)
            x = rec[v] - p1
            w = p1 * (1 - p1)
            if w > 1e-6:
                ctx.nontrivial = True
            bucket = min(int(p1 * 5), 4)
            for key in (("node", v), ("node-prev", v, prev)):
                t = tot.setdefault(key, [0.0, 0.0, 0])
                t[0] += x
                t[1] += w
                t[2] += 1
            for name in (f"all", f"p{bucket}", f"k{min(k, 3)}", f"prev{prev}", f"prev{prev}-p{bucket}"):
                ctx.add(f"{name}:x", x)
                ctx.add(f"{name}:v", w)
                ctx.add(f"{name}:n", 1)
            prev = rec[v]
        ctx.state([sp, sorted(rec.items())])
    ctx.event("sums", sorted((str(k), round(t[0], 6)) for k, t in tot.items()))
    for key, (x, w, n) in tot.items():
        if abs(x) > bernstein(w, n):
            raise Violation("born-rule", f"{key}: {n} draws are off by {x:+.1f} from the expected number of ones (sd {math.sqrt(w):.1f})")


def aggregate(values):
    for k in sorted(values):
        if k.endswith(":x"):
            b = k[:-2]
            x, w, n = values[k], values[b + ":v"], values[b + ":n"]
            if abs(x) > bernstein(w, n):
                raise Violation("born-rule-batch", f"class {b}: {int(n)} draws are off by {x:+.1f} (sd {math.sqrt(w):.1f})")
