"""C08: simulations in concurrent threads do not influence each other."""
import random

from .. import env, fp, gen, seams, tasks
from ..core import Violation, sub

np, mp = env.np, env.mp

ID = "C08"
N = {"quick": 2400, "thorough": 60000}
CHUNK = 20
RULE = ("run = one shared circuit and 2-4 real threads working on it at once (simulators of all backends, optimisers, "
        "flow searches, stacking, deep copies that are edited, data generation), parked and released one at a time at "
        "source lines of mentpy by a seeded scheduler (random switching, round robin per line, or a few preemption "
        "points), against each thread's work done alone on a circuit of its own; every run interleaves")
STATE = "distinct thread interleavings (sequences of preemption points)"
REAL = ["circuits, measurements, flow", "all three backends", "optimisers", "data generation", "Lie algebra", "real threads"]
STUB = ["which thread runs next at each mentpy source line", "each thread's stream of the global random generators",
        "locks made by mentpy give way to the scheduler instead of blocking"]
ASSUME = ["switches happen between source lines of mentpy, not inside numpy, scipy, numba or PennyLane",
          "a thread draws from its own stream of the global generators, so that sampling is comparable with running alone"]
HOWS = [["rand", 0.003], ["rand", 0.02], ["rand", 0.02], ["rand", 0.1], ["rand", 0.5], ["step"], ["pct", 1, 400], ["pct", 3, 1500], ["pct", 6, 3000]]


def scenario(rng, i, tier):
    xy = rng.random() < 0.6
    mix = gen.XYMIX if xy else gen.FULLMIX
    pl = i % 40 == 3
    if pl:
        xy, mix = True, gen.XYMIX
    sp = gen.flow_spec(rng, 4 if pl else rng.choice([3, 4, 5, 5, 6]), wmax=2, mix=mix, measured_outputs=0 if xy else rng.choice([0, 0.5]))
    if not xy and rng.random() < 0.5:  # controlled measurements
        vs = list(range(sp["n"]))
        cand = [v for v in vs if v not in sp["outs"]]
        ms = dict((v, m) for v, m in (sp["ments"] or []))
        wires = sorted(cand)
        for v in rng.sample(wires, min(2, len(wires))):
            before = [u for u in wires if u < v]
            if before:
                ms[v] = {"cond": gen.cond(rng, before, 1), "t": gen.ment(rng, mix), "f": gen.ment(rng, mix)}
        sp["ments"] = [[v, m] for v, m in ms.items()]
    k = rng.choice([2, 2, 2, 3, 4]) if not pl else 2
    same = rng.random() < 0.35  # everybody does the same kind of thing
    ts = []
    for _ in range(k):
        t = tasks.task(rng, sp, mix, xy, heavy=sp["n"] <= 5 and rng.random() < 0.3, pl=pl)
        if same and ts:
            for _ in range(60):
                if t["t"] == ts[0]["t"]:
                    break
                t = tasks.task(rng, sp, mix, xy, heavy=False, pl=pl)
        ts.append(t)
    return {"sp": sp, "taskops": ts, "how": rng.choice(HOWS), "solo_first": rng.random() < 0.5, "s": rng.getrandbits(31),
            "own": rng.random() < 0.15}


def streams(sc):
    out = []
    for j in range(len(sc["taskops"])):
        seams.entropy(sc["s"] + 7 * j, "mixed" if j % 2 else "seeded", 30)
        out.append((np.random.get_state(), random.getstate()))
    return out


def alone(sc):
    out = []
    for j, t in enumerate(sc["taskops"]):
        c = gen.build(sc["sp"])
        seams.entropy(sc["s"] + 7 * j, "mixed" if j % 2 else "seeded", 30)
        out.append(tasks.run(t, c, sc["sp"]))
    return out


def run(sc, ctx):
    sp, ts = sc["sp"], sc["taskops"]
    if len(ts) < 2:
        return
    try:
        gen.build(sp)
    except ValueError:  # conditions that contradict the flow
        sp = {**sp, "ments": [[v, m] for v, m in sp["ments"] if not isinstance(m, dict)]}
        sc = {**sc, "sp": sp}
        ctx.probe("contradictory-conditions")
    want = alone(sc) if sc["solo_first"] else None
    # a thread's circuit: shared, or its own circuit over the same measurement objects' values
    c = gen.build(sp)
    cs = [c] * len(ts) if not sc["own"] else [gen.build(sp) for _ in ts]
    thunks = [lambda t=t, d=d: tasks.run(t, d, sp) for t, d in zip(ts, cs)]
    s = seams.Scheduler(thunks, sub(sc["s"], "sched"), sc["how"], streams=streams(sc))
    got = s.run()
    ctx.step(s.lines)
    ctx.fault("preemption", max(1, s.nswitch))
    ctx.probe(f"how-{sc['how'][0]}")
    patch = {"how": ["points", s.trace]}
    if want is None:
        want = alone(sc)
    for j, (t, w, g) in enumerate(zip(ts, want, got)):
        ctx.probe(f"task-{t['t']}")
        if "raised" in w:
            ctx.probe(f"raised-{t['t']}-{w['raised']}")
        if g[0] == "stuck":
            raise Violation("threads-stuck", f"thread {j} ({t['t']}): {g[1]}", patch=patch)
        if g[0] != "ok":
            raise Violation("thread-failed", f"thread {j} ({t['t']}): {g[1]}; alone: {str(w)[:80]}", patch=patch)
        if not tasks.near(w, g[1]):
            raise Violation("thread-interference", f"thread {j} ({t['t']}): alone vs concurrently: {tasks.first(w, g[1])}", patch=patch)
    a, b = fp.circuit(gen.build(sp)), fp.circuit(c)
    if a != b:
        raise Violation("shared-circuit-changed", fp.diff(a, b), patch=patch)
    ctx.state(s.trace)
    ctx.event(len(s.trace), s.lines)


def shrink(sc):
    if sc["how"][0] == "points":
        pts = sc["how"][1]
        size = max(1, len(pts) // 2)
        while True:
            for j in range(0, len(pts), size):
                yield {**sc, "how": ["points", pts[:j] + pts[j + size:]]}
            if size == 1:
                break
            size //= 2
    for j, t in enumerate(sc["taskops"]):
        if len(t.get("ops", [])) > 1:
            for x in range(len(t["ops"])):
                ts = list(sc["taskops"])
                ts[j] = {**t, "ops": t["ops"][:x] + t["ops"][x + 1:]}
                yield {**sc, "taskops": ts}
    sp = sc["sp"]
    for j in range(len(sp["edges"])):
        yield {**sc, "sp": {**sp, "edges": sp["edges"][:j] + sp["edges"][j + 1:]}}
