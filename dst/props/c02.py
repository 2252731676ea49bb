"""C02: the returned state is the physical post-measurement state of the record."""
from .. import env, gen, ref, seams, sim
from ..core import Skip, Violation
from .c15 import acyclic, deps

np, mp = env.np, env.mp

ID = "C02"
N = {"quick": 16000, "thorough": 400000}
CHUNK = 40
RULE = ("run = one circuit (flow or not, all planes, measured outputs, renamed and reordered nodes), a "
        "simulator, and 1-3 reset/run cycles under an installed entropy stream; non-trivial when a "
        "measurement outcome was sampled, a node had a forced outcome 1, or an output was measured")
STATE = "distinct (circuit, outcome record) pairs"
REAL = ["MBQCircuit construction", "flow search", "NumpySimulatorDM", "NumpySimulatorSV", "gates and partial traces", "numpy sampling"]
STUB = ["the word streams of the two global random generators are installed by the simulator"]
ASSUME = ["outcomes whose probability lies below 1e-3 but above 1e-9 may be post-selected either way",
          "states are compared with tolerance 1e-6"]


def scenario(rng, i, tier):
    be = "numpy-dm" if rng.random() < 0.65 else "numpy-sv"
    mix = rng.choice([gen.FULLMIX, gen.FULLMIX, gen.XYZMIX]) if be == "numpy-dm" else gen.XYMIX
    mo = rng.choice([0, 0, 0.3, 0.7])
    if be == "numpy-dm" and rng.random() < 0.35:
        mix = (("Z", 3), ("XY*", 2), ("XZ", 1), ("YZ", 1), ("XY", 1))
    nmax = rng.choice([3, 4, 5, 6, 7] + ([8] if be == "numpy-sv" else []))
    kind = rng.random()
    if kind < 0.7:
        sp = gen.flow_spec(rng, nmax, mix=mix, measured_outputs=mo)
    else:
        sp = gen.any_spec(rng, min(nmax, 6), mix=mix, measured_outputs=mo)
        if be == "numpy-dm" and rng.random() < 0.3:
            sp = gen.add_ments(rng, sp, (("Z", 1), ("X", 1), ("Y", 1)), mo, table=True)
    gen.restyle(rng, sp, 0.2)
    sched = None
    if kind >= 0.7 or rng.random() < 0.3:
        sched = list(range(sp["n"]))
        rng.shuffle(sched)
    if be == "numpy-sv" and sp["ments"]:
        sp["ments"] = [[v, m] for v, m in sp["ments"] if m is None or m[0] in ("X", "Y", "XY")]
    if be == "numpy-dm" and rng.random() < 0.25:
        add_controls(rng, sp, sched, mix)
    runs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        runs.append({"psi": gen.psi_spec(rng), "angles": gen.angle_table(rng, sp["n"]),
                     "entropy": rng.choice(["seeded", "mixed", "low", "high"]), "es": rng.getrandbits(31),
                     "mode": rng.choice(["sample", "sample", "sample", "expectation", "exp"]) if be == "numpy-dm" else "sample",
                     "form": rng.choice(["dm", "sv", "DensityMatrix", "statevector"]) if be == "numpy-sv" else "dm",
                     "how": rng.choice(["reset", "input", "new"])})
    return {"sp": sp, "backend": be, "schedule": sched, "window": rng.choice([None, None, "N"]), "ops": runs}


def add_controls(rng, sp, sched, mix):
    """Some settings depend on earlier outcomes of plain, post-selected nodes."""
    tab = gen.table(sp)
    f = ref.causal_flow(range(sp["n"]), sp["edges"], sp["ins"], sp["outs"])
    plain = [v for v in tab if tab[v] is not None and tab[v][0] != "Z"]
    rng.shuffle(plain)
    for v in plain[:rng.choice([1, 1, 2])]:
        pool = [u for u in plain if u != v and not isinstance(tab[u], dict) and (sched is None or sched.index(u) < sched.index(v))]
        if not pool:
            continue
        new = {**tab, v: {"cond": gen.cond(rng, rng.sample(pool, min(len(pool), 2)), 1), "t": gen.ment(rng, gen.FULLMIX), "f": gen.ment(rng, gen.FULLMIX)}}
        if any(isinstance(m, dict) and v in gen.cond_nodes(m["cond"]) for m in tab.values()):
            continue
        if acyclic(sp, deps(sp, new, f[0] if f else None)):
            tab = new
    sp["ments"] = [[v, m] for v, m in tab.items()]


def expected_expectation(sp, tab, angles, psi, order, rec):
    """Expectation mode: Z measurements leave the other qubits unconditioned."""
    q = gen.reference(sp, angles, psi)
    want = {}
    for v in order:
        pl, a = gen.setting(tab[v], angles.get(v), rec)
        p0 = q.prob(v, ref.eigvec(pl, a, 0))
        if pl == "Z":
            want[v] = 1 - p0
        else:
            want[v] = p0
            q.project(v, ref.eigvec(pl, a, rec[v]))
    return q, want


def one(c, simu, sp, tab, r, ctx, order, backend):
    k = len(sp["ins"])
    psi = gen.mkpsi(r["psi"], k)
    angles = dict(enumerate(r["angles"]))
    vec = sim.angle_vec(c, sp, angles)
    seams.entropy(r["es"], r["entropy"])
    if r["entropy"] != "seeded":
        ctx.fault(f"entropy-{r['entropy']}")
    kw = {}
    if backend == "numpy-dm":
        if r["mode"] != "sample":
            kw["mode"] = r["mode"]
    else:
        kw["output_form"] = r["form"]
    if r["how"] == "input":
        kw["input_state"] = psi
    else:
        simu.reset(input_state=psi)
    out = simu.run(vec, **kw)
    ctx.step(1 + len(order))
    rec = gen.record(simu, sp)
    sim.check_record(rec, tab, r["mode"])
    if r["form"] in ("sv", "statevector") and backend == "numpy-sv":
        if not gen.same(np.linalg.norm(out), 1.0):
            raise Violation("not-normalised", f"norm {np.linalg.norm(out)}")
        out = gen.proj(out)
    planes = {v: gen.setting(tab[v], 0.0, rec)[0] for v in order}
    if any(isinstance(tab[v], dict) for v in order):
        ctx.probe("controlled-setting")
    if r["mode"] != "sample" and backend == "numpy-dm":
        q, want = expected_expectation(sp, tab, angles, psi, order, rec)
        for v in order:
            if planes[v] == "Z":
                ctx.probe("expectation-Z")
                if not gen.same(rec[v], want[v], 1e-6):
                    raise Violation("expectation-value", f"node {v}: {rec[v]} instead of {want[v]:.6f}")
            else:
                if rec[v] not in (0, 1):
                    raise Violation("record-value", f"outcome of node {v} is {rec[v]!r}")
                if rec[v] == 1 and want[v] > 1e-3:
                    raise Violation("not-postselected", f"node {v}")
        rho = q.density(gen.qouts(sp, tab))
    else:
        rho, p0 = gen.conditional(sp, angles, psi, rec, order, tab)
        sim.check_born(p0, rec, tab)
        sim.check_postselect(p0, rec, tab, planes)
        if min([p if rec[v] == 0 else 1 - p for v, p in p0.items()], default=1) < 1e-3:
            raise Skip("ill-conditioned branch")
        if any(rec[v] for v in rec):
            ctx.nontrivial = True
            ctx.probe("record-with-1")
        if any(rec[v] and planes[v] != "Z" for v in rec):
            ctx.probe("forced-1")
    if not gen.same(out, rho):
        raise Violation("wrong-state", f"{backend}: {gen.dev(out, rho)}; record {rec}, order {order}")
    ctx.event("run", sorted((str(a), round(float(b), 6)) for a, b in rec.items()))
    ctx.state([sp, sorted((a, round(float(b), 6)) for a, b in rec.items())])


def run(sc, ctx):
    sp = sc["sp"]
    tab = gen.table(sp)
    if any(tab[v] is not None for v in sp["outs"]):
        ctx.probe("measured-output")
        ctx.nontrivial = True
    c = gen.build(sp)
    sim.check_trainables(c, sp, tab)
    sched = sc["schedule"]
    if sched is None and c.measurement_order is None:
        raise Skip("no flow and no schedule")
    order = sim.schedule_used(c, sp, sched)
    win = sp["n"] if sc["window"] == "N" else None
    simu = None
    for r in sc["ops"]:
        if simu is None or r["how"] == "new":
            simu = sim.make(c, sp, gen.mkpsi(r["psi"], len(sp["ins"])), sc["backend"], win, sched)
        one(c, simu, sp, tab, r, ctx, order, sc["backend"])


def shrink(sc):
    import copy
    sp = sc["sp"]
    for key, val in (("window", None), ("schedule", None)):
        if sc[key] is not None:
            yield {**sc, key: val}
    if sp["style"] != "int" or not sp["relabel"]:
        yield {**sc, "sp": {**sp, "style": "int", "relabel": True}}
    for j in range(len(sp["edges"])):
        yield {**sc, "sp": {**sp, "edges": sp["edges"][:j] + sp["edges"][j + 1:]}}
    if sp["ments"]:
        for j in range(len(sp["ments"])):
            yield {**sc, "sp": {**sp, "ments": sp["ments"][:j] + sp["ments"][j + 1:]}}
    for j, r in enumerate(sc["ops"]):
        if any(r["angles"]):
            c = copy.deepcopy(sc)
            c["ops"][j]["angles"] = [0.0] * len(r["angles"])
            yield c
        if r["psi"][1] != "plus":
            c = copy.deepcopy(sc)
            c["ops"][j]["psi"] = [0, "plus"]
            yield c
