"""C15: controlled measurements obey the outcomes recorded in the same run."""
import copy

from .. import env, fp, gen, ref, seams, sim
from ..core import Skip, Violation

np, mp = env.np, env.mp

ID = "C15"
N = {"quick": 16000, "thorough": 250000}
CHUNK = 30
RULE = ("run = one circuit whose controlled measurements are added, replaced and removed in a random order (some edits "
        "cyclic or reading unknown nodes), then executed several times on one simulator under steered entropy, with "
        "resets and aborted runs in between; every recorded run is compared with the reference executing the setting "
        "selected by its own record; non-trivial when a control was decided both ways or an edit was refused")
STATE = "distinct (circuit, outcome record) pairs"
REAL = ["ControlMent, MentOutcome", "MBQCircuit edits, orders", "NumpySimulatorDM"]
STUB = ["entropy words installed by the simulator", "aborts raised by a line tracer"]
ASSUME = ["conditions are built from outcome objects of the circuit's own measurements or of measurements with the same node id"]
MIX = (("Z", 5), ("XY*", 3), ("XY", 1), ("X", 1), ("Y", 1), ("XZ*", 1), ("YZ*", 1))


def control(rng, sp, tab, free):
    nodes = [v for v in range(sp["n"]) if tab[v] is not None]
    z = [v for v in nodes if tab[v] is not None and not isinstance(tab[v], dict) and tab[v][0] == "Z"]
    pool = z if z and rng.random() < 0.7 else nodes
    m = {"cond": gen.cond(rng, rng.sample(pool, min(len(pool), rng.choice([1, 1, 2, 3]))), rng.choice([0, 1, 2])),
         "t": gen.ment(rng, gen.FULLMIX), "f": gen.ment(rng, gen.FULLMIX)}
    return m


def scenario(rng, i, tier):
    nmax = rng.choice([2, 3, 3, 4, 4, 5] + ([6] if tier != "quick" else []))
    if rng.random() < 0.8:
        sp = gen.flow_spec(rng, nmax, wmax=2, mix=MIX, measured_outputs=rng.choice([0, 0.5]))
    else:
        sp = gen.any_spec(rng, nmax, mix=MIX, measured_outputs=0.3)
    gen.restyle(rng, sp, 0.2)
    tab = gen.table(sp)
    ops, free = [], True
    cur = dict(tab)
    for _ in range(rng.randint(1, 6)):
        nodes = [v for v in cur if cur[v] is not None]
        if not nodes:
            break
        v = rng.choice(nodes)
        k = rng.choice(["control", "control", "control", "plain", "table", "outcontrol", "alien"])
        if k == "control":
            ops.append({"op": "set", "node": v, "ment": control(rng, sp, cur, free), "own": rng.random() < 0.6})
        elif k == "plain":
            ops.append({"op": "set", "node": v, "ment": gen.ment(rng, MIX), "own": False})
        elif k == "outcontrol" and sp["outs"]:
            o = rng.choice(sp["outs"])
            ops.append({"op": "set", "node": o, "ment": control(rng, sp, cur, free), "own": rng.random() < 0.6})
        elif k == "alien":
            ops.append({"op": "alien", "node": v})
        else:
            new = []
            for u in nodes:
                if rng.random() < 0.6:
                    new.append([u, control(rng, sp, cur, free) if rng.random() < 0.4 else gen.ment(rng, MIX)])
            ops.append({"op": "table", "ments": new})
    sched = list(range(sp["n"]))
    rng.shuffle(sched)
    runs = []
    for _ in range(rng.choice([2, 3, 4])):
        runs.append({"es": rng.getrandbits(31), "profile": rng.choice(["mixed", "mixed", "seeded"]), "angles": gen.angle_table(rng, sp["n"]),
                     "psi": gen.psi_spec(rng) if rng.random() < 0.4 else None,
                     "abort": round(rng.random(), 4) if rng.random() < 0.25 else None})
    return {"sp": sp, "editops": ops, "schedule": sched if rng.random() < 0.35 else None, "psi": gen.psi_spec(rng),
            "runops": runs, "recs": [rng.getrandbits(12) for _ in range(4)]}


def deps(sp, tab, f):
    """node -> nodes that must be measured later"""
    succ = {v: set() for v in range(sp["n"])}
    if f is not None:
        for a, b in ref.flow_constraints(range(sp["n"]), sp["edges"], f):
            succ[a].add(b)
    for v, m in tab.items():
        if isinstance(m, dict):
            for u in gen.cond_nodes(m["cond"]):
                succ[u].add(v)
    return succ


def acyclic(sp, succ):
    return all(v not in s for v, s in succ.items()) and ref.topo_ok(list(succ), succ)


def run(sc, ctx):
    sp = sc["sp"]
    lab = lambda i: gen.label(sp, i)
    inv = {lab(i): i for i in range(sp["n"])}
    c = gen.build(sp)
    tab = gen.table(sp)
    r = ref.causal_flow(range(sp["n"]), sp["edges"], sp["ins"], sp["outs"])
    f = r[0] if r else None
    if (c.flow is None) != (f is None):
        raise Skip("flow differs (C05)")

    def check_circuit(what):
        succ = deps(sp, tab, f)
        want = {lab(v) for v in tab if isinstance(tab[v], dict)}
        if set(c.controlled_nodes) != want or len(c.controlled_nodes) != len(want):
            raise Violation("controlled-nodes", f"after {what}: {c.controlled_nodes}, expected {sorted(want, key=str)}")
        sim.check_trainables(c, sp, tab)
        mo = c.measurement_order
        if f is None:
            return
        if mo is None or len(mo) != sp["n"] or {inv[x] for x in mo} != set(range(sp["n"])):
            raise Violation("order-not-complete", f"after {what}: {mo}")
        pos = {inv[x]: k for k, x in enumerate(mo)}
        for a in succ:
            for b in succ[a]:
                if pos[a] > pos[b]:
                    raise Violation("order-violates-dependency", f"after {what}: {lab(a)} must precede {lab(b)} in {mo}")
                if not c.partial_order(lab(a), lab(b)):
                    raise Violation("partial-order-misses-dependency", f"after {what}: {lab(a)} must precede {lab(b)}")
        # any record selects the right setting
        for bits in sc["recs"]:
            rec = {v: (bits >> v) & 1 for v in range(sp["n"])}
            lrec = {lab(v): b for v, b in rec.items()}
            for v, m in tab.items():
                if not isinstance(m, dict):
                    continue
                got = c[lab(v)]
                t = gen.cond_eval(m["cond"], rec)
                if bool(got.condition(lrec)) != t:
                    raise Violation("condition-value", f"condition of {lab(v)} under {lrec} is {not t}, expected {t} ({m['cond']})")
                pl, a = gen.setting(m, 0.4375, rec)
                mat = got.matrix(0.4375 if got.is_trainable() else None, dict(lrec))
                if not gen.same(mat, ref.observable(pl, a), 1e-9):
                    raise Violation("wrong-setting", f"{lab(v)} under {lrec} should be measured in {pl} at {a}")
                if got.plane(dict(lrec)) != pl:
                    raise Violation("wrong-plane", f"{lab(v)} under {lrec}: {got.plane(dict(lrec))} instead of {pl}")
                ctx.state([m, bits])
            ctx.step()

    check_circuit("construction")
    for op in sc["editops"]:
        ctx.step()
        if op["op"] == "alien":
            before = fp.circuit(c)
            alien = 991 if not isinstance(lab(0), str) else "other"
            try:
                c[lab(op["node"])] = gen.mk_ment({"cond": ["o", alien], "t": ["XY", None], "f": ["X", None]}, lambda x: x)
            except Exception:  # noqa: BLE001
                ctx.fault("refused-control")
            else:
                raise Violation("unknown-node-accepted", "a condition reading a node outside the circuit was accepted")
            d = fp.diff(before, fp.circuit(c))
            if d:
                raise Violation("refused-control-changed-circuit", d)
            continue
        new = dict(tab)
        if op["op"] == "set":
            new[op["node"]] = op["ment"]
            own = op["own"] and isinstance(op["ment"], dict) and all(c[lab(u)] is not None for u in gen.cond_nodes(op["ment"]["cond"]))

            def edit():
                c[lab(op["node"])] = gen.mk_ment(op["ment"], lab, c if own else None)
        else:
            given = dict((v, m) for v, m in op["ments"])
            new = {v: given.get(v, None if v in sp["outs"] else ["XY", None]) for v in range(sp["n"])}

            def edit():
                c.measurements = {lab(v): gen.mk_ment(m, lab) for v, m in given.items()}
        ok = acyclic(sp, deps(sp, new, f))
        before = fp.circuit(c)
        try:
            edit()
        except Exception as e:  # noqa: BLE001
            if ok:
                raise Violation("control-refused", f"{op}: {type(e).__name__}: {e}")
            ctx.fault("refused-control")
            d = fp.diff(before, fp.circuit(c))
            if d:
                raise Violation("refused-control-changed-circuit", d)
        else:
            if not ok:
                raise Violation("cyclic-control-accepted", f"{op} cannot be ordered")
            tab = new
            ctx.event("edit", op)
        check_circuit(str(op))

    # ---------------------------------------------------------------- execution
    measured = [v for v in tab if tab[v] is not None]
    sched = sc["schedule"]
    if sched is None:
        if c.measurement_order is None:
            sched = list(range(sp["n"]))
        order = [v for v in (sched or [inv[x] for x in c.measurement_order]) if tab[v] is not None]
    else:
        order = [v for v in sched if tab[v] is not None]
    pos = {v: k for k, v in enumerate(order)}
    runnable = all(u in pos and pos[u] < pos[v] for v in measured if isinstance(tab[v], dict)
                   for u in gen.cond_nodes(tab[v]["cond"]))
    psi = gen.mkpsi(sc["psi"], len(sp["ins"]))
    try:
        simu = sim.make(c, sp, psi.copy(), "numpy-dm", None, sched)
    except ValueError:
        if runnable:
            raise
        ctx.fault("refused-schedule")
        return
    before = fp.circuit(c)
    last = psi
    decided = {}
    for k, rn in enumerate(sc["runops"]):
        ctx.step()
        if rn["psi"]:
            last = gen.mkpsi(rn["psi"], len(sp["ins"]))
        angles = dict(enumerate(rn["angles"]))
        vec = sim.angle_vec(c, sp, angles)
        if k or rn["psi"]:
            simu.reset(input_state=last.copy()) if rn["psi"] else simu.reset()
        seams.entropy(rn["es"], rn["profile"], 60)
        if rn["abort"] is not None:
            with seams.LineFault() as cnt:
                try:
                    sim.make(c, sp, last.copy(), "numpy-dm", None, sched).run(list(vec))
                except Exception:  # noqa: BLE001
                    pass
            try:
                with seams.LineFault(1 + int(rn["abort"] * cnt.count)):
                    simu.run(list(vec))
            except seams.InjectedInterrupt:
                ctx.fault("abort-interrupt")
            except Exception:  # noqa: BLE001
                pass
            continue
        try:
            out = simu.run(list(vec))
        except Exception as e:  # noqa: BLE001
            if runnable:
                raise
            ctx.fault("refused-run")
            continue
        if not runnable:
            raise Violation("condition-read-too-early", f"ran although a condition reads a node that is not measured before (order {order}, table {tab})")
        rec = gen.record(simu, sp)
        sim.check_record(rec, tab)
        want, p0 = gen.conditional(sp, angles, last, rec, order, tab)
        sim.check_born(p0, rec, tab)
        planes = {v: gen.setting(tab[v], 0.0, rec)[0] for v in rec}
        sim.check_postselect(p0, rec, tab, planes)
        for v in order:
            if isinstance(tab[v], dict):
                t = gen.cond_eval(tab[v]["cond"], rec)
                decided.setdefault(v, set()).add(t)
                ctx.probe(f"control-{t}")
        if min([p if rec[v] == 0 else 1 - p for v, p in p0.items()], default=1) < 1e-3:
            ctx.probe("ill-conditioned")
            continue
        if not gen.same(out, want):
            raise Violation("wrong-state", f"order {order}, record {rec}: {gen.dev(out, want)}")
        ctx.state([sp, tab and sorted(map(str, tab.items())), sorted(rec.items())])
        ctx.event("run", sorted(rec.items()))
    if any(len(x) == 2 for x in decided.values()):
        ctx.fault("control-decided-both-ways")
    d = fp.diff(before, fp.circuit(c))
    if d:
        raise Violation("run-changed-circuit", d)


def shrink(sc):
    sp = sc["sp"]
    if sp["style"] != "int" or not sp["relabel"]:
        yield {**sc, "sp": {**sp, "style": "int", "relabel": True}}
    for j in range(len(sp["edges"])):
        yield {**sc, "sp": {**sp, "edges": sp["edges"][:j] + sp["edges"][j + 1:]}}
    if sp["ments"]:
        for j in range(len(sp["ments"])):
            yield {**sc, "sp": {**sp, "ments": sp["ments"][:j] + sp["ments"][j + 1:]}}
    if sc["psi"] != [0, "plus"]:
        yield {**sc, "psi": [0, "plus"]}
    for j, r in enumerate(sc["runops"]):
        if any(r["angles"]):
            c = copy.deepcopy(sc)
            c["runops"][j]["angles"] = [0.0] * len(r["angles"])
            yield c
