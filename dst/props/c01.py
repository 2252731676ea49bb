"""C01: after a reset nothing of a simulator's past can be observed."""
from .. import env, fp, gen, ref, seams, sim
from ..core import Skip, Violation

np, mp = env.np, env.mp

ID = "C01"
N = {"quick": 11000, "thorough": 300000}
CHUNK = 15
RULE = ("run = one simulator driven through a random history of resets, runs, single measurements, refused calls, "
        "edits of measurements and calls aborted at a chosen source line, by a caller that reuses and overwrites its "
        "buffers; at check points a reset (or run with input) is compared with a new simulator and with the reference "
        "state; non-trivial when an abort fired, a call was refused or a partial measurement preceded a check")
STATE = "distinct (history, outcome record) pairs"
REAL = ["PatternSimulator", "NumpySimulatorDM", "NumpySimulatorSV", "PennylaneSimulator on default.qubit", "MBQCircuit"]
STUB = ["entropy words installed by the simulator", "aborts raised by a line tracer"]
ASSUME = ["an abort is an exception raised between two source lines of mentpy",
          "the circuit's measured nodes stay measured while a simulator for it exists"]


def scenario(rng, i, tier):
    be = rng.choice(["numpy-dm"] * 4 + ["numpy-sv"] * 4 + ["pennylane"] * 2)
    mix = {"numpy-dm": gen.XYZMIX if rng.random() < 0.2 else gen.FULLMIX, "numpy-sv": gen.XYMIX, "pennylane": gen.XYMIX}[be]
    nmax = {"numpy-dm": rng.choice([2, 3, 4, 5]), "numpy-sv": rng.choice([2, 3, 4, 6]), "pennylane": rng.choice([2, 3, 4])}[be]
    mo = 0 if be == "pennylane" else rng.choice([0, 0, 0.4])
    sp = gen.flow_spec(rng, nmax, wmax=2, mix=mix, measured_outputs=mo)
    if be != "pennylane":
        gen.restyle(rng, sp, 0.1)
    dev = be != "pennylane" and rng.random() < 0.1 and sim.wires(sp) is not None
    tab = gen.table(sp)
    measured = [v for v in tab if tab[v] is not None]
    ops = []
    frate = rng.choice([0, 0.3, 0.5])
    lastpsi, lastang = None, None
    long = rng.random() < 0.03
    if long:
        frate = 0
    for _ in range(rng.randint(25, 60) if long else rng.randint(2, 9)):
        k = rng.choice(["reset", "reset", "run", "run", "runinput", "measure", "measure", "bad", "edit", "check", "check"])
        if (be == "pennylane" or dev) and k == "measure":
            k = "reset"
        op = {"op": k, "fault": None}
        if k == "reset":
            op["psi"] = gen.psi_spec(rng) if rng.random() < 0.6 else None
        if k in ("run", "runinput", "check", "measure"):
            op["angles"] = gen.angle_table(rng, sp["n"])
        if k == "runinput":
            op["psi"] = gen.psi_spec(rng)
        if k == "measure":
            op["count"] = rng.randint(1, max(1, len(measured)))
        if k == "bad":
            op["kind"] = rng.choice(["short", "long", "reset-size", "run-size", "reset-shape", "short-input", "angle-type", "form"])
            op["psi"] = gen.psi_spec(rng)
        if k == "edit":
            if not measured:
                continue
            op["node"] = rng.choice(measured)
            op["ment"] = gen.ment(rng, mix)
        if k == "check":
            op["psi"] = gen.psi_spec(rng) if rng.random() < 0.65 else None
            op["via"] = rng.choice(["reset", "reset", "run"])
            op["es"] = rng.getrandbits(31)
            op["entropy"] = rng.choice(["seeded", "mixed"])
        elif k not in ("edit", "bad") and rng.random() < frate:
            op["fault"] = [round(rng.random(), 4), rng.choice(["interrupt", "memory"])]
        # buffers and values that differ only slightly from the ones used before
        if op.get("psi"):
            if lastpsi and rng.random() < 0.3:
                op["psi"] = gen.psi_spec(rng, lastpsi)
            lastpsi = op["psi"]
        if op.get("angles"):
            if lastang and rng.random() < 0.35:
                op["angles"] = gen.angle_table(rng, sp["n"], lastang)
            lastang = op["angles"]
        ops.append(op)
    ops.append({"op": "check", "psi": None if rng.random() < 0.5 else gen.psi_spec(rng), "via": "reset", "fault": None,
                "angles": gen.angle_table(rng, sp["n"]), "es": rng.getrandbits(31), "entropy": "seeded"})
    return {"sp": sp, "backend": be, "psi": gen.psi_spec(rng), "ops": ops,
            "window": rng.choice([None, None, "N"]) if be != "pennylane" else None, "dev": dev,
            "overwrite": rng.random() < 0.6}


def run(sc, ctx):
    sp, be = sc["sp"], sc["backend"]
    tab = gen.table(sp)
    c = gen.build(sp)
    if c.measurement_order is None:
        raise Skip("no flow")
    k = len(sp["ins"])
    win = sp["n"] if sc["window"] == "N" else None
    order = sim.schedule_used(c, sp, None)
    sys_ = {"tab": tab}

    def new(psi):
        kw = {"dev_mode": True, "wires": sim.wires(sp)} if sc["dev"] else {}
        return sim.make(c, sp, psi, be, win, **kw)

    def vec(angles):
        return [gen.free(sys_["tab"][v], angles[v]) for v in pos_trainables()]

    inv = {gen.label(sp, i): i for i in range(sp["n"])}

    def pos_trainables():
        return [inv[v] for v in c.trainable_nodes]

    buf0 = gen.mkpsi(sc["psi"], k)
    last = [buf0.copy()]  # possible values of "the last input state"
    simu = new(buf0)
    if sc["overwrite"]:
        buf0[...] = 7.0
    before = fp.circuit(c)
    dirty = False

    def guarded(op, fn, psi=None, args=()):
        """Calls fn; True when it completed.  Buffers must come back untouched."""
        copies = [np.array(a, copy=True) if isinstance(a, np.ndarray) else list(a) for a in args]
        done, fired = True, None
        f = op.get("fault")
        try:
            if f:
                # count the lines of the same call on a throw-away simulator
                twin = new(last[-1].copy())
                with seams.LineFault() as cnt:
                    try:
                        fn(twin)
                    except Exception:  # noqa: BLE001
                        pass
                with seams.LineFault(1 + int(f[0] * cnt.count), f[1]) as lf:
                    fn(simu)
                fired = lf.fired
            else:
                fn(simu)
        except (seams.InjectedInterrupt, seams.InjectedMemoryError):
            done = False
            ctx.fault(f"abort-{f[1]}")
            ctx.event("abort", op["op"])
        for a, b in zip(args, copies):
            if (isinstance(a, np.ndarray) and not np.array_equal(a, b)) or (isinstance(a, list) and a != b):
                raise Violation("caller-data-modified", f"{op['op']} changed an argument of the caller")
        return done, fired

    for op in sc["ops"]:
        ctx.step()
        kind = op["op"]
        if kind == "edit":
            c[gen.label(sp, op["node"])] = gen.mk_ment(op["ment"])
            sys_["tab"][op["node"]] = op["ment"]
            before = fp.circuit(c)
            ctx.probe("edit")
            continue
        psi = gen.mkpsi(op["psi"], k) if op.get("psi") else None
        keep = None if psi is None else psi.copy()
        if kind == "reset":
            try:
                done, _ = guarded(op, lambda s: s.reset() if psi is None else s.reset(input_state=psi), psi,
                                  [psi] if psi is not None else [])
            except Exception as e:  # noqa: BLE001
                if op.get("fault"):
                    done = False
                else:
                    raise
            if psi is not None:
                last = [keep] if done and not op.get("fault") else last + [keep]
            dirty = dirty or not done
        elif kind in ("run", "runinput"):
            v = vec(op["angles"])
            try:
                kw = {} if psi is None else {"input_state": psi}
                done, _ = guarded(op, lambda s: s.run(v, **kw), psi, [v] + ([psi] if psi is not None else []))
                ok = True
            except Exception:  # noqa: BLE001  a run without reset may be refused
                if psi is not None and not op.get("fault"):
                    raise
                done, ok = False, False
                ctx.probe("dirty-run-refused")
            if psi is not None:
                last = [keep] if done and not op.get("fault") else last + [keep]
            dirty = True
        elif kind == "measure":
            # a partial step-by-step measurement from a clean start
            simu.reset()
            steps = []
            seams.entropy(sc.get("seed", 0), "seeded")
            for j in range(min(op["count"], len(order))):
                v = order[j]
                m = sys_["tab"][v]
                a = gen.free(m, op["angles"][v]) if gen.trainable(m) else c[gen.label(sp, v)].angle
                o2 = dict(op)
                if j < op["count"] - 1:
                    o2["fault"] = None
                try:
                    def one(s):
                        if s is not simu:
                            return s.measure(gen.free(sys_["tab"][order[0]], op["angles"][order[0]]))
                        r = s.measure(a)
                        steps.append((a, np.array(r[0], copy=True), r[1]))
                    guarded(o2, one)
                except ValueError:
                    if not op.get("fault"):
                        raise
            if not op.get("fault") and len(last) == 1:
                fresh = new(last[0].copy())
                seams.entropy(sc.get("seed", 0), "seeded")
                for a, st, o in steps:
                    r = fresh.measure(a)
                    if r[1] != o or not gen.same(r[0], st, 1e-9):
                        raise Violation("past-visible", f"single measurements after a reset differ from a new simulator: {gen.dev(r[0], st)}, outcomes {o}, {r[1]}")
            ctx.probe("partial-measurement")
            ctx.nontrivial = True
            dirty = True
        elif kind == "bad":
            v = vec([0.1] * sp["n"])
            refused = False
            w = np.ones(2 ** k + 1, dtype=complex) / np.sqrt(2 ** k + 1)
            calls = {
                "short": lambda: simu.run(v[:-1]) if v else simu.run([0.3]),
                "long": lambda: simu.run(v + [0.2]),
                "reset-size": lambda: simu.reset(input_state=w),
                "reset-shape": lambda: simu.reset(input_state=np.ones((2 ** k, 2)) / np.sqrt(2 ** (k + 1))),
                "run-size": lambda: simu.run(v, input_state=w),
                "short-input": lambda: simu.run(v + [0.2, 0.3], input_state=psi),
                "angle-type": lambda: simu.run(["x"] * len(v) if v else [None]),
                "form": lambda: simu.run(v, output_form="nonsense") if be == "numpy-sv" else simu.run(v + [1.0]),
            }
            try:
                calls[op["kind"]]()
            except Exception:  # noqa: BLE001
                refused = True
            if op["kind"] in ("short", "long", "reset-size", "run-size", "reset-shape", "short-input") and not refused:
                raise Violation("bad-call-accepted", op["kind"])
            if op["kind"] == "short-input":
                last = last + [keep]
            ctx.fault("refused-call")
            dirty = True
        elif kind == "check":
            v = vec(op["angles"])
            angles = dict(enumerate(op["angles"]))
            nargs = [v] + ([psi] if psi is not None else [])
            copies = [list(v), None if psi is None else psi.copy()]
            if op["via"] == "run" and psi is not None:
                seams.entropy(op["es"], op["entropy"])
                got = simu.run(v, input_state=psi)
            else:
                simu.reset() if psi is None else simu.reset(input_state=psi)
                if psi is not None and sc["overwrite"]:
                    psi[...] = 5.0  # the caller reuses its buffer before running
                seams.entropy(op["es"], op["entropy"])
                got = simu.run(v)
            if v != copies[0] or (psi is not None and not sc["overwrite"] and not np.array_equal(psi, copies[1])):
                raise Violation("caller-data-modified", "run or reset changed an argument of the caller")
            cands = last if psi is None else [keep]
            rec = dict(simu.outcomes)
            good, why = [], ""
            for cand in cands:
                fresh = new(cand.copy())
                seams.entropy(op["es"], op["entropy"])
                want = fresh.run(list(v))
                if be == "pennylane" or dict(fresh.outcomes) == rec:
                    if gen.same(got, want, 1e-9):
                        good.append(cand)
                    why = gen.dev(got, want)
                else:
                    why = f"outcomes {rec} instead of {dict(fresh.outcomes)}"
            if not good:
                raise Violation("past-visible", f"{be}: a reset simulator differs from a new one: {why}")
            last = good
            # and both equal the reference, so that leaks shared by all simulators show
            if be == "pennylane":
                prec = {u: 0 for u in order}
            else:
                prec = {inv[a]: b for a, b in rec.items()}
                sim.check_record(prec, sys_["tab"])
            want, p0 = gen.conditional(sp, angles, good[0], prec, list(prec) if sc["dev"] else order, sys_["tab"])
            if min([p if prec[u] == 0 else 1 - p for u, p in p0.items()], default=1) > 1e-3 and not gen.same(got, want):
                raise Violation("wrong-state-after-history", gen.dev(got, want))
            ctx.probe("check-after-dirt" if dirty else "check")
            ctx.state([sp, sc["ops"], sorted(map(str, rec.items()))])
            if sc["overwrite"]:
                try:
                    got[...] = 3.0  # the caller owns what it was given
                    v[:] = [9.0] * len(v)
                except ValueError:
                    pass
            dirty = False
        now = fp.circuit(c)
        if now != before:
            raise Violation("circuit-modified", f"{kind}: {fp.diff(before, now)}")
        if sc["overwrite"] and psi is not None:
            psi[...] = 3.0
        ctx.event(kind, op.get("kind"), sorted(map(str, dict(simu.outcomes).items())))


def shrink(sc):
    import copy
    sp = sc["sp"]
    if sc["overwrite"]:
        yield {**sc, "overwrite": False}
    if sc["window"]:
        yield {**sc, "window": None}
    if sc["dev"]:
        yield {**sc, "dev": False}
    if sp["style"] != "int" or not sp["relabel"]:
        yield {**sc, "sp": {**sp, "style": "int", "relabel": True}}
    for j, r in enumerate(sc["ops"]):
        if any(r.get("angles") or []):
            c = copy.deepcopy(sc)
            c["ops"][j]["angles"] = [0.0] * len(r["angles"])
            yield c
        if r.get("psi") and r["psi"] != [0, "plus"]:
            c = copy.deepcopy(sc)
            c["ops"][j]["psi"] = [0, "plus"]
            yield c
