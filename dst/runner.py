"""Executes simulated runs in forked children, confirms, minimises and reports."""
import copy
import importlib
import json
import os
import resource
import selectors
import signal
import subprocess
import sys
import time
import traceback

from . import env, seams
from .core import Ctx, Skip, Violation, digest, sub

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("DST_WORKERS", "0")) or min(8, os.cpu_count() or 1)
WALL = float(os.environ.get("DST_WALL", "600"))  # stop launching runs after this
ALARM = 90  # seconds one simulated run may take before it is examined as a hang
LINES = 6_000_000  # deterministic step budget of one simulated run


class HangAlarm(BaseException):
    pass


def load(pid):
    return importlib.import_module(f"dst.props.{pid.lower()}")


def _mentpy_frame(tb):
    """Innermost mentpy frame of a traceback as 'file:function', or None."""
    hit = None
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(env.SRC):
            hit = f"{os.path.relpath(f.filename, env.SRC)}:{f.name}"
    return hit


def execute(mod, sc, trace=False, budget=None):
    """One simulated run -> JSON-able result."""
    ctx = Ctx()
    if trace:
        ctx.trace = []
    viol = harness = None
    skipped = False
    try:
        seams.entropy(sc.get("seed", 0), "seeded")
        if budget:
            with seams.LineBudget(budget):
                mod.run(copy.deepcopy(sc), ctx)
        else:
            mod.run(copy.deepcopy(sc), ctx)
    except Violation as v:
        viol = {"kind": v.kind, "msg": v.msg, "sig": v.sig}
        if v.patch:
            viol["patch"] = v.patch
    except Skip as s:
        skipped = True
        ctx.probe(f"skipped:{s}")
    except seams.BudgetExceeded as e:
        viol = {"kind": "no-progress", "msg": str(e), "sig": None}
    except HangAlarm:
        return {"hang": True}
    except (OSError, ImportError) as e:
        harness = traceback.format_exc()
        fr = _mentpy_frame(sys.exc_info()[2])
        if fr:
            viol = {"kind": f"failure:{type(e).__name__}", "msg": f"{e} at {fr}", "sig": fr}
            harness = None
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, SystemExit) and not _mentpy_frame(sys.exc_info()[2]):
            raise
        fr = _mentpy_frame(sys.exc_info()[2])
        tail = traceback.format_exc().strip().splitlines()[-7:]
        if fr:
            viol = {"kind": f"failure:{type(e).__name__}", "msg": f"{e} at {fr}\n" + "\n".join(tail), "sig": fr}
        else:
            viol = {"kind": f"malformed:{type(e).__name__}",
                    "msg": "a result could not be examined\n" + "\n".join(tail), "sig": None}
    r = ctx.result()
    r["skipped"] = skipped
    if viol:
        r["viol"] = viol
    if harness:
        r["harness"] = harness
    if trace:
        r["trace"] = [list(t) for t in ctx.trace]
    return r


def _alarm(*a):
    raise HangAlarm()


def _child(w, fn):
    code = 0
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get("DST_STDERR"):
            os.dup2(devnull, 2)
        signal.signal(signal.SIGALRM, _alarm)
        out = json.dumps(fn(), default=str).encode()
    except BaseException:  # noqa: BLE001
        out = json.dumps({"harness": traceback.format_exc()}).encode()
        code = 1
    try:
        view = memoryview(out)
        while view:
            view = view[os.write(w, view):]
    finally:
        os._exit(code)


class Jobs:
    """At most WORKERS forked children at a time; results in completion order."""

    def __init__(self, workers=WORKERS):
        self.sel = selectors.DefaultSelector()
        self.workers = workers
        self.live = {}

    def launch(self, tag, fn, limit):
        sys.stdout.flush()
        sys.stderr.flush()
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            _child(w, fn)
        os.close(w)
        self.sel.register(r, selectors.EVENT_READ)
        self.live[r] = [tag, pid, b"", time.time() + limit]

    def full(self):
        return len(self.live) >= self.workers

    def wait(self):
        """Yields (tag, result|None) for every child that ended."""
        done = []
        for key, _ in self.sel.select(timeout=1.0):
            j = self.live[key.fd]
            b = os.read(key.fd, 1 << 20)
            if b:
                j[2] += b
                continue
            done.append(key.fd)
        now = time.time()
        for fd, j in list(self.live.items()):
            if fd not in done and now > j[3]:
                os.kill(j[1], signal.SIGKILL)
                done.append(fd)
        out = []
        for fd in done:
            tag, pid, data, _ = self.live.pop(fd)
            self.sel.unregister(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            try:
                out.append((tag, json.loads(data)))
            except ValueError:
                out.append((tag, None))
        return out


def forked(fn, limit=300):
    j = Jobs(1)
    j.launch(0, fn, limit)
    while j.live:
        for _, r in j.wait():
            return r


def timed(mod, sc, trace=False):
    """execute() under an alarm; a run that hangs is repeated under a
    deterministic line budget, which decides."""
    signal.setitimer(signal.ITIMER_REAL, getattr(mod, "ALARM", ALARM))
    try:
        r = execute(mod, sc, trace)
    except HangAlarm:
        r = {"hang": True}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return r


def run_list(mod, scs, trace=False):
    """Runs scenarios one after another in this process (same process history)."""
    out = []
    for sc in scs:
        r = timed(mod, sc, trace)
        out.append(r)
        if r.get("viol") or r.get("hang") or r.get("harness"):
            break
    return out


def fails(mod, scs, kind=None):
    """Runs an episode in a fresh child; the violation of its last scenario, if any
    (and if of the same kind)."""
    def go():
        return run_list(mod, scs)
    res = forked(go, 400)
    if not isinstance(res, list) or not res:
        return None
    last = res[-1]
    if last.get("hang"):
        res2 = forked(lambda: execute(mod, scs[len(res) - 1], budget=getattr(mod, "LINES", LINES)), 500)
        last = res2 or {}
    v = last.get("viol")
    if v and (kind is None or v["kind"] == kind):
        return v
    return None


def generic_shrink(sc):
    """Candidates with fewer operations (any list under a key ending in 'ops')."""
    for key in [k for k in sc if k.endswith("ops") and isinstance(sc[k], list)]:
        ops = sc[key]
        n = len(ops)
        size = max(1, n // 2)
        while size >= 1:
            for i in range(0, n, size):
                c = copy.deepcopy(sc)
                c[key] = ops[:i] + ops[i + size:]
                yield c
            if size == 1:
                break
            size //= 2
        for i, op in enumerate(ops):
            if isinstance(op, dict) and op.get("fault"):
                c = copy.deepcopy(sc)
                c[key][i]["fault"] = None
                yield c


def minimise(mod, sc, viol, seconds=60):
    end = time.time() + seconds
    tried = 0
    seen = {digest(sc)}
    progress = True
    while progress and time.time() < end:
        progress = False
        gens = [generic_shrink(sc)]
        if hasattr(mod, "shrink"):
            gens.append(mod.shrink(copy.deepcopy(sc)))
        for g in gens:
            try:
                for c in g:
                    if time.time() > end:
                        break
                    d = digest(c)
                    if d in seen:
                        continue
                    seen.add(d)
                    tried += 1
                    v = fails(mod, [c], viol["kind"])
                    if v:
                        sc, viol, progress = c, v, True
                        break
            except Exception:  # noqa: BLE001  a shrinker must never lose a violation
                continue
            if progress:
                break
    return sc, viol, tried


def known_findings(pid):
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:"):
                kv = dict(x.split("=", 1) for x in line[6:].split("|")[0].split() if "=" in x)
                if kv.get("property") == pid:
                    out.append((kv, line))
    return out


def matches(kv, v, sc):
    return kv.get("kind") == v["kind"] and (kv.get("sig") in (None, v.get("sig"))) and (
        kv.get("scenario") in (None, digest(sc)))


def write_replay(pid, seed, tier, scs, viol, res):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{digest(scs)}.json")
    json.dump({"property": pid, "verif_seed": seed, "tier": tier, "hashseed": os.environ.get("PYTHONHASHSEED"),
               "violation": viol, "episode": scs, "history": res}, open(path, "w"), indent=1, default=str)
    return os.path.relpath(path, HERE)


def replay(pid, path):
    mod = load(pid)
    rec = json.load(open(path))
    if "aggregate" in rec["episode"][0]:  # a statistic of a whole batch: the batch is repeated
        e = rec["episode"][0]
        return check(pid, e["tier"], e["seed"], e["n"])
    r = fails(mod, rec["episode"])
    if r:
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  {r['kind']}: {r['msg']}")
        return 1
    print(f"replay of {path}: the property holds")
    return 0


def check(pid, tier, seed, n=None, only=None):
    t0 = time.time()
    mod = load(pid)
    total = n or mod.N[tier]
    per = getattr(mod, "CHUNK", 20)
    rng_of = lambda i: sub(seed, pid, i)
    if hasattr(mod, "warm"):
        mod.warm()
    jobs = Jobs()
    nxt = 0
    agg = dict(runs=0, steps=0, faults={}, probes={}, nontrivial=set(), states=set(), skipped=0, hangs=0)
    values, samples, logs = {}, [], {}
    bad, harness, hung = [], [], []

    def chunk(lo, hi):
        def go():
            out = []
            for i in range(lo, hi):
                sc = mod.scenario(rng_of(i), i, tier)
                sc.setdefault("seed", rng_of(i).getrandbits(31))
                r = timed(mod, sc)
                r["i"] = i
                r["d"] = digest(sc)
                if i < 3 or r.get("viol"):
                    r["sc"] = sc
                out.append(r)
                if r.get("viol") or r.get("hang"):
                    break
            return out
        return go

    cap = WALL if tier == "quick" else float(os.environ.get("DST_WALL", "7200"))
    while True:
        while nxt < total and not jobs.full() and not bad and not hung and time.time() - t0 < cap:
            hi = min(total, nxt + per)
            jobs.launch((nxt, hi), chunk(nxt, hi), 600)
            nxt = hi
        if not jobs.live:
            break
        for (lo, hi), res in jobs.wait():
            if not isinstance(res, list):
                harness.append((lo, res))
                continue
            for r in res:
                if r.get("hang"):
                    agg["hangs"] += 1
                    hung.append(r["i"])
                    continue
                agg["runs"] += 1
                agg["steps"] += r["steps"]
                for k in ("faults", "probes"):
                    for a, b in r[k].items():
                        agg[k][a] = agg[k].get(a, 0) + b
                agg["skipped"] += bool(r["skipped"])
                if r["nontrivial"] and not r["skipped"]:
                    agg["nontrivial"].add(r["d"])
                agg["states"].update(r["states"])
                for a, b in r["values"].items():
                    values[a] = values.get(a, 0.0) + b
                logs[r["i"]] = r["log"]
                if "sc" in r and not r.get("viol") and len(samples) < 3:
                    samples.append({"run": r["i"], "scenario": r["sc"], "log": r["log"]})
                if r.get("harness"):
                    harness.append((r["i"], r["harness"]))
                if r.get("viol"):
                    bad.append((r["i"], r["sc"], r["viol"], lo))

    # determinism sample: same scenario, other process, other neighbours
    nredo = getattr(mod, "REDO", 16)
    redo = sorted(logs)[:: max(1, len(logs) // nredo)][:nredo]
    same = diff = 0
    if not bad and not harness and redo:
        def again():
            out = []
            for i in reversed(redo):
                sc = mod.scenario(rng_of(i), i, tier)
                sc.setdefault("seed", rng_of(i).getrandbits(31))
                out.append((i, timed(mod, sc).get("log")))
            return out
        for i, l in forked(again, 600) or []:
            if l == logs[i]:
                same += 1
            else:
                diff += 1

    if hasattr(mod, "aggregate") and not bad:
        try:
            mod.aggregate(values)
        except Violation as v:
            bad.append((0, {"aggregate": values, "seed": seed, "tier": tier, "n": total}, {"kind": v.kind, "msg": v.msg, "sig": None}, None))

    # hangs: decided by a deterministic budget of source lines
    for i in sorted(hung)[:2]:
        sc = mod.scenario(rng_of(i), i, tier)
        sc.setdefault("seed", rng_of(i).getrandbits(31))
        r = forked(lambda: execute(mod, sc, budget=getattr(mod, "LINES", LINES)), 500)
        if r and r.get("viol"):
            bad.append((i, sc, r["viol"], i))

    lines, ok, knownhits = [], True, 0
    known = known_findings(pid)
    bad.sort(key=lambda b: b[0])
    reported = None
    for i, sc, v, lo in bad:
        hit = [line for kv, line in known if matches(kv, v, sc)]
        if hit:
            knownhits += 1
            what = hit[0].split("|", 1)[-1].strip()
            lines.append(f"KNOWN-FINDING: property={pid} {what}")
            continue
        ok = False
        if reported:
            continue
        if lo is None:  # aggregated over the batch: the batch is the replay
            path = write_replay(pid, seed, tier, [sc], v, None)
            reported = path
            lines += [f"VIOLATION property={pid} replay={path}", f"  {v['kind']}: {v['msg']}"]
            continue
        scs, note = [sc], ""
        w = fails(mod, scs)
        if w is None:  # depends on what the same process ran before
            scs = []
            for j in range(lo, i + 1):
                s = mod.scenario(rng_of(j), j, tier)
                s.setdefault("seed", rng_of(j).getrandbits(31))
                scs.append(s)
            w = fails(mod, scs)
            note = " (needs the preceding runs of the same process)"
            if w is not None:
                step = max(1, (len(scs) - 1) // 2)
                while step and len(scs) > 1:
                    k = 0
                    while k < len(scs) - 1:
                        c = scs[:k] + scs[min(k + step, len(scs) - 1):]
                        if len(c) < len(scs) and fails(mod, c, w["kind"]):
                            scs = c
                        else:
                            k += step
                    step //= 2
        else:
            if w.get("patch"):  # the schedule that failed becomes part of the scenario
                pinned = {**sc, **w.pop("patch")}
                wp = fails(mod, [pinned], w["kind"])
                if wp:
                    sc, w = pinned, wp
            sc2, w, tried = minimise(mod, sc, w)
            w.pop("patch", None)
            scs = [sc2]
        if w is None:
            note, w, scs = " (did not reproduce in a fresh process)", v, [sc]
        hist = forked(lambda: run_list(mod, scs, trace=True), 300)
        path = write_replay(pid, seed, tier, scs, w, hist)
        reported = path
        conf = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), pid, "--replay", path],
                              cwd=HERE, capture_output=True, text=True, timeout=600)
        again = "reproduced in a fresh process" if conf.returncode == 1 else f"fresh-process replay exit {conf.returncode}"
        lines += [f"VIOLATION property={pid} replay={path}",
                  f"  run {i} of VERIF_SEED={seed}: {w['kind']}: {w['msg']}{note}; {again}"]

    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "wall_s": round(wall, 2), "violations": sum(1 for _ in bad) - knownhits,
        "assumptions": getattr(mod, "ASSUME", []),
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(agg["nontrivial"]),
            "rule": mod.RULE,
            "samples": samples,
            "planned_runs": total,
            "runs_per_hour": int(agg["runs"] / max(wall, 1e-6) * 3600),
            "seeds": "one independent seed per run, derived from VERIF_SEED, the property and the run number",
            "simulated_time": {"unit": "logical steps (operations driven through the public API; the code under test reads no clock)",
                               "steps": agg["steps"]},
            "faults_injected": agg["faults"],
            "probes": agg["probes"],
            "distinct_states": len(agg["states"]),
            "state_measure": getattr(mod, "STATE", "distinct outcome records / operation histories"),
            "skipped_runs": agg["skipped"],
            "slow_runs": agg["hangs"],
            "determinism": {"rerun_in_other_process_and_order": same + diff, "identical_event_logs": same, "different": diff},
            "real_components": mod.REAL, "stubbed_components": mod.STUB,
            "workers": WORKERS, "harness_errors": len(harness), "known_findings_hit": knownhits,
        },
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1, default=str)
    for l in dict.fromkeys(lines):
        print(l)
    print(f"{pid}: {agg['runs']}/{total} runs, {agg['steps']} steps, {len(agg['states'])} states, "
          f"faults {sum(agg['faults'].values())}, skipped {agg['skipped']}, {wall:.1f} s, "
          f"determinism {same}/{same + diff}, probes {agg['probes']}")
    if not ok:
        return 1
    if harness:
        print(f"HARNESS ERROR in {pid}: {harness[0]}")
        return 2
    if agg["runs"] == 0:
        print(f"HARNESS ERROR in {pid}: nothing ran")
        return 2
    return 0
