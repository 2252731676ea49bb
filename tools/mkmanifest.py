"""Writes MANIFEST.json from the list of implemented checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {}
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    props[d["id"]] = d
impl = sorted(f[:-3].upper() for f in os.listdir(os.path.join(V, "dst", "props")) if f.startswith("c") and f.endswith(".py"))
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
NA = {
 "N01": "pure function of (cost, point): no schedule, entropy, fault or history; an exactness question about formulas",
 "N02": "pure algebra on immutable binary matrices: no nondeterminism or fault to simulate",
 "N03": "pure decision function of two graphs: no nondeterminism or fault to simulate",
 "N04": "pure linear algebra on one circuit's generators; its only nondeterminism (iteration order) is covered by C13",
 "N05": "pure functions of their arguments; the random generators among them are covered by C12",
 "N06": "pure constructors; executing compositions and templates is covered by C04, C07 and C14",
 "N07": "pure enumeration without entropy, schedule or fault",
 "N09": "drawing output has no observable semantics besides not modifying the circuit, which C09 covers",
}
checks = []
for p in impl:
    n = NOTES.get(p, {})
    checks.append({
        "property": p,
        "quick_cmd": f"/opt/venv/bin/python check.py {p}",
        "thorough_cmd": f"/opt/venv/bin/python check.py {p} --tier thorough",
        "technique": n.get("technique", "deterministic simulation with fault injection: seeded search over simulated runs"),
        "level": n.get("level", "exploration"),
        "level_note": n.get("note", "seeded random simulated runs against an independent reference; a clean batch is evidence, not proof"),
    })
na = [{"property": p, "reason": NA.get(p, "machinery under construction")} for p in sorted(props) if p not in impl]
json.dump({"version": 1,
           "setup_cmd": "/opt/venv/bin/python check.py --selftest",
           "hooks": {"guard": "none", "enable": "no hooks are needed: every seam is reached from outside (numpy/random module functions, sys.settrace, object protocols, thread parking)", "source_commits": []},
           "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print("claimed", impl)
