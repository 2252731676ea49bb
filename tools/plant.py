"""Tries planted bugs in scratch copies of /repo.

plant.py SPECFILE [ID ...] [--checks] [--tests] [--keep]
  SPECFILE defines BUGS: a list of dicts with id, property, edits [(file, old, new)],
  demo (python text), needs, breaks, optional extra: [other properties to run].
Every bug: patch made and proved to change an original line, demo run on the clean and
the changed copy, checks run on the changed copy, stable tests run on the changed copy.
A bug whose demo works is written to /verif/seeded/<id>/ (results in /tmp/m/results.json).
"""
import json, os, subprocess, sys, shutil, time

BASE = "27c6960"
PY = "/opt/venv/bin/python"
ENV = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "OPENBLAS_NUM_THREADS": "1",
       "OMP_NUM_THREADS": "1", "MPLCONFIGDIR": "/opt/mplconfig"}
SH = '''#!/bin/bash
# run with cwd = the repository; 0 if the property holds
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd="/repo", env=ENV, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def original_lines(path):
    """1-based numbers of HEAD's lines that the base commit already had."""
    _, out = sh(["git", "blame", "-s", "HEAD", "--", path])
    return {i + 1 for i, l in enumerate(out.splitlines()) if l.startswith("^" + BASE)}


def removed_lines(copy, path):
    _, out = sh(["git", "diff", "-U0", "--", path], cwd=copy)
    rem = set()
    for l in out.splitlines():
        if l.startswith("@@"):
            a = l.split()[1][1:].split(",")
            s, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
            rem |= set(range(s, s + n))
    return rem


def stable_tests(copy):
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = set(base["stable"])
    xml = copy + "/.junit.xml"
    e = {**ENV, "PYTHONPATH": copy, "PYTHONHASHSEED": "0", "NUMBA_NUM_THREADS": "1"}
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--dist", "worksteal", "--timeout=600",
        "-o", "junit_family=xunit2", f"--junitxml={xml}"], cwd=copy, env=e, timeout=1500)
    import xml.etree.ElementTree as ET
    ok = set()
    for t in ET.parse(xml).getroot().iter("testcase"):
        if not any(c.tag in ("failure", "error", "skipped") for c in t):
            ok.add((t.get("classname"), t.get("name")))
    missing = sorted(names - {f"{c}::{n}" for c, n in ok})
    return missing, len(ok)


def one(b, opts):
    bid = b["id"]
    copy = f"/tmp/m/{bid}"
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", copy], check=True)
    r = {"id": bid, "property": b["property"]}
    hits = False
    for f, old, new in b["edits"]:
        s = open(f"{copy}/{f}").read()
        if s.count(old) != 1:
            return {**r, "error": f"{f}: old text occurs {s.count(old)} times"}
        open(f"{copy}/{f}", "w").write(s.replace(old, new))
    for f in {e[0] for e in b["edits"]}:
        hits |= bool(removed_lines(copy, f) & original_lines(f))
    r["original"] = hits
    _, patch = sh(["git", "diff"], cwd=copy)
    d = f"/tmp/m/{bid}.d"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write(SH)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    c, o1 = sh(["bash", d + "/demo.sh"])
    c2, o2 = sh(["bash", d + "/demo.sh"], cwd=copy)
    r["demo"] = [c, c2]
    if c or not c2:
        r["demo_out"] = [o1[-600:], o2[-600:]]
    if "--checks" in opts:
        r["checks"] = {}
        for p in [b["property"]] + b.get("extra", []):
            t = time.time()
            c, o = sh([PY, "-W", "ignore", "check.py", p], cwd=os.environ.get("VDIR", "/verif"),
                      env={**ENV, "DST_REPO": copy, "DST_EVIDENCE": f"/tmp/m/{bid}.ev", "VERIF_SEED": "1"})
            r["checks"][p] = [c, round(time.time() - t), [l for l in o.splitlines() if "VIOLATION" in l or "kind" in l][:3], o[-300:] if c not in (0, 1) else ""]
    if "--tests" in opts:
        miss, n = stable_tests(copy)
        r["tests"] = [len(miss), n, miss[:4]]
    good = hits and r["demo"][0] == 0 and r["demo"][1] != 0 and (("tests" not in r) or not r["tests"][0])
    if good and "tests" in r:
        dst = f"/verif/seeded/{bid}"
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs("/verif/seeded", exist_ok=True)
        shutil.copytree(d, dst)
    if "--keep" not in opts:
        shutil.rmtree(copy, ignore_errors=True)
    return r


def main():
    opts = [a for a in sys.argv[1:] if a.startswith("--")]
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    ns = {}
    exec(open(args[0]).read(), ns)
    path = os.environ.get("RESULTS", "/tmp/m/results.json")
    for b in ns["BUGS"]:
        if args[1:] and b["id"] not in args[1:]:
            continue
        r = one(b, opts)
        print(json.dumps(r), flush=True)
        res = json.load(open(path)) if os.path.exists(path) else {}
        res[b["id"]] = {**res.get(b["id"], {}), **r}
        json.dump(res, open(path, "w"), indent=1)


main()
