"""check.py <ID> [--tier quick|thorough] [--replay FILE] [--n RUNS] | --selftest"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    a = sys.argv[1:]
    opt = lambda k, d=None: a[a.index(k) + 1] if k in a else d
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    hs = os.environ.get("DST_HASHSEED") or str(seed % 4294967295)
    if os.environ.get("PYTHONHASHSEED") != hs:
        os.environ["PYTHONHASHSEED"] = hs
        os.execv(sys.executable, [sys.executable, os.path.abspath(__file__)] + a)
    os.chdir(HERE)
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    from dst import env  # noqa: F401
    if "--selftest" in a:
        from dst import selftest
        return selftest.main()
    from dst import runner
    pid = a[0]
    if "--replay" in a:
        return runner.replay(pid, opt("--replay"))
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    n = opt("--n")
    return runner.check(pid, tier, seed, int(n) if n else None)


sys.exit(main())
