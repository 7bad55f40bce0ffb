"""python -m advsim check C01 [--runs N] [--wall S] [--workers W] | replay FILE | selftest"""
import argparse
import os
import sys


def main():
    want = {"OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1",
            "MPLBACKEND": "Agg"}
    if "PYTHONHASHSEED" not in os.environ:
        want["PYTHONHASHSEED"] = "0"
    if any(os.environ.get(k) != v for k, v in want.items()):
        os.environ.update(want)
        os.execv(sys.executable, [sys.executable, "-m", "advsim"] + sys.argv[1:])
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=("check", "replay", "selftest"))
    ap.add_argument("arg", nargs="?")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--tier")
    ap.add_argument("--seed", type=int)
    a = ap.parse_args()
    from . import engine
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if a.cmd == "check":
        return engine.check(a.arg, tier, seed, a.runs, a.wall, a.workers)
    if a.cmd == "replay":
        return engine.replay(a.arg)
    from . import selftest
    return selftest.main(a)


sys.exit(main())
