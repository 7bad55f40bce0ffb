"""The simulator's own guarantee: one seed is one execution.

For every property a sample of runs is executed three times - twice in this process tree, and once in a fresh interpreter
with another hash seed - and the event logs (a hash over every yield point, switch, fault and result) must agree.
    python -m advsim selftest [--runs N] [--seed S]
"""
import json
import os
import subprocess
import sys

PROPS = [f"C{i:02d}" for i in range(1, 16)]


def logs(pid, seed, n):
    from . import engine
    prop = engine.load_prop(pid)
    out = []
    for i in range(n):
        sc = engine.generate(prop, seed, i, "quick")
        r = engine.execute(prop, sc)
        out.append([r["log"], r["sig"], r["violation"] and r["violation"]["kind"], r["events"]])
    return out


def main(a):
    from . import engine
    n = a.runs or 12
    seed = a.seed if a.seed is not None else 1
    if a.arg:                                          # the child: print the logs of one property
        engine.zygote()
        print(json.dumps(logs(a.arg, seed, n)))
        return 0
    engine.zygote()
    bad = 0
    for pid in PROPS:
        one, two = logs(pid, seed, n), logs(pid, seed, n)
        env = dict(os.environ, PYTHONHASHSEED="4711")
        p = subprocess.run([sys.executable, "-m", "advsim", "selftest", pid, "--runs", str(n), "--seed", str(seed)], env=env,
                           capture_output=True, text=True)
        three = json.loads(p.stdout.splitlines()[-1]) if p.returncode == 0 else p.stderr[-500:]
        ok = one == two == three
        bad += not ok
        print(f"{pid}: {n} runs, {sum(r[3] for r in one)} yield points, "
              + ("identical in three executions" if ok else "DIFFERENT EXECUTIONS FROM ONE SEED"), flush=True)
        if not ok:
            for i in range(n):
                if not (one[i] == two[i] == (three[i] if isinstance(three, list) else None)):
                    print("   run", i, one[i], two[i], three[i] if isinstance(three, list) else three)
    return 1 if bad else 0
