"""Seeded search over simulated runs: worker pool, minimisation, replay files, evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pickle
import random
import select
import subprocess
import sys
import time

from .env import OUT, REPO, VERIF

LEVEL = "exploration"


def load_prop(pid):
    return importlib.import_module(f"advsim.props.{pid.lower()}")


def zygote():
    """Import everything heavy, and one instance of the package that nobody has called yet."""
    import numpy                                   # noqa: F401
    import scipy.stats, scipy.signal, scipy.interpolate, scipy.optimize   # noqa: F401,E401
    import sklearn.linear_model, sklearn.preprocessing                    # noqa: F401,E401
    from . import lib, session, ops                # noqa: F401
    lib.install()
    lib.fresh()
    ops.prune()
    _warm_third_party()
    import random as r
    r.seed(20240229)
    numpy.random.seed(20240229)                    # what an unseeded caller would find: fixed, so that runs repeat
    import gc
    gc.collect()
    gc.freeze()


def _warm_third_party():
    """Let numpy, scipy and sklearn do their own lazy imports and caches before anything is observed.
    No package code runs here."""
    import numpy as np
    import warnings
    from scipy.interpolate import interp1d
    from scipy.signal import welch
    from scipy.stats import gaussian_kde
    from sklearn.linear_model import LinearRegression
    from sklearn.preprocessing import PolynomialFeatures
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        x = np.linspace(0, 1, 30) ** 2
        interp1d(np.arange(30), x, 3)(2.5)
        welch(x, 1.0, window=np.ones(8), noverlap=2, nfft=8)
        gaussian_kde(np.vstack([x, np.sin(9 * x)]))(np.zeros((2, 3)))
        p = PolynomialFeatures(degree=2).fit_transform(x.reshape(-1, 1))
        LinearRegression().fit(p, x).predict(p[:1])
        np.linalg.eigh(np.eye(3))
        np.fft.fft(x)
        str(x)


def scenario_rng(pid, seed, i):
    return random.Random(int.from_bytes(hashlib.sha256(f"{pid}/{seed}/{i}".encode()).digest()[:8], "big"))


def generate(prop, seed, i, tier):
    sc = prop.gen(scenario_rng(prop.ID, seed, i), i, tier)
    sc["prop"], sc["origin"] = prop.ID, {"seed": seed, "run": i}
    return json.loads(json.dumps(sc))


def execute(prop, sc):
    """One simulated run, in its own process."""
    from . import session
    res = session.in_fork(lambda: prop.run(sc))
    if res is None:
        return {"violation": {"kind": "hang", "detail": "no answer and no yield point for 150 s"}, "log": "-", "sig": "-",
                "sim_s": 0.0, "events": 0, "faults": {}, "nontrivial": True}
    return res


# ------------------------------------------------------------------------------------------- the worker pool

def _worker(prop, seed, tier, w, nworkers, runs, deadline, conn, stop):
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    agg = {"runs": 0, "events": 0, "switches": 0, "calls": 0, "sim_s": 0.0, "faults": {}, "probes": {}, "sigs": set(),
           "nontrivial": 0, "samples": [], "ops": {}, "known": {}}
    try:
        for i in range(w, runs, nworkers):
            if time.monotonic() > deadline:
                break
            if stop.is_set():
                break
            sc = generate(prop, seed, i, tier)
            res = execute(prop, sc)
            agg["runs"] += 1
            for k in ("events", "switches", "calls", "sim_s"):
                agg[k] += res.get(k, 0)
            for name in ("faults", "probes"):
                for k, v in res.get(name, {}).items():
                    agg[name][k] = agg[name].get(k, 0) + v
            for o in res.get("ops", ()):
                agg["ops"][o] = agg["ops"].get(o, 0) + 1
            if res.get("nontrivial", True):
                agg["nontrivial"] += 1
                agg["sigs"].add(res["sig"][:16])
            if len(agg["samples"]) < 1 and res.get("nontrivial", True) and i >= nworkers:
                agg["samples"].append({"run": i, "scenario": sc, "trace": res.get("trace", [])[:12]})
            for kf in res.get("known", ()):
                agg["known"][kf] = agg["known"].get(kf, 0) + 1
            if res["violation"] is not None:
                conn.send(("violation", i, sc, res))
                break
        conn.send(("done", agg))
    except BaseException as e:
        import traceback
        conn.send(("error", "".join(traceback.format_exception(e))[-4000:]))
    conn.close()


def search(prop, seed, tier, runs, wall, workers):
    deadline = time.monotonic() + wall
    ctx = mp.get_context("fork")
    procs = []
    stop = ctx.Event()
    for w in range(workers):
        a, b = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_worker, args=(prop, seed, tier, w, workers, runs, deadline, b, stop), daemon=False)
        p.start()
        b.close()
        procs.append((p, a))
    aggs, found, errors = [], [], []
    open_ = {a: p for p, a in procs}
    stopped = False
    while open_:
        for a in mp.connection.wait(list(open_), timeout=5):
            try:
                m = a.recv()
            except EOFError:
                open_.pop(a)
                continue
            if m[0] == "done":
                aggs.append(m[1])
            elif m[0] == "violation":
                found.append(m[1:])
            else:
                errors.append(m[1])
        if (found or errors) and not stopped:
            stopped = True
            stop.set()
    for p, _ in procs:
        p.join()
    return aggs, sorted(found, key=lambda f: f[0]), errors


# ------------------------------------------------------------------------------------------- minimisation

def _drop_switches(sc):
    sw = sc["sched"].get("switches", [])
    n = len(sw)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            c = dict(sc)
            c["sched"] = dict(sc["sched"], switches=sw[:i] + sw[i + size:])
            yield c
        size //= 2
    if n == 0 and sc["sched"].get("forced"):
        c = dict(sc)
        c["sched"] = dict(sc["sched"], forced=[])
        yield c


def minimise(prop, sc, res, wall=60.0, attempts=300):
    """Greedy: any smaller scenario that fails in the same way replaces the current one."""
    end = time.monotonic() + wall
    kind = res["violation"]["kind"]
    tries = 0

    def fails(c):
        nonlocal tries
        tries += 1
        try:
            r = execute(prop, c)
        except Exception:
            return None
        v = r["violation"]
        return r if v is not None and v["kind"] == kind else None

    def variants(c):
        s = c.get("sched")
        if s is None:
            yield c
            return
        yield dict(c, sched={"mode": "serial"})
        if s["mode"] != "serial":
            yield c
            if s["mode"] == "walk":
                for k in range(2):
                    yield dict(c, sched=dict(s, seed=s.get("seed", 0) + 1 + k))

    better = True
    while better and time.monotonic() < end and tries < attempts:
        better = False
        for cand in prop.shrink(sc):
            if time.monotonic() > end or tries > attempts:
                break
            for v in variants(cand):
                r = fails(v)
                if r is not None:
                    sc, res, better = v, r, True
                    break
            if better:
                break
    if sc.get("sched") and sc["sched"]["mode"] not in ("serial", "explicit") and res.get("schedule"):
        c = dict(sc, sched={k: v for k, v in res["schedule"].items() if k != "gran"})
        r = fails(c)
        if r is not None:
            sc, res = c, r
            better = True
            while better and time.monotonic() < end + 20 and tries < attempts + 200:
                better = False
                for cand in _drop_switches(sc):
                    r = fails(cand)
                    if r is not None:
                        sc, res, better = cand, r, True
                        break
                    if time.monotonic() > end + 20:
                        break
    return sc, res, tries


def write_replay(prop, sc, res, original):
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, f"{prop.ID}-{sc['origin']['seed']}-{sc['origin']['run']}.json")
    with open(path, "w") as fh:
        json.dump({"property": prop.ID, "scenario": sc, "violation": res["violation"], "log": res["log"],
                   "trace": res.get("trace", []), "history": res.get("history", []),
                   "found_as": {"seed": sc["origin"]["seed"], "run": sc["origin"]["run"]},
                   "original_scenario": original,
                   "replay": f"{sys.executable} -m advsim replay {path}"}, fh, indent=1)
    return path


def replay(path, quiet=False):
    with open(path) as fh:
        doc = json.load(fh)
    zygote()
    prop = load_prop(doc["property"])
    res = execute(prop, doc["scenario"])
    v = res["violation"]
    if not quiet:
        for line in res.get("trace", [])[-40:]:
            print("  ", line)
        print("violation:", json.dumps(v))
        print("recorded: ", json.dumps(doc["violation"]))
        print("event log", "identical" if res["log"] == doc["log"] else "DIFFERS", res["log"][:16])
    if v is None:
        return 0
    print(f"VIOLATION property={doc['property']} replay={path}")
    return 1


# ------------------------------------------------------------------------------------------- the check

def merge(aggs):
    out = {"runs": 0, "events": 0, "switches": 0, "calls": 0, "sim_s": 0.0, "faults": {}, "probes": {}, "sigs": set(),
           "nontrivial": 0, "samples": [], "ops": {}, "known": {}}
    for a in aggs:
        for k in ("runs", "events", "switches", "calls", "sim_s", "nontrivial"):
            out[k] += a[k]
        for k in ("faults", "probes", "ops", "known"):
            for x, v in a[k].items():
                out[k][x] = out[k].get(x, 0) + v
        out["sigs"] |= a["sigs"]
        out["samples"] += a["samples"]
    return out


def known_findings():
    """{finding id: text} of the open findings listed in known_findings.txt."""
    out = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as fh:
        for line in fh:
            if line.startswith("open:"):
                words = line.split(None, 3)
                out[words[2].split("=", 1)[1]] = (words[1].split("=", 1)[1], words[3].strip())
    return out


def check(pid, tier, seed, runs=None, wall=None, workers=None):
    t0 = time.monotonic()
    prop = load_prop(pid)
    zygote()
    runs = runs or prop.RUNS[tier]
    wall = wall or {"quick": 270, "thorough": 780}[tier]
    workers = workers or min(8, os.cpu_count() or 2)
    print(f"{pid} tier={tier} VERIF_SEED={seed} runs<={runs} workers={workers} repo={REPO}", flush=True)
    aggs, found, errors = search(prop, seed, tier, runs, wall, workers)
    agg = merge(aggs)
    took = time.monotonic() - t0
    status, path = 0, None
    if errors and not found:
        print("HARNESS ERROR\n" + errors[0])
        return 2
    if found:
        i, sc, res = found[0]
        print(f"run {i}: {res['violation']['kind']}: {res['violation']['detail']}", flush=True)
        msc, mres, tries = minimise(prop, sc, res)
        path = write_replay(prop, msc, mres, sc)
        print(f"minimised in {tries} attempts: {json.dumps(msc)[:1500]}")
        print(f"{mres['violation']['kind']}: {mres['violation']['detail']}")
        again = subprocess.run([sys.executable, "-m", "advsim", "replay", path], cwd=VERIF, capture_output=True, text=True)
        ok = again.returncode == 1 and "event log identical" in again.stdout
        print("replay in a fresh process:", "reproduced exactly" if ok else
              ("reproduced" if again.returncode == 1 else "NOT reproduced\n" + again.stdout[-800:] + again.stderr[-800:]))
        status = 1
    open_findings = known_findings()
    for kf, cnt in sorted(agg["known"].items()):
        p, text = open_findings[kf]
        print(f"KNOWN-FINDING: property={p} {text} [{cnt} runs]")
    wall_s = time.monotonic() - t0
    cov = {"evaluations": agg["runs"], "distinct_nontrivial": len(agg["sigs"]), "rule": prop.RULE,
           "samples": agg["samples"][:3], "nontrivial_runs": agg["nontrivial"],
           "library_calls": agg["calls"], "yield_points": agg["events"], "preemptions": agg["switches"],
           "simulated_seconds": round(agg["sim_s"], 3), "runs_per_hour": int(agg["runs"] / max(took, 1e-9) * 3600),
           "faults_injected": dict(sorted(agg["faults"].items())), "reach_probes": dict(sorted(agg["probes"].items())),
           "operations": dict(sorted(agg["ops"].items())), "known_findings_seen": agg["known"],
           "distinct_measure": prop.MEASURE, "components": prop.COMPONENTS, "workers": workers}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": LEVEL, "coverage": cov, "assumptions": prop.ASSUMPTIONS,
          "wall_s": round(wall_s, 2), "violations": len(found)}
    if REPO == "/repo":
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
    print(f"{agg['runs']} runs, {len(agg['sigs'])} distinct non-trivial, {agg['calls']} calls, {agg['events']} yield points, "
          f"{agg['switches']} preemptions, faults {cov['faults_injected']}, {wall_s:.1f} s")
    if status:
        print(f"VIOLATION property={pid} replay={path}", flush=True)
    return status
