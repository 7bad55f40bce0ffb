"""C07: smoothers forget a sensor fault."""
import numpy as np

from .. import probe
from . import bench, common

ID = "C07"
RUNS = {"quick": 9000, "thorough": 150000}
RULE = ("Each run gives one to three processors records from a simulated velocimeter, each once as the undisturbed flow and "
        "once with a schedule of sensor faults (huge values, NaN, infinity, stuck, dropout, bursts; any position and "
        "number), and smooths both under preemption. Outputs whose window holds no faulty sample must agree, and equal the "
        "window's mean; the disturbance left in a recursive filter must decay by exactly the factor the filter's "
        "parameters give. Non-trivial: a sensor fault was injected or a preemption took place.")
MEASURE = "SHA-256 over records' results, preemption points and fired faults"
COMPONENTS = common.COMPONENTS
ASSUMPTIONS = ["floating-point records (integer records are truncated by exponential smoothing, as its documentation shows)",
               "agreement is judged to 1e-9 of the magnitude of the samples in the window"]

FAULTS = ("spike", "burst", "drop", "stuck", "set", "nan", "inf")
FINITE = ("spike", "burst", "drop", "stuck", "set")


def gen_job(rng, c):
    op = rng.choice(("ma", "ma", "wma", "ema", "kalman"))
    nmax = 60 if op == "kalman" else 260
    n = rng.choice((rng.randrange(3, 12), rng.randrange(8, 60), rng.randrange(20, nmax)))
    if rng.random() < 0.06:
        n = rng.randrange(nmax, 700 if op == "kalman" else 2600)
    rec = probe.spec(rng, n)
    kinds = FAULTS if op in ("ma", "wma") else FINITE
    faults = []
    while not faults:
        faults = probe.faults(rng, n, kinds=kinds, most=3)
    if rng.random() < 0.2:
        faults.append(["set", rng.randrange(n), rng.choice((1, 2)), rng.choice((1e12, -1e18, 1e30, 1e-30))])
    j = {"c": c, "op": op, "rec": rec, "faults": faults, "lay": rng.choice(probe.LAYOUTS), "hit": bench.hit(rng)}
    if op in ("ma", "wma"):
        j["w"] = rng.choice((1, 2, 3, 5, 8, 20, rng.randrange(1, n + 1), n // 2, n - 1, n))
        j["w"] = max(1, min(j["w"], n))
    elif op == "ema":
        j["alpha"] = rng.choice((0.2, 0.5, 0.05, 1.0, 0.002, round(rng.uniform(0.02, 0.99), 3)))
    else:
        j.update(s=round(rng.uniform(-3, 3), 2), p=rng.choice((1.0, 0.1, 10.0, 100.0)), q=rng.choice((1e-3, 0.1, 0.5, 1e-6, 0.0, 20.0)),
                 r=rng.choice((0.1, 1.0, 4.0, 0.01, 100.0)))
    return j


def gen(rng, i, tier):
    nc = rng.choice((1, 1, 2, 3))
    jobs = [gen_job(rng, c) for c in range(nc) for _ in range(rng.choice((1, 2)))]
    return {"sched": bench.sched(rng, nc), "jobs": jobs}


def args(j, x):
    if j["op"] in ("ma", "wma"):
        return [x, j["w"]]
    if j["op"] == "ema":
        return [x, j["alpha"]]
    return [x] + [np.array([[j[k]]]) for k in "spqr"]


def gains(j, n):
    """Kalman gain per sample, from the model alone."""
    p, out = j["p"], []
    for _ in range(n):
        p = p + j["q"]
        k = p / (p + j["r"])
        out.append(k)
        p = (1 - k) * p
    return np.array(out)


def job(b, cl, j):
    clean = probe.record(j["rec"])
    faulty = probe.record(dict(j["rec"], faults=j["faults"]))
    bad = ~((faulty == clean) | (np.isnan(faulty) & np.isnan(clean)))
    for f in j["faults"]:
        b.fault("sensor " + f[0])
    n, op = clean.size, j["op"]
    what = f"({ {k: j[k] for k in ('w', 'alpha', 's', 'p', 'q', 'r') if k in j} }, n={n})"
    y0 = b.value(cl, op, args(j, probe.layout(clean, j["lay"])[0]), what=what)
    y1 = b.value(cl, op, args(j, probe.layout(faulty, j["lay"])[0]), hit=j.get("hit"), what=what)
    y0, y1 = np.asarray(y0, dtype=float).reshape(-1), np.asarray(y1, dtype=float).reshape(-1)
    want = n - j["w"] if op == "wma" else n
    if y0.size != want or y1.size != want:
        b.fail("length", f"{op}{what} returned {y1.size} values, expected {want}", op=op)
    if op in ("ma", "wma"):
        w, scale = j["w"], np.abs(clean).max()
        for k in range(want):
            lo, hi = (max(0, k - w + 1), k + 1) if op == "ma" else (k, k + w)
            win = clean[lo:hi]
            tol = 1e-9 * np.abs(win).max() + 1e-11 * scale
            mean = win.mean() if op == "ma" else (win * np.arange(1, w + 1)).sum() / (w * (w + 1) / 2)
            if not abs(y0[k] - mean) <= tol:
                b.fail("not-window-mean", f"{op}{what}: output {k} is {y0[k]!r}, the mean of its window is {mean!r}", op=op)
            if bad[lo:hi].any():
                fw = faulty[lo:hi]
                if np.isnan(fw).any() and not np.isnan(y1[k]) or np.isinf(fw).any() and np.isfinite(y1[k]):
                    b.fail("not-window-mean", f"{op}{what}: output {k} is {y1[k]!r}, but its window contains {fw[~np.isfinite(fw)][0]}", op=op)
                if np.isfinite(fw).all() and np.abs(fw).max() < 1e100:
                    m = fw.mean() if op == "ma" else (fw * np.arange(1, w + 1)).sum() / (w * (w + 1) / 2)
                    if not abs(y1[k] - m) <= 1e-9 * np.abs(fw).max() + 1e-11 * scale:
                        b.fail("not-window-mean", f"{op}{what}: output {k} is {y1[k]!r}, the mean of its window is {m!r}", op=op)
                continue
            if bad[:lo].any():
                b.probe("window past a fault")
            if not abs(y1[k] - y0[k]) <= tol:
                b.fail("fault-remembered", f"{op}{what}: output {k} is {y1[k]!r} after a fault that left its window; without "
                       f"the fault it is {y0[k]!r}", op=op)
        return
    keep = 1 - (np.full(n, j["alpha"]) if op == "ema" else gains(j, n))
    d = y1 - y0
    seen = False
    for k in range(n):
        if bad[k]:
            seen = True
            continue
        prev = d[k - 1] if k else 0.0
        scale = abs(y1[k]) + abs(y0[k]) + (abs(y1[k - 1]) + abs(y0[k - 1]) if k else 0) + abs(clean[k])
        if seen:
            b.probe("filter after a fault")
        if not abs(d[k] - keep[k] * prev) <= 1e-9 * scale:
            b.fail("fault-remembered", f"{op}{what}: the disturbance {prev!r} before sample {k} became {d[k]!r}; the filter's "
                   f"parameters give {keep[k] * prev!r}", op=op)


def run(sc):
    return bench.Bench(sc, job).run()


def shrink_job(j):
    for i in range(len(j["faults"])):
        if len(j["faults"]) > 1:
            yield dict(j, faults=j["faults"][:i] + j["faults"][i + 1:])
    if j["lay"] != "c":
        yield dict(j, lay="c")
    n = j["rec"]["n"]
    for m in (n // 2, n - 1):
        if m >= 3 and any(f[1] < m for f in j["faults"]):
            k = dict(j, rec=dict(j["rec"], n=m), faults=[f for f in j["faults"] if f[1] < m])
            if "w" in k:
                k["w"] = min(k["w"], m)
            yield k
    if j.get("w", 1) > 1:
        yield dict(j, w=j["w"] - 1)


def shrink(sc):
    return bench.shrink_jobs(sc, shrink_job)
