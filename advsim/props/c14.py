"""C14: work divided among workers gives what one worker would give."""
import math

import numpy as np

from .. import probe
from . import bench, common

ID = "C14"
RUNS = {"quick": 26000, "thorough": 200000}
RULE = ("Each run divides one or two tasks among one to four workers: the values of a normal-distribution function are cut into "
        "shards of any size and shape, and the spectrum of a record is cut into its blocks. A dispatcher hands shards out in any "
        "order; workers are preempted, interrupted, or die with the shard in hand, which is then given to another worker; some "
        "shards are computed twice. The answers put together must be those of one call on everything, and equal the definition "
        "(extended precision); a NaN among the values is refused by the one worker that has it, an empty shard by whoever gets it. "
        "Non-trivial: a fault was injected or a preemption took place.")
MEASURE = "SHA-256 over shards' results, preemption points and fired faults"
COMPONENTS = dict(common.COMPONENTS, simulated=common.COMPONENTS["simulated"] + ["dispatcher and workers"])
ASSUMPTIONS = ["distribution functions agree to 1e-11 (relative for cdf and pdf, absolute for sf); logarithms are compared where the "
               "plain value is above 1e-9", "spectra agree to 1e-9 of their largest value"]

DIST = ("cdf", "sf", "log_cdf", "log_sf", "pdf", "log_pdf")


def values(rng, n):
    """How the values are drawn: [kind, seed] and single values put in."""
    return {"n": n, "seed": rng.randrange(1 << 30), "kind": rng.choice(("normal", "wide", "edge", "int", "same")),
            "put": [[rng.randrange(n), rng.choice(("nan", "inf", "-inf", 0.0, -0.0, 1.0, -1.0, 8.5, -8.5, 37.0, -37.0, 40.0))]
                    for _ in range(rng.choice((0, 0, 1, 3)))]}


def vector(v):
    g = probe.rng_for(v["seed"])
    n = v["n"]
    if v["kind"] == "normal":
        x = g.standard_normal(n)
    elif v["kind"] == "wide":
        x = g.uniform(-12, 12, n)
    elif v["kind"] == "edge":                            # around the switch of formula at one standard deviation
        x = np.where(g.random(n) < 0.5, 1.0, -1.0) * (1 + g.standard_normal(n) * 10.0 ** -g.integers(1, 16, n))
    elif v["kind"] == "int":
        x = g.integers(-6, 7, n).astype(float)
    else:
        x = np.full(n, float(g.standard_normal()))
    if "scale" in v:
        x = v["scale"][0] * x + v["scale"][1]
    for i, w in v["put"]:
        if i < n:
            x[i] = float(w)
    return x


def cuts(rng, n):
    """Shard boundaries; now and then an empty shard."""
    out = sorted(rng.randrange(0, n + 1) for _ in range(rng.choice((0, 1, 2, 3, 6))))
    if rng.random() < 0.9:
        out = sorted(set(out) - {0, n})
    return out


def gen_task(rng):
    if rng.random() < 0.7:
        n = rng.choice((rng.randrange(1, 8), rng.randrange(4, 40), rng.randrange(20, 160)))
        if rng.random() < 0.03:
            n = rng.randrange(200, 3000)
        t = {"op": rng.choice(DIST), "x": values(rng, n), "cuts": cuts(rng, n),
             "shape": rng.choice(("1d", "1d", "1d", "2d", "fortran", "turned", "3d", "column", "stride", "ro", "list", "int", "0d"))}
        if t["op"].endswith("pdf"):
            t.update(std=rng.choice((1, 1, 2.5, 0.1, 1e-4, 1e-12, 1e8)), mean=rng.choice((0, 0, 1.5, -40)))
            if t["std"] not in (1, 2.5) and t["shape"] != "int":  # values where the density is not zero
                t["x"]["scale"] = [t["std"], t["mean"]]
        k = len(t["cuts"]) + 1
    else:
        block = rng.choice((4, 5, 8, 16, 31, 64)) if rng.random() < 0.97 else 2048
        ov = rng.choice((0, 0, 1, block // 2, block - 1, rng.randrange(block))) if block < 2048 else rng.choice((50, 50, 1024))
        nseg = rng.choice((1, 2, 3, 5, 9)) if block < 2048 else rng.choice((1, 2))
        n = block + (nseg - 1) * (block - ov) + rng.randrange(0, block - ov)
        rec = probe.spec(rng, n)
        rec["faults"] = probe.faults(rng, n) if rng.random() < 0.6 else []
        t = {"op": "spectrum", "rec": rec, "block": block, "ov": ov, "fs": rng.choice((1.0, 25.0, 100.0, 64)), "one": rng.random() < 0.7,
             "lay": rng.choice(probe.LAYOUTS + ("int",))}
        k = nseg
        if rng.random() < 0.05:
            t["short"] = True                            # the link broke before one block was complete
    t["k"] = k
    return t


def gen(rng, i, tier):
    nc = rng.choice((1, 2, 3, 4))
    tasks = [gen_task(rng) for _ in range(rng.choice((1, 1, 2)))]
    jobs = []
    for ti, t in enumerate(tasks):
        for s in list(range(t["k"])) + ["all"]:
            while True:
                r = rng.random()
                fate = "dies" if r < 0.12 else "twice" if r < 0.2 and s != "all" else "ok"
                jobs.append({"c": rng.randrange(nc), "t": ti, "s": s, "fate": fate, "hit": bench.hit(rng, 0.1)})
                if fate == "ok":
                    break
    rng.shuffle(jobs)
    return {"sched": bench.sched(rng, nc), "tasks": tasks, "jobs": jobs}


def true_cdf(x):
    return np.array([0.5 * math.erfc(-v / math.sqrt(2)) for v in x])


def true_sf(x):
    return np.array([0.5 * math.erfc(v / math.sqrt(2)) for v in x])


def expected(t, x):
    """(value, tolerance) per element; infinite tolerance where the answer is left open."""
    op = t["op"]
    with np.errstate(all="ignore"):
        if op == "cdf":
            y = true_cdf(x)
            return y, 1e-11 * y + 1e-300
        if op == "sf":
            y = true_sf(x)
            return y, np.full(x.size, 1e-14)
        if op in ("log_cdf", "log_sf"):
            p = true_cdf(x) if op == "log_cdf" else true_sf(x)
            y = np.log(p)
            return y, np.where(p > 1e-9, 1e-11 * np.abs(y) + 1e-14 / np.maximum(p, 1e-9), np.inf)
        z = (x - t["mean"]) / t["std"]
        ly = -0.5 * z * z - 0.5 * math.log(2 * math.pi) - math.log(t["std"])
        y = np.exp(ly)
        if op == "pdf":
            return y, 1e-11 * y + 1e-300
        return ly, np.where(y > 1e-9, 1e-11 * np.abs(ly) + 1e-11, np.inf)


def shape(t, x):
    how = t["shape"]
    if how == "2d" and x.size % 2 == 0:
        return x.reshape(2, -1)
    if how == "fortran" and x.size % 2 == 0:
        return np.asfortranarray(x.reshape(2, -1))
    if how == "turned" and x.size % 3 == 0:
        return x.reshape(-1, 3).T.copy().T
    if how == "3d" and x.size % 4 == 0:
        return x.reshape(2, -1, 2)
    if how == "column":
        return x.reshape(-1, 1)
    if how == "stride":
        return probe.layout(x, "stride")[0]
    if how == "ro":
        return probe.layout(x, "ro")[0]
    if how == "list":
        return x.tolist()
    if how == "0d" and x.size == 1:
        return float(x[0])
    if how == "int" and np.isfinite(x).all() and (x == np.floor(x)).all():
        return x.astype((np.int64, np.int32, np.int8)[x.size % 3] if x.size and np.abs(x).max() < 100 else np.int64)
    return x.copy()


def dist_args(t, x):
    return [shape(t, x)] + ([t["std"], t["mean"]] if t["op"].endswith("pdf") else [])


def dist_shard(b, cl, t, x, what, hit=None):
    op = t["op"]
    nan = bool(np.isnan(x).any())
    if x.size == 0 or nan:
        res = b.call(cl, op, dist_args(t, x), hit=hit)
        want = "ValueError" if x.size == 0 else "TypeError"
        if res[0] != "err" or res[1] != want:
            b.fail("not-refused", f"{op}{what}: {'no values' if x.size == 0 else 'NaN among the values'}: {res[0]}, {res[1]!r} "
                   f"instead of {want}", op=op)
        b.probe("empty shard refused" if x.size == 0 else "NaN refused")
        return None
    arg = dist_args(t, x)
    y = b.value(cl, op, arg, hit=hit, what=what)
    want_shape = np.shape(arg[0])
    y = np.asarray(y, dtype=float)
    if y.shape != want_shape:
        b.fail("shape", f"{op}{what}: shape {y.shape} for values of shape {want_shape}", op=op)
    return y.reshape(-1)


def compare(b, t, x, y, what):
    want, tol = expected(t, x)
    with np.errstate(invalid="ignore"):
        ok = (np.abs(y - want) <= tol) | (y == want)
    ok |= np.isinf(tol) & ~np.isnan(y)
    if not ok.all():
        i = int(np.where(~ok)[0][0])
        b.fail("not-definition", f"{t['op']}{what}: value {y[i]!r} for {x[i]!r}, by definition {want[i]!r}", op=t["op"])


def part(t, x, s):
    """Bounds of a shard."""
    if s == "all":
        return 0, x.size
    if t["op"] == "spectrum":
        step = t["block"] - t["ov"]
        return s * step, s * step + t["block"]
    edges = [0] + t["cuts"] + [x.size]
    return edges[s], edges[s + 1]


def dist(b, cl, t, j):
    x = vector(t["x"])
    lo, hi = part(t, x, j["s"])
    what = f"({ {k: t[k] for k in ('std', 'mean') if k in t} }, values {lo} to {hi} of {x.size}, {t['shape']})"
    y = dist_shard(b, cl, t, x[lo:hi], what, hit=j.get("hit"))
    if y is not None:
        compare(b, t, x[lo:hi], y, what)
    return y


def dist_assemble(b, t, parts):
    x = vector(t["x"])
    whole = parts["all"]
    if whole is None or any(parts[s] is None and part(t, x, s)[0] < part(t, x, s)[1] for s in range(t["k"])):
        return
    out = np.concatenate([parts[s] for s in range(t["k"]) if parts[s] is not None])
    tol = expected(t, x)[1]
    with np.errstate(invalid="ignore"):
        ok = (np.abs(out - whole) <= np.where(np.isinf(tol), 1e-9 * np.abs(whole), tol)) | (out == whole)
    if not ok.all():
        i = int(np.where(~ok)[0][0])
        b.fail("division-matters", f"{t['op']}: value {out[i]!r} for {x[i]!r} from its shard, {whole[i]!r} from one call", op=t["op"])
    if t["k"] > 1:
        b.probe("values divided")


def welch(x, t):
    """Averaged modified periodogram, from its definition."""
    m, step = t["block"], t["block"] - t["ov"]
    w = 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(m) / (m - 1))
    acc, k = 0.0, 0
    for i in range(0, x.size - m + 1, step):
        seg = x[i:i + m]
        acc = acc + np.abs(np.fft.fft(w * (seg - seg.mean()))) ** 2
        k += 1
    p = acc / k / (t["fs"] * (w * w).sum())
    f = np.fft.fftfreq(m, 1.0 / t["fs"])
    if not t["one"]:
        return f, p
    h = m // 2 + 1
    p = p[:h].copy()
    p[1:(h - 1 if m % 2 == 0 else h)] *= 2
    return np.abs(f[:h]), p


def tol_of(t, x, pr):
    return 1e-9 * pr.max() + 1e-13 * np.abs(x).max() ** 2 * t["block"] / t["fs"]


def spectrum(b, cl, t, j):
    x = probe.record(t["rec"])
    if j["s"] == "all":
        for f in t["rec"].get("faults", []):
            b.fault("sensor " + f[0])
    kw = {"overlap": t["ov"], "block": t["block"], "onesided": t["one"]}
    if t["block"] == 2048 and t["ov"] == 50 and t["one"]:
        kw = {}                                          # the defaults
    lo, hi = part(t, x, j["s"])
    v = x[lo:hi]
    what = f"(block {t['block']}, overlap {t['ov']}, onesided {t['one']}, samples {lo} to {hi} of {x.size})"
    if t.get("short") and j["s"] == "all":
        res = b.call(cl, "spectrum", [x[:t["block"] - 1].copy(), t["fs"]], kw)
        if res[0] != "err" or res[1] != "ValueError":
            b.fail("not-refused", f"spectrum of less than one block: {res[0]} {res[1]!r}", op="spectrum")
        b.probe("short record refused")
    arr = probe.layout(v, t["lay"])[0]
    v = np.asarray(arr, dtype=float)
    f, p = b.value(cl, "spectrum", [arr, t["fs"]], kw, hit=j.get("hit"), what=what)
    f, p = np.asarray(f, dtype=float), np.asarray(p, dtype=float)
    fr, pr = welch(v, t)
    if f.shape != fr.shape or p.shape != pr.shape:
        b.fail("shape", f"spectrum{what}: {p.shape} values for {pr.shape} frequencies", op="spectrum")
    if not bench.close(f, fr, 1e-12, 1e-12):
        b.fail("not-definition", f"spectrum{what}: frequencies {f[:4]!r}, by definition {fr[:4]!r}", op="spectrum")
    if not bench.close(p, pr, 0, tol_of(t, v, pr)):
        i = int(np.argmax(np.abs(p - pr)))
        b.fail("not-definition", f"spectrum{what}: density {p[i]!r} at {f[i]!r}, by definition {pr[i]!r}", op="spectrum")
    return p


def spectrum_assemble(b, t, parts):
    x = probe.record(t["rec"])
    p, mean = parts["all"], sum(parts[s] for s in range(t["k"])) / t["k"]
    if not bench.close(mean, p, 0, 2 * tol_of(t, x, p)):
        i = int(np.argmax(np.abs(mean - p)))
        b.fail("division-matters", f"spectrum: density {p[i]!r} in one call, the mean over the {t['k']} blocks is {mean[i]!r}", op="spectrum")
    if t["k"] > 1:
        b.probe("spectrum divided")


def job(b, cl, j):
    t = b.sc["tasks"][j["t"]]
    compute, assemble = (spectrum, spectrum_assemble) if t["op"] == "spectrum" else (dist, dist_assemble)
    y = compute(b, cl, t, j)
    if j["fate"] == "dies":                              # its answer is lost; another worker has the shard in its queue
        b.fault("worker died, shard handed on")
        return
    parts = b.__dict__.setdefault("parts", {}).setdefault(j["t"], {})
    if j["fate"] == "twice":
        b.fault("shard computed twice")
    if j["s"] in parts and (parts[j["s"]] is None) != (y is None):
        b.fail("not-repeatable", f"{t['op']}: two workers disagree on shard {j['s']}", op=t["op"])
    parts[j["s"]] = y
    if len(parts) == t["k"] + 1:
        assemble(b, t, parts)


def run(sc):
    return bench.Bench(sc, job).run()


def shrink(sc):
    return bench.shrink_jobs(sc)
