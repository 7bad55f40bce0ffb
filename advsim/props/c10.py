"""C10: detectors survive any probe fault and flag exactly what their criterion says."""
import math

import numpy as np
from scipy.stats import gaussian_kde

from .. import ops, probe
from . import bench, common

ID = "C10"
RUNS = {"quick": 20000, "thorough": 100000}
RULE = ("Each run gives one to three processors records from simulated velocimeters with a schedule of faults (spikes of any "
        "size at any place including the ends, clusters, common-mode spikes on all components, stuck and quantised sensors, "
        "dropouts) in several memory layouts, and runs the detectors under preemption and interrupts. Every answer is "
        "compared with an executable model of the method's criterion, leaving out samples that lie on the threshold within "
        "rounding. Non-trivial: a fault was injected or a preemption took place.")
MEASURE = "SHA-256 over results, preemption points and fired faults"
COMPONENTS = common.COMPONENTS
ASSUMPTIONS = ["finite records of at least four samples (16 for the kernel methods)",
               "a sample whose criterion lies within 1e-6 of the threshold (more where the method rounds to four decimals) may be flagged or not, and so may every sample where the method's ellipse is degenerate",
               "kernel methods: records whose covariance is not singular; parameters where the density profile crosses its "
               "threshold within rounding are left out"]
INTS = ("int", "i16", "u16")
DETECT = ("pst", "pst", "vc", "vc", "acc", "acc", "sph", "sph", "premod", "pollution", "kernel", "k3")


def gen_record(rng, n):
    r = probe.spec(rng, n, sd=rng.choice((0.5, 1.0, 3.0, 12.0)), mean=rng.choice((0.0, 0.0, 0.0, 5.0, -7.0, 40.0)))
    if rng.random() < 0.8:
        r["faults"] = probe.faults(rng, n, kinds=("spike", "spike", "burst", "drop", "stuck"), most=5)
    if rng.random() < 0.02:
        r["kind"] = "const"
    if rng.random() < 0.02:
        r["faults"] = [["stuck", 0, n]]
    return r


def gen_job(rng, c):
    op = rng.choice(DETECT)
    o = ops.OPS[op]
    heavy = op in ("kernel", "k3")
    n = rng.choice((rng.randrange(4, 12), rng.randrange(8, 60), rng.randrange(30, 160), rng.randrange(100, min(o.nmax, 300) + 1) if o.nmax > 100 else 60))
    n = max(16, min(n, 100)) if heavy else min(n, o.nmax)
    if rng.random() < 0.06:
        n = rng.randrange(100, 500) if heavy else rng.randrange(300, 3000)
    j = {"c": c, "op": op, "recs": [gen_record(rng, n) for _ in range(o.nrec)], "par": o.gen(rng, n), "lay": rng.choice(probe.LAYOUTS) if rng.random() < 0.9 else rng.choice(INTS),
         "hit": bench.hit(rng)}
    if op == "acc":
        j["par"]["f"] = rng.choice((1, 25, 50, 100, 200, 1000))
        j["par"]["kg"] = rng.choice((1.5, 1.0, 0.1, 0.01))
        j["par"]["ks"] = rng.choice((1, 1.5, 0.5, 0, 3))
    if op == "premod":
        for r in j["recs"]:
            r["mean"] = rng.choice((0.0, 0.0, 0.0, 2.0))
    if o.nrec > 1 and rng.random() < 0.3:                     # common mode: the same spikes, or the same signal, everywhere
        for r in j["recs"][1:]:
            r["faults"] = j["recs"][0].get("faults", [])
            if rng.random() < 0.4:
                r["seed"], r["kind"] = j["recs"][0]["seed"], j["recs"][0]["kind"]
    if op == "sph":
        j["par"] = {"it": rng.choice((1, 2, 3)), "cm": rng.choice((0.0, 0.5, -3.0))}
    return j


def gen(rng, i, tier):
    nc = rng.choice((1, 1, 2, 3))
    return {"sched": bench.sched(rng, nc), "jobs": [gen_job(rng, c) for c in range(nc) for _ in range(rng.choice((1, 2)))]}


# ------------------------------------------------------------------------------------------- criteria
# Each returns (must, may): samples that have to be flagged, samples that are allowed to be.

UNKNOWN = "unknown"


def ellipse(x, y, theta, a, b):
    """Squared distance in units of the ellipse, or UNKNOWN where it is degenerate."""
    sx, sy = np.abs(x).max() + 1e-300, np.abs(y).max() + 1e-300
    if not (np.isfinite(a) and np.isfinite(b)) or abs(a) < 1e-7 * sx or abs(b) < 1e-7 * sy or a == 0 or b == 0:
        return UNKNOWN
    xp = x * math.cos(theta) + y * math.sin(theta)
    yp = y * math.cos(theta) - x * math.sin(theta)
    return (xp / a) ** 2 + (yp / b) ** 2


def combine(rhos, n, margin):
    must, may = np.zeros(n, bool), np.zeros(n, bool)
    for r in rhos:
        if r is UNKNOWN:
            may[:] = True
        elif r is not None:
            must |= r > 1 + margin
            may |= r > 1 - margin
    return must, may


def std(x):
    return math.sqrt(((x - x.mean()) ** 2).mean())


def crit_pst(c):
    n = c.size
    dc, dc2 = np.zeros(n), np.zeros(n)
    dc[1:-1] = np.around((c[2:] - c[:-2]) / 2, 4)
    dc2[1:-1] = np.around((dc[2:] - dc[:-2]) / 2, 4)
    lam = math.sqrt(2 * math.log(n))
    a1, b1, b2 = lam * std(c), lam * std(dc), lam * std(dc2)
    ss = (c ** 2).sum()
    # derivatives are rounded to four decimals and a tie may be rounded either way: 1e-4 against the ellipse's axes
    tie = lambda *axes: 1e-6 + 4e-4 / (min(axes) + 1e-9)
    parts = [combine([ellipse(c, dc, 0.0, a1, b1)], n, tie(a1, b1)), combine([ellipse(dc, dc2, 0.0, b1, b2)], n, tie(b1, b2))]
    if ss < 1e-12:
        parts.append(combine([UNKNOWN], n, 0))
    else:
        th = math.atan((c * dc2).sum() / ss)
        ct, st = math.cos(th) ** 2, math.sin(th) ** 2
        fact = ct ** 2 - st ** 2
        ra, rb = a1 ** 2 * ct - b2 ** 2 * st, b2 ** 2 * ct - a1 ** 2 * st
        big = a1 ** 2 + b2 ** 2 + 1e-300
        if abs(fact) < 1e-3 or abs(ra) < 1e-4 * big or abs(rb) < 1e-4 * big:
            parts.append(combine([UNKNOWN], n, 0))
        elif ra > 0 and rb > 0:
            a3, b3 = math.sqrt(ra) / fact, math.sqrt(rb) / fact
            m3 = tie(abs(a3), abs(b3)) + big / min(ra, rb) * 4e-4 / (n * (b2 + 1e-9))
            parts.append(combine([ellipse(c, dc2, th, a3, b3)], n, m3))
        # otherwise the third ellipse does not exist and excludes nothing
    return np.logical_or.reduce([p[0] for p in parts]), np.logical_or.reduce([p[1] for p in parts])


def crit_vc(u, v, w):
    n = u.size
    u, v, w = u - u.mean(), v - v.mean(), w - w.mean()
    lam = math.sqrt(2 * math.log(n))
    rhos = []
    for p, q in ((u, v), (u, w), (v, w)):
        sp, sq = std(p), std(q)
        ss = (p ** 2).sum()
        if sp < 1e-9 or sq < 1e-9:
            rhos.append(UNKNOWN)
            continue
        th = math.atan((p * q).sum() / ss)
        ct, st = math.cos(th) ** 2, math.sin(th) ** 2
        fact = ct ** 2 - st ** 2
        r1, r2 = (lam * sp) ** 2, (lam * sq) ** 2
        fa, fb = r1 * ct - r2 * st, r2 * ct - r1 * st
        big = r1 + r2
        if abs(fact) < 1e-6 or abs(fa) < 1e-6 * big or abs(fb) < 1e-6 * big:
            rhos.append(UNKNOWN)
        elif fa / fact > 0 and fb / fact > 0:
            rhos.append(ellipse(p, q, th, math.sqrt(fa / fact), math.sqrt(fb / fact)))
        else:
            rhos.append(ellipse(p, q, th, 1e10, 1e10) if big < 1e16 else UNKNOWN)     # no ellipse: a practically unlimited one
            if rhos[-1] is UNKNOWN:
                rhos[-1] = None
    return combine(rhos, n, 1e-6)


def crit_acc(x, p):
    s = 1 if p["tag"] == 1 else -1
    d = np.concatenate(([0.0], np.diff(x) * p["f"])) * s
    lim, dev, far = p["kg"] * p.get("g", 980), (x - x.mean()) * s, p["ks"] * std(x)
    e1, e2 = 1e-9 * (np.abs(d).max() + lim), 1e-9 * (np.abs(x).max() + far)
    return (d > lim + e1) & (dev > far + e2), (d > lim - e1) & (dev > far - e2)


def crit_sph(c):
    n = c.size
    f = np.around(c - c.mean(), 4)
    dc = np.gradient(f)
    d2 = np.gradient(dc)
    th = round(math.atan2((f * dc).sum(), (d2 ** 2).sum()), 4)
    if th == 0:
        x, y, z = f, dc, d2
    else:
        ct, st = round(math.cos(th), 4), round(math.sin(th), 4)
        x, y, z = np.around(f * ct + d2 * st, 4), np.around(dc, 4), np.around(-f * st + d2 * ct, 4)
    lam = round(math.sqrt(2 * math.log(n)), 4)
    axes = [round(lam * std(t), 4) for t in (x, y, z)]
    if min(axes) < 0.05:
        return combine([UNKNOWN], n, 0)
    g = sum((t / s) ** 2 for t, s in zip((x, y, z), axes))
    # rounding to four decimals: of the point on the ellipsoid, and of its height there
    return combine([g], n, 5e-3 + 2e-3 / min(axes) ** 2)


def crit_kernel(u, w, grid):
    """rho of the kernel method, or UNKNOWN where a comparison is too close to call."""
    n = u.size
    th = math.atan2(n * (u * w).sum() - u.sum() * w.sum(), n * (u * u).sum() - u.sum() ** 2)
    ut, wt = u * math.cos(th) + w * math.sin(th), -u * math.sin(th) + w * math.cos(th)
    uf, wf = np.linspace(ut.min(), ut.max(), grid), np.linspace(wt.min(), wt.max(), grid)
    cov = np.cov(np.vstack([ut, wt]))
    if cov[0, 0] <= 0 or cov[1, 1] <= 0 or np.linalg.cond(cov) > 1e9:
        return UNKNOWN
    mu, mw = np.meshgrid(uf, wf, indexing="ij")
    dens = gaussian_kde(np.vstack([ut, wt]))(np.vstack([mu.ravel(), mw.ravel()])).reshape(grid, grid)
    flat = np.sort(dens.ravel())
    if flat[-1] - flat[-2] < 1e-9 * flat[-1]:
        return UNKNOWN
    iu, iw = np.unravel_index(np.argmax(dens), dens.shape)
    peak = dens[iu, iw]
    lam = math.sqrt(2 * math.log(n))

    def cut(axis, prof, k, lim):
        dd = np.append([0], np.diff(prof)) * grid / peak
        for v in (prof[1:-1] / peak, np.abs(dd[1:-1])):
            if (np.abs(v - lim) < 1e-7 * (lim + 1)).any():
                return None
        ok = (prof / prof[k] <= lim) & (np.abs(dd) <= lim)
        lo = next((i for i in range(k - 1, 0, -1) if ok[i]), 1)
        hi = next((i for i in range(k + 1, prof.size - 1) if ok[i]), prof.size - 1)
        return axis[lo], axis[hi]

    a = cut(uf, dens[:, iw], iu, lam * std(u) / math.sqrt(n))
    b = cut(wf, dens[iu, :], iw, lam * std(w) / math.sqrt(n))
    if a is None or b is None:
        return UNKNOWN
    hu, hw = (a[1] - a[0]) / 2, (b[1] - b[0]) / 2
    if abs(hu) < 1e-9 * np.abs(ut).max() or abs(hw) < 1e-9 * np.abs(wt).max():
        return UNKNOWN
    return ((ut - (a[0] + a[1]) / 2) / hu) ** 2 + ((wt - (b[0] + b[1]) / 2) / hw) ** 2


def singular(u, w):
    c = np.cov(np.vstack([u, w]))
    return not np.isfinite(c).all() or c[0, 0] <= 0 or c[1, 1] <= 0 or np.linalg.cond(c / np.sqrt(np.outer(np.diag(c), np.diag(c)))) > 1e7 \
        or np.linalg.cond(c) > 1e11


# ------------------------------------------------------------------------------------------- the job

def indices(b, op, what, out, n):
    out = np.asarray(out)
    if out.ndim != 1 or (out.size and out.dtype.kind not in "iu"):
        b.fail("shape", f"{op}{what} returned {out.dtype} {out.shape}", op=op)
    if out.size and (out.min() < 0 or out.max() >= n or (np.diff(out) <= 0).any()):
        b.fail("indices", f"{op}{what} returned indices that are not strictly increasing within 0..{n - 1}: {out[:20]}", op=op)
    return out.astype(int)


def job(b, cl, j):
    op, par = j["op"], j["par"]
    o = ops.OPS[op]
    recs = [probe.record(r) for r in j["recs"]]
    n = recs[0].size
    for r in j["recs"]:
        for f in r.get("faults", ()):
            b.fault("sensor " + f[0])
    arrays = [probe.layout(x, j["lay"])[0] for x in recs]
    if j["lay"] in INTS:
        b.fault("converter counts instead of velocities")
        recs = [np.array(a, dtype=float) for a in arrays]
    args, kw = o.bind(arrays, par)
    what = f"(n={n}, {par})"
    if op in ("kernel", "k3"):
        if op == "k3":
            x = recs[0]
            dc, d2 = np.zeros(n), np.zeros(n)
            dc[1:-1] = (x[2:] - x[:-2]) / 2
            d2[1:-1] = (dc[2:] - dc[:-2]) / 2
            pairs = [(x, dc), (x, d2), (dc, d2)]
        else:
            pairs = [tuple(recs)]
        if any(singular(*p) for p in pairs):
            b.probe("singular covariance: left out")
            return
        out = b.value(cl, op, args, kw, hit=j.get("hit"), what=what)
        ids = indices(b, op, what, out[0] if op == "kernel" else out, n)
        must, may = combine([crit_kernel(*p, par["grid"]) for p in pairs], n, 1e-6)
    elif op == "premod":
        data, keep = b.value(cl, op, args, kw, hit=j.get("hit"), what=what)
        x = recs[0]
        keep = indices(b, op, what, keep, n)
        th = np.median(np.abs(x - np.median(x)))
        lim, cut = par["c1"] * th, par["c2"] * th * math.sqrt(2 * math.log(n))
        e = 1e-9 * (lim + cut)
        check(b, op, what + " (samples not to be replaced)", keep, np.abs(x) <= lim - e, np.abs(x) <= lim + e, n)
        data = np.asarray(data)
        if data.shape != x.shape:
            b.fail("shape", f"{op}{what} returned data of shape {data.shape}", op=op)
        for i in range(n):
            if abs(x[i]) > cut + e:
                if i > 0 and data[i] != data[i - 1]:
                    b.fail("not-replaced", f"{op}{what}: sample {i} = {x[i]!r} exceeds {cut!r}; it became {data[i]!r}, the sample "
                           f"before it is {data[i - 1]!r}", op=op)
                b.probe("premodification replaced a sample")
            elif abs(x[i]) < cut - e and data[i] != x[i]:
                b.fail("wrongly-replaced", f"{op}{what}: sample {i} = {x[i]!r} does not exceed {cut!r}; it became {data[i]!r}", op=op)
        return
    elif op == "pollution":
        got = float(b.value(cl, op, args, kw, hit=j.get("hit"), what=what))
        x, xf, s = recs[0], recs[1], par["k"] * std(recs[0])
        e = 1e-9 * (np.abs(x).max() + np.abs(xf).max() + s)
        hi = ((x > xf + s - e).sum() + (x < -xf - s + e).sum()) / n * 100
        lo = ((x > xf + s + e).sum() + (x < -xf - s - e).sum()) / n * 100
        if not lo - 1e-9 <= got <= hi + 1e-9:
            b.fail("rate", f"{op}{what} returned {got!r}, between {lo!r} and {hi!r} percent of the samples exceed the threshold", op=op)
        return
    else:
        out = b.value(cl, op, args, kw, hit=j.get("hit"), what=what)
        ids = indices(b, op, what, out, n)
        if op == "pst":
            must, may = crit_pst(recs[0])
        elif op == "vc":
            must, may = crit_vc(*recs)
        elif op == "acc":
            must, may = crit_acc(recs[0], par)
        else:
            must, may = crit_sph(recs[0])
    check(b, op, what, ids, must, may, n)


def check(b, op, what, ids, must, may, n):
    got = np.zeros(n, bool)
    got[ids] = True
    if may.all() and not must.any():
        b.probe(op + ": nothing decided")
    else:
        b.probe(op + ": decided", 1)
        if must.any():
            b.probe(op + ": something to flag", 1)
    if (must & ~got).any():
        i = int(np.argmax(must & ~got))
        b.fail("missed", f"{op}{what}: sample {i} meets the criterion and is not flagged (flagged: {ids[:12]})", op=op)
    if (got & ~may).any():
        i = int(np.argmax(got & ~may))
        b.fail("wrongly-flagged", f"{op}{what}: sample {i} does not meet the criterion and is flagged", op=op)


def run(sc):
    return bench.Bench(sc, job).run()


def shrink_job(j):
    for i, r in enumerate(j["recs"]):
        for f in range(len(r.get("faults", []))):
            r2 = dict(r, faults=r["faults"][:f] + r["faults"][f + 1:])
            yield dict(j, recs=j["recs"][:i] + [r2] + j["recs"][i + 1:])
    if j["lay"] != "c":
        yield dict(j, lay="c")
    n = j["recs"][0]["n"]
    nmin = 16 if j["op"] in ("kernel", "k3") else 4
    for m in (n // 2, n - 10, n - 1):
        if nmin <= m < n:
            yield dict(j, recs=[dict(r, n=m, faults=[f for f in r.get("faults", []) if f[1] < m]) for r in j["recs"]])


def shrink(sc):
    return bench.shrink_jobs(sc, shrink_job)
