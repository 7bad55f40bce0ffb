"""C09: replacement repairs exactly the flagged samples, whatever they contained."""
import numpy as np
from scipy.interpolate import CubicSpline

from .. import ops, probe
from . import bench, common

ID = "C09"
RUNS = {"quick": 18000, "thorough": 120000}
RULE = ("Each run lets one to three processors repair records from a simulated velocimeter: a schedule of faults decides which "
        "samples are flagged (none, one, runs, both ends, most) and what the probe wrote into them (spikes of any size, "
        "zeros, error codes); processors are preempted and now and then interrupted and repeated. Every result is compared "
        "sample by sample with a small reference model of the method. Non-trivial: a sample was flagged or a preemption "
        "took place.")
MEASURE = "SHA-256 over results, preemption points and fired faults"
COMPONENTS = common.COMPONENTS
ASSUMPTIONS = ["finite floating-point records, at least one sample not flagged, indices as a sorted integer array",
               "for a run at the very start 'previous sample' repeats some finite value, and linear interpolation may use the mean "
               "of the record or the first valid sample", "the SSA reference is the library's own ssa() on the same record"]
METHODS = ("r_last", "r_mean", "r_median", "r_linear", "r_linear", "r_cubic", "r_cubic", "r_sma", "r_ema", "r_wma", "r_ssa",
           "r_kalman", "r_poly", "r_poly")
GARBAGE = ("spike", "huge", "zero", "code", "alt")


def flag_schedule(rng, n):
    f = set(ops.flags(rng, n))
    if rng.random() < 0.15:                       # around places where methods change their mind
        for t in (0, 1, 9, 10, 11, 12, 29, 30, 31, 32, n - 33, n - 32, n - 31, n - 30, n - 29, n - 13, n - 12, n - 1):
            if 0 <= t < n and rng.random() < 0.35:
                f.add(t)
    if rng.random() < 0.03:
        keep = set(rng.sample(range(n), min(n, rng.choice((1, 2, 5)))))
        f = set(range(n)) - keep
    if len(f) >= n:
        f.discard(rng.randrange(n))
    return sorted(f)


def gen_job(rng, c):
    op = rng.choice(METHODS)
    o = ops.OPS[op]
    n = rng.choice((rng.randrange(4, 30), rng.randrange(20, 70), rng.randrange(60, 160), rng.randrange(60, o.nmax + 1) if o.nmax > 60 else 40))
    n = min(n, o.nmax)
    if rng.random() < 0.06:
        n = rng.randrange(o.nmax, {"r_ssa": 200, "r_kalman": 600}.get(op, 2500))
    if op == "r_ssa":
        n = max(n, 24)
    par = o.gen(rng, n)
    par["flag"] = flag_schedule(rng, n)
    if op == "r_sma":
        par["w"] = max(1, min(n, rng.choice((1, 2, 5, 20, n // 2, n))))
    if op == "r_wma":
        par["w"] = max(1, min(n, rng.choice((1, 2, 3, 5, 20, n // 2))))
    if op == "r_ema":
        par["alpha"] = rng.choice((1.0, 0.5, 0.2, round(rng.uniform(0.02, 0.99), 3)))
    if op == "r_poly":
        par["w"] = rng.choice((100, 20, 12, 50))
        par["deg"] = rng.choice((1, 2, 2))
    return {"c": c, "op": op, "rec": probe.spec(rng, n), "par": par, "garbage": rng.choice(GARBAGE), "gseed": rng.randrange(1 << 30),
            "lay": rng.choice(probe.LAYOUTS), "hit": bench.hit(rng)}


def gen(rng, i, tier):
    nc = rng.choice((1, 1, 2, 3))
    return {"sched": bench.sched(rng, nc), "jobs": [gen_job(rng, c) for c in range(nc) for _ in range(rng.choice((1, 2)))]}


def record(j):
    x = probe.record(j["rec"])
    g = probe.rng_for(j["gseed"])
    fl = j["par"]["flag"]
    sd = j["rec"].get("sd", 1.0)
    if fl:
        k = j["garbage"]
        if k == "spike":
            x[fl] += sd * g.choice((-1, 1), len(fl)) * g.uniform(5, 60, len(fl))
        elif k == "huge":
            x[fl] = g.choice((-1, 1), len(fl)) * 10.0 ** g.uniform(2, 7, len(fl))
        elif k == "zero":
            x[fl] = 0.0
        elif k == "code":
            x[fl] = -9999.0
        else:
            x[fl] = 1e3 * (-1.0) ** np.arange(len(fl))
    return x


def runs_of(fl):
    out = []
    for i in fl:
        if out and out[-1][1] == i - 1:
            out[-1][1] = i
        else:
            out.append([i, i])
    return out


class Want:
    """For every flagged sample: acceptable values and the tolerance around them.  None: any finite value."""

    def __init__(self):
        self.v = {}

    def put(self, i, values, tol):
        self.v[i] = (values, tol)


def model_linear(x, fl, dec, want, scale):
    n = x.size
    mean = x.mean()
    for s, e in runs_of(fl):
        if e == n - 1:
            for i in range(s, e + 1):
                want.put(i, [mean], 1e-9 * scale)
        elif s == 0:
            for i in range(s, e + 1):
                want.put(i, [x[e + 1], mean], 1e-9 * scale)
        else:
            for i in range(s, e + 1):
                t = (i - s + 1) / (e - s + 2)
                want.put(i, [x[s - 1] + t * (x[e + 1] - x[s - 1])], 1e-9 * (abs(x[s - 1]) + abs(x[e + 1])))


def model_cubic(x, fl, want, scale):
    m = x.copy()
    m[fl] = np.nan
    n = x.size
    pos = np.array(list(range(1, 13)) + list(range(14, 26)))
    for i in fl:
        after = m[i:][~np.isnan(m[i:])]
        if after.size == 0:
            m[i] = x.mean()
            want.put(i, [m[i]], 1e-9 * scale)
        elif i <= 30 or i >= n - 30 or after.size < 12:
            prev = m[i - 1] if i > 0 else after[0]
            m[i] = np.around((prev + after[0]) / 2, 4)
            want.put(i, [m[i]], 2.1e-4 + 1e-9 * (abs(prev) + abs(after[0])))   # ties may round either way, one after the other
        else:
            y = np.append(m[i - 12:i], after[:12])
            m[i] = CubicSpline(pos, y)(13)
            want.put(i, [m[i]], 1e-7 * np.abs(y).max() + (5e-4 if i < 90 and fl[0] <= 30 else 0))


def model_poly(x, fl, par, want, scale):
    m, ties = x.copy(), False
    early = [i for i in fl if i <= 10]
    if 0 in early:
        m[0] = x.mean()
        want.put(0, [m[0]], 1e-9 * scale)
    if any(i >= 1 for i in early):
        w2 = Want()
        base = m.copy()
        model_linear(base, early, par["dec"], w2, np.abs(base).max())
        for i in early:
            vals, tol = w2.v[i]
            if i == 0 and i + 1 not in early:
                vals = vals + [x.mean()]
            want.put(i, vals, tol)
            m[i] = vals[0]
        eps = 1e-9 * np.abs(m).max()
        ties = any(np.around(m[i] + eps, par["dec"]) != np.around(m[i] - eps, par["dec"]) for i in early)
        m = np.around(m, par["dec"])
    amp = 1e-5
    for i in fl:
        if i <= 10:
            continue
        lo = max(0, i - par["w"])
        t = (np.arange(lo, i) - i) / max(1.0, (i - lo))
        A = np.vander(t, par["deg"] + 1)
        coef = np.linalg.lstsq(A, m[lo:i], rcond=None)[0]
        m[i] = coef[-1]
        want.put(i, None if ties else [m[i]], amp * max(np.abs(m[lo:i]).max(), abs(m[i])))


def smooth(x, j, op):
    p = j["par"]
    if op == "r_sma":
        w = p["w"]
        return np.array([x[max(0, i - w + 1):i + 1].mean() for i in range(x.size)])
    if op == "r_ema":
        y = x.copy()
        for i in range(1, x.size):
            y[i] = p["alpha"] * x[i] + (1 - p["alpha"]) * y[i - 1]
        return y
    if op == "r_wma":
        w = p["w"]
        k = np.arange(1, w + 1)
        return np.array([(k * x[i:i + w]).sum() / k.sum() for i in range(x.size - w)])
    s, c = p["s"], p["p"]
    out = []
    for v in x:
        c = c + p["q"]
        g = c / (c + p["r"])
        s = s + g * (v - s)
        c = (1 - g) * c
        out.append(s)
    return np.array(out)


def job(b, cl, j):
    op, par = j["op"], j["par"]
    o = ops.OPS[op]
    x = record(j)
    n, fl = x.size, par["flag"]
    a = probe.layout(x, j["lay"])[0]
    args, kw = o.bind([a], par)
    if fl:
        b.fault("flagged samples: " + j["garbage"])
    for s, e in runs_of(fl):
        b.probe("run at start" if s == 0 else "run at end" if e == n - 1 else "run" if e > s else "single flag")
    what = f"(n={n}, flags={fl if len(fl) < 12 else str(fl[:10])[:-1] + ', ...]'}, { {k: v for k, v in par.items() if k != 'flag'} })"
    if op == "r_wma" and fl and fl[-1] >= n - par["w"]:
        res = b.call(cl, op, args, kw, hit=j.get("hit"))
        if res[0] == "err" and res[1] == "IndexError":
            b.known.append("wma-index")
            return
        if res[0] != "ok":
            b.fail("raised", f"{op}{what}: {res[1:]}", op=op)
        out = res[1]
    else:
        out = b.value(cl, op, args, kw, hit=j.get("hit"), what=what)
    out = np.asarray(out)
    if out.shape != x.shape or out.dtype.kind != "f":
        b.fail("shape", f"{op}{what} returned {out.dtype} {out.shape}", op=op)
    dec = par.get("dec")
    keep = np.setdiff1d(np.arange(n), fl)
    tol = 0.0 if dec is None else 0.51 * 10.0 ** -dec + 1e-12 * np.abs(x[keep]).max()
    d = np.abs(out[keep] - x[keep])
    if not (d <= tol).all():
        i = int(keep[np.argmax(~(d <= tol))])
        b.fail("valid-sample-changed", f"{op}{what}: sample {i} was not flagged; {x[i]!r} became {out[i]!r}", op=op)
    if not np.isfinite(out).all():
        i = int(np.argmax(~np.isfinite(out)))
        b.fail("not-repaired", f"{op}{what}: sample {i} is {out[i]!r}", op=op)
    if not fl:
        return
    scale = np.abs(x).max() + abs(par.get("s", 0.0)) + 1e-6
    want = Want()
    if op == "r_last":
        for i in fl:
            if i > 0:
                want.put(i, [out[i - 1]], 0.0)
            else:
                want.put(i, None, 0)
    elif op == "r_mean":
        for i in fl:
            want.put(i, [x.mean()], 1e-9 * scale)
    elif op == "r_median":
        for i in fl:
            want.put(i, [np.median(x)], 1e-9 * scale)
    elif op == "r_linear":
        model_linear(x, fl, dec, want, scale)
    elif op == "r_cubic":
        model_cubic(x, fl, want, scale)
    elif op == "r_poly":
        model_poly(x, fl, par, want, scale)
    elif op == "r_ssa":
        y = np.asarray(b.value(cl, "ssa", [x, par["fs"], par["f"]]))
        for i in fl:
            want.put(i, [y[i]], 1e-9 * scale)
    else:
        y = smooth(x, j, op)
        for i in fl:
            want.put(i, [y[i]] if i < y.size else None, 1e-9 * scale)
        if op == "r_wma":                         # the value of the window that ends before the sample would be the right one
            for i in fl:
                if i >= par["w"] and abs(out[i] - y[i - par["w"]]) <= 1e-9 * scale:
                    want.put(i, None, 0)
                elif i < y.size:
                    b.known.append("wma-shift")
    r = 0.0 if dec is None else 0.51 * 10.0 ** -dec
    for i in fl:
        vals, t = want.v[i]
        if vals is not None and not any(abs(out[i] - v) <= t + r for v in vals):
            b.fail("wrong-value", f"{op}{what}: sample {i} became {out[i]!r}; the method defines {' or '.join(repr(float(v)) for v in vals)}", op=op)


def run(sc):
    return bench.Bench(sc, job).run()


def shrink_job(j):
    fl = j["par"]["flag"]
    for i in range(len(fl)):
        yield dict(j, par=dict(j["par"], flag=fl[:i] + fl[i + 1:]))
    if j["lay"] != "c":
        yield dict(j, lay="c")
    n = j["rec"]["n"]
    nmin = 24 if j["op"] == "r_ssa" else 4
    for m in (n // 2, n - 10, n - 1):
        if nmin <= m < n:
            par = dict(j["par"], flag=[f for f in fl if f < m])
            if j["op"] in ("r_sma", "r_wma"):
                par["w"] = min(par["w"], m)
            if len(par["flag"]) < m:
                yield dict(j, rec=dict(j["rec"], n=m), par=par)


def shrink(sc):
    return bench.shrink_jobs(sc, shrink_job)
