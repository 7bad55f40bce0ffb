"""C05: synthetic pollution honours its contract for every random outcome."""
import math
from fractions import Fraction

import numpy as np

from .. import probe
from . import bench, common

ID = "C05"
RUNS = {"quick": 12000, "thorough": 80000}
RULE = ("Each run lets one to three callers pollute records while the simulator owns NumPy's global generator: it is put into "
        "states whose next draws are chosen (the same index over and over, short cycles, all zeros, all ones, a state about "
        "to be refilled, an extreme pending normal deviate) or seeded, and callers are preempted between draws. Every "
        "result is compared with the contract. Every 61st run is an ensemble of seeded calls whose index counts and noise "
        "sizes are tested against the stated distributions at 6.5 standard deviations. Non-trivial: a chosen generator "
        "state, an ensemble, or a preemption.")
MEASURE = "SHA-256 over results, preemption points and generator states"
COMPONENTS = dict(common.COMPONENTS, simulated=common.COMPONENTS["simulated"] + ["the state of NumPy's global generator"])
ASSUMPTIONS = ["records have a mean that is not lost in rounding", "the step budget of 400,000 + 10 n^2 yield points per call stands for "
               "'terminates'", "uniformity and the half-normal law are tested statistically (6.5 sigma)"]


# --------------------------------------------------------------- chosen draws of the Mersenne twister

def untemper(y):
    """The state word whose tempered output is y."""
    y ^= y >> 18
    y ^= (y << 15) & 0xEFC60000
    t = y
    for _ in range(5):
        t = y ^ ((t << 7) & 0x9D2C5680)
    y = t & 0xFFFFFFFF
    t = y
    for _ in range(3):
        t = y ^ (t >> 11)
    return t & 0xFFFFFFFF


def chosen_state(st, n):
    """A generator state from its description."""
    g = probe.rng_for(st["seed"])
    kind, key = st["kind"], g.integers(0, 1 << 32, 624, dtype=np.uint64).astype(np.uint32)
    words = None
    hi = g.integers(0, 1 << 20, 624) << 12                       # bits above any index stay random
    if kind == "repeat":
        words = [(int(h) & ~1023) | int(st["seed"] % n) for h in hi]
    elif kind == "cycle":
        c = [int(v) for v in g.integers(0, n, st.get("m", 3))]
        words = [(int(h) & ~1023) | c[i % len(c)] for i, h in enumerate(hi)]
    elif kind == "zeros":
        words = [0] * 624
    elif kind == "ones":
        words = [0xFFFFFFFF] * 624
    elif kind == "reject":                                       # always out of range for the masked draw
        words = [(int(h) & ~1023) | 1023 for h in hi]
    elif kind == "edge":
        words = [(int(h) & ~1023) | (n - 1 if i % 2 else 0) for i, h in enumerate(hi)]
    elif kind == "down":
        words = [(int(h) & ~1023) | (n - 1 - i % n) for i, h in enumerate(hi)]
    if words is not None:
        m = st.get("len", 600)
        for i in range(624):
            if i < m:
                key[i] = untemper(words[i] & 0xFFFFFFFF)
    if not key.any():
        key[623] = 1
    return ("MT19937", key, st.get("pos", 0), int("gauss" in st), st.get("gauss", 0.0))


KINDS = ("repeat", "cycle", "zeros", "ones", "reject", "edge", "down", "random")


def pick_pct(rng, n):
    return rng.choice((0, 1, 5, 10, 25, 33.3, 50, 75, 99, 100, round(rng.uniform(0, 100), rng.choice((0, 1, 3))),
                       100 * rng.randrange(n + 1) / n, rng.choice((0.1, 0.5, 2.5)), rng.randrange(101), rng.randrange(101)))


def gen_rec(rng, n):
    mean = rng.choice((5.0, -7.0, 40.0, 0.8, -0.3, 100.0))
    return probe.spec(rng, n, mean=mean, sd=rng.choice((0.1, 0.5)) * abs(mean), kind=rng.choice(("turb", "white", "sine", "quant")))


def gen(rng, i, tier):
    if i % 61 == 7:
        n = rng.choice((2, 5, 11, 20, 20, 37, 50, 50, 130, 260))
        pct = rng.choice((2, 5, 10, 20, 25, 40, 50, 60, 70, 80, 85, 90, 95, 98))
        k = int(n * pct / 100)
        if k < 1 or k >= n:
            n, pct = 20, rng.choice((5, 25, 90, 95))
            k = int(n * pct / 100)
        m = min(max(60, math.ceil(230 * n / min(k, n - k))), 900 if n <= 50 else 120)
        return {"ensemble": {"n": n, "pct": pct, "calls": m, "seed": rng.randrange(1 << 31), "mode": rng.choice(("one", "each")),
                             "rec": gen_rec(rng, n)}}
    nc = rng.choice((1, 1, 2, 3))
    jobs = []
    for c in range(nc):
        for _ in range(rng.choice((1, 1, 2, 3))):
            n = rng.choice((1, 2, 3, rng.randrange(4, 20), rng.randrange(10, 80), rng.randrange(60, 160)))
            if rng.random() < 0.2:
                n = rng.choice((25, 50, 75, 100, 150, 100))   # products with a percentage that are whole numbers
            if rng.random() < 0.05:
                n = rng.randrange(160, 600)
            j = {"c": c, "rec": gen_rec(rng, n), "pct": pick_pct(rng, n), "lay": rng.choice(("c", "c", "c", "stride", "ro", "neg", "field", "int"))}
            if rng.random() < 0.03:
                j["pct"] = rng.choice((100.5, 101, 150, 1000))
            r = rng.random()
            if r < 0.6 and n <= 160:
                st = {"kind": rng.choice(KINDS), "seed": rng.randrange(1 << 30), "len": rng.choice((600, 624, 300, 100, 40, 10)),
                      "pos": rng.choice((0, 0, 0, 1, 600, 622, 623, 624)), "m": rng.choice((2, 3, 5))}
                if rng.random() < 0.5:
                    st["gauss"] = rng.choice((0.0, -0.0, 1e-300, 8.5, -8.5, -1.0, 0.5))
                j["state"] = st
            elif r < 0.8:
                j["seed"] = rng.randrange(1 << 31)
            jobs.append(j)
    return {"sched": bench.sched(rng, nc), "jobs": jobs}


def counts_allowed(n, pct):
    f = Fraction(str(pct))
    if f.denominator == 1:                               # a whole percentage: no rounding excuses another number
        return {math.floor(f * n / 100)}
    return {int(n * pct / 100), int(n * (pct / 100)), math.floor(f * n / 100)}


def contract(b, x, out, pct):
    """Check one result; returns (indices, e) of the changes."""
    n = x.size
    tag = f"synthetic_noise(n={n}, percent={pct})"
    out = np.asarray(out)
    if out.shape != x.shape or out.dtype.kind != "f":
        b.fail("shape", f"{tag} returned {out.dtype} {out.shape}")
    idx = np.nonzero(out != x)[0]
    if idx.size not in counts_allowed(n, pct):
        b.fail("count", f"{tag} changed {idx.size} samples, expected {int(n * pct / 100)}")
    if idx.size == 0:
        return idx, np.array([])
    mean = float(np.sum(x) / n)
    d = (out - x)[idx]
    sign = np.sign(mean) * np.where(np.arange(idx.size) % 2 == 0, 1, -1)
    if (np.sign(d) != sign).any():
        b.fail("sign", f"{tag}: signs of the changes in time order are {np.sign(d)[:8]}, expected {sign[:8]} (mean {mean:.4g})")
    e = np.abs(d) / abs(mean) - pct
    tol = 1e-9 * (np.abs(x).max() / abs(mean) + pct + 1)
    if (e < -tol).any() or (e > 0.05 * 13 + tol).any():
        k = int(np.argmax((e < -tol) | (e > 0.65 + tol)))
        b.fail("size", f"{tag}: change {k} (sample {idx[k]}) is {d[k]:.6g} with mean {mean:.6g}: excess {e[k]:.6g} is not in [0, 0.65]")
    return idx, e


def job(b, cl, j):
    x = probe.record(j["rec"])
    if abs(x.mean()) < 1e-2 * np.abs(x).max() or x.mean() == 0:
        x = x + abs(j["rec"]["mean"]) + np.abs(x).max()          # the contract is stated for a mean that is not zero
    if "state" in j:
        np.random.set_state(chosen_state(j["state"], x.size))
        b.fault("chosen generator state: " + j["state"]["kind"])
        if "gauss" in j["state"]:
            b.fault("pending extreme deviate")
    elif "seed" in j:
        np.random.seed(j["seed"])
    a = probe.layout(x, j["lay"])[0]
    if j["lay"] == "int":
        x = np.array(a, dtype=float)                             # whole numbers: the record is what was handed over
        if x.mean() == 0 or abs(x.mean()) < 1e-2 * np.abs(x).max():
            x = x + (1 + np.abs(x).max()) * (1 if x.mean() >= 0 else -1)
            a = x.astype(np.asarray(a).dtype)
    if j["pct"] > 100:
        b.fault("percentage above 100")
        res = b.call(cl, "synthetic", [a, j["pct"]], budget=400_000 + 10 * x.size ** 2)
        if res[0] != "err" or res[1] != "ValueError":
            b.fail("above-100", f"percent={j['pct']} gave {res[0]} {res[1] if res[0] != 'ok' else ''} instead of ValueError")
        return
    out = b.value(cl, "synthetic", [a, j["pct"]], what=f"(n={x.size}, percent={j['pct']})", budget=400_000 + 10 * x.size ** 2)
    idx, e = contract(b, x, out, j["pct"])
    if idx.size > 1:
        b.probe("several samples polluted")
    if idx.size == x.size:
        b.probe("every sample polluted")


def ensemble(b, cl, j):
    x = probe.record(j["rec"])
    n, pct, m = j["n"], j["pct"], j["calls"]
    k = int(n * pct / 100)
    counts, es = np.zeros(n), []
    if j["mode"] == "one":
        np.random.seed(j["seed"])
    for t in range(m):
        if j["mode"] == "each":
            np.random.seed((j["seed"] + 7919 * t) % (1 << 32))
        out = b.value(cl, "synthetic", [x, pct], budget=400_000 + 10 * x.size ** 2)
        idx, e = contract(b, x, out, pct)
        counts[idx] += 1
        es.append(e)
    b.fault("ensemble of generator states", m)
    p = k / n
    z = (counts - m * p) / math.sqrt(m * p * (1 - p))
    if np.abs(z).max() > 6.5:
        i = int(np.argmax(np.abs(z)))
        b.fail("bias", f"over {m} calls with n={n}, percent={pct}, sample {i} was chosen {int(counts[i])} times; equally likely "
               f"choice gives {m * p:.0f} +- {math.sqrt(m * p * (1 - p)):.0f} ({z[i]:.1f} sigma)")
    if n >= 5:
        # pooled: whole stretches of the record (hypergeometric counts per call)
        for lo, hi, where in ((0, n // 2, "first half"), (0, (n + 3) // 4, "first quarter"), (n - (n + 3) // 4, n, "last quarter"),
                              (n // 4, n // 4 + n // 2, "middle")):
            s = hi - lo
            var = m * k * (s / n) * (1 - s / n) * (n - k) / (n - 1)
            zz = (counts[lo:hi].sum() - m * k * s / n) / math.sqrt(var)
            if abs(zz) > 6.5:
                b.fail("bias", f"over {m} calls with n={n}, percent={pct}, the {where} of the record was chosen "
                       f"{int(counts[lo:hi].sum())} times; equally likely choice gives {m * k * s / n:.0f} ({zz:.1f} sigma)")
        odd = counts[1::2].sum()
        s = counts[1::2].size
        zz = (odd - m * k * s / n) / math.sqrt(m * k * (s / n) * (1 - s / n) * (n - k) / (n - 1))
        if abs(zz) > 6.5:
            b.fail("bias", f"over {m} calls with n={n}, percent={pct}, odd samples were chosen {int(odd)} times ({zz:.1f} sigma)")
    u = np.concatenate(es) / 0.05
    N = u.size
    for name, val, mu, var in (("mean", u.mean(), math.sqrt(2 / math.pi), 1 - 2 / math.pi), ("mean square", (u * u).mean(), 1.0, 2.0),
                               ("share below the median", (u < 0.6744897501960817).mean(), 0.5, 0.25)):
        zz = (val - mu) / math.sqrt(var / N)
        if abs(zz) > 6.5:
            b.fail("distribution", f"excess / 0.05 over {N} changes (n={n}, percent={pct}): {name} is {val:.4f}, a half-normal "
                   f"variable has {mu:.4f} ({zz:.1f} sigma)")
    for lim in (2.0, 2.5, 3.0):                              # the tails, by exact bounds
        pt = math.erfc(lim / math.sqrt(2))
        got, mu = int((u > lim).sum()), N * pt
        # Chernoff bound of a binomial count: both tails
        if got != mu and mu > 0:
            r = got / N
            dkl = (r * math.log(r / pt) if r else 0.0) + ((1 - r) * math.log((1 - r) / (1 - pt)) if r < 1 else 0.0)
            if N * dkl > 24:
                b.fail("distribution", f"{got} of {N} excesses (n={n}, percent={pct}) are above {lim} times the scale, a half-normal "
                       f"variable gives {mu:.1f} (probability below {2 * math.exp(-N * dkl):.1g})")
    if k >= 2:
        v = np.array([(e[1:] / 0.05 - math.sqrt(2 / math.pi)) * (e[:-1] / 0.05 - math.sqrt(2 / math.pi)) for e in es]).ravel()
        zz = v.mean() / ((1 - 2 / math.pi) / math.sqrt(v.size))
        if abs(zz) > 7.5:
            b.fail("distribution", f"the excesses of neighbouring changes in a call are correlated ({zz:.1f} sigma over {v.size} pairs)")
    b.probe("ensemble")


def run(sc):
    if "ensemble" in sc:
        sc = {"jobs": [dict(sc["ensemble"], c=0)], "sched": {"mode": "serial"}, "max_events": 40_000_000}
        return bench.Bench(sc, ensemble).run()
    return bench.Bench(sc, job).run()


def shrink_job(j):
    if j["lay"] != "c":
        yield dict(j, lay="c")
    if "state" in j:
        k = dict(j, seed=1)
        k.pop("state")
        yield k
        st = j["state"]
        if "gauss" in st:
            yield dict(j, state={a: v for a, v in st.items() if a != "gauss"})
        for ln in (10, 40):
            if st.get("len", 600) > ln:
                yield dict(j, state=dict(st, len=ln))
    n = j["rec"]["n"]
    for m in (1, 2, 3, n // 2, n - 1):
        if 1 <= m < n:
            yield dict(j, rec=dict(j["rec"], n=m))


def shrink(sc):
    if "ensemble" in sc:
        return []
    return bench.shrink_jobs(sc, shrink_job)
