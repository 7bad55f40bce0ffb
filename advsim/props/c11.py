"""C11: iterated despiking removes every gross spike and touches nothing else."""
import numpy as np

from .. import probe
from . import bench, common

ID = "C11"
RUNS = {"quick": 5000, "thorough": 50000}
RULE = ("Each run puts one to three despiking loops (detect, replace, repeat, at most ten rounds) on turbulent records in which "
        "the simulated velocimeter produced bursts of one to three gross spikes (10 to 60 standard deviations, either sign, any "
        "position, at least twelve samples apart); loops are preempted, and calls interrupted and repeated. Afterwards every "
        "spiked sample has to be within six standard deviations of the undisturbed flow's mean, and a sample that no round "
        "flagged must have kept its value. Non-trivial: at least one spike was injected.")
MEASURE = "SHA-256 over results of all rounds, preemption points and fired faults"
COMPONENTS = common.COMPONENTS
ASSUMPTIONS = ["records of 100 to 320 samples of white or first-order autoregressive turbulence, at most one burst per 60 samples",
               "velocity correlation: the spikes are on the first component (spikes on another, or on all, can make its ellipse degenerate)",
               "acceleration thresholding: sampling fast enough that a spike exceeds the gravity limit, first sample sound",
               "ten rounds and six standard deviations are the bounds demanded; 11,000 calibration records needed at most four "
               "standard deviations"]
LOOPS = (("pst", "r_linear"), ("pst", "r_mean"), ("pst", "r_last"), ("pst", "r_cubic"), ("sph", "r_linear"), ("sph", "r_mean"),
         ("sph", "r_cubic"), ("vc", "r_mean"), ("vc", "r_linear"), ("acc", "r_last"))
ROUNDS = 10


def bursts(rng, n, first=0):
    out, used = [], set()
    for _ in range(rng.randrange(1, max(1, n // 60) + 1)):
        ln = rng.choice((1, 1, 2, 3))
        i = rng.choice((first, n - ln)) if rng.random() < 0.15 else rng.randrange(first, n - ln)
        if any(k in used for k in range(i - 12, i + ln + 12)):
            continue
        used.update(range(i, i + ln))
        out.append(["burst", i, ln, round(rng.choice((-1, 1)) * rng.uniform(10, 60), 2)])
    return out


def gen_job(rng, c):
    det, rep = rng.choice(LOOPS)
    n = rng.choice((100, 120, 200, rng.randrange(100, 320)))
    if det == "sph":
        n = min(n, 200)
    if rng.random() < 0.05:
        n = rng.randrange(320, 1500)
    sd = rng.choice((1.0, 3.0, 12.0)) if det != "acc" else rng.choice((3.0, 12.0))
    rec = {"n": n, "seed": rng.randrange(1 << 30), "kind": rng.choice(("turb", "white")), "sd": sd,
           "mean": rng.choice((0.0, 0.0, 5.0, -30.0)), "faults": bursts(rng, n, 1 if det == "acc" else 0)}
    j = {"c": c, "det": det, "rep": rep, "rec": rec, "f": 200, "hit": bench.hit(rng, 0.2), "lay": rng.choice(("c", "stride", "ro"))}
    if det == "vc":
        j["others"] = [rng.randrange(1 << 30) for _ in range(2)]
        j["which"] = 0
    return j


def gen(rng, i, tier):
    nc = rng.choice((1, 1, 2, 3))
    return {"sched": bench.sched(rng, nc), "jobs": [gen_job(rng, c) for c in range(nc)]}


def detect(b, cl, j, comps, hit, rnd):
    lay = lambda x: probe.layout(x, j["lay"])[0]
    if j["det"] == "pst":
        return b.value(cl, "pst", [lay(comps[0] - comps[0].mean())], hit=hit)
    if j["det"] == "sph":
        return b.value(cl, "sph", [lay(comps[0]), 1, 0.0], hit=hit)
    if j["det"] == "vc":
        return b.value(cl, "vc", [lay(c) for c in comps], hit=hit)
    a = b.value(cl, "acc", [lay(comps[0]), j["f"], 1], hit=hit)
    c = b.value(cl, "acc", [lay(comps[0]), j["f"], 2])
    return np.union1d(a, c)


def job(b, cl, j):
    x = probe.record(j["rec"])
    n, sd, mean = x.size, j["rec"]["sd"], j["rec"]["mean"]
    spiked = sorted({k for f in j["rec"]["faults"] for k in range(f[1], min(n, f[1] + f[2]))})
    for f in j["rec"]["faults"]:
        b.fault(f"gross burst of {f[2]}")
    comps = [x]
    if j["det"] == "vc":
        comps = [probe.record(dict(j["rec"], seed=s, faults=[])) for s in j["others"]]
        comps.insert(j["which"], x)
    me = j["which"] if j["det"] == "vc" else 0
    start = [c.copy() for c in comps]
    touched = set()
    rounds = 0
    for r in range(ROUNDS):
        idx = np.asarray(detect(b, cl, j, comps, j.get("hit") if r == 0 else None, r))
        b.sim.sleep(cl, 0.1)
        if idx.size == 0:
            break
        rounds += 1
        touched.update(int(i) for i in idx)
        comps = [np.asarray(b.value(cl, j["rep"], [probe.layout(c, j["lay"])[0], idx])) for c in comps]
    b.probe(f"rounds: {rounds}")
    tag = f"{j['det']}+{j['rep']} (n={n}, bursts {j['rec']['faults']})"
    y = comps[me]
    if y.shape != x.shape:
        b.fail("shape", f"{tag}: record of {x.shape} became {y.shape}")
    if spiked:
        m = np.abs(y[spiked] - mean) / sd
        if not (m <= 6).all():
            k = spiked[int(np.argmax(~(m <= 6)))]
            b.fail("spike-survived", f"{tag}: after {rounds} rounds the spike at {k} is still {(y[k] - mean) / sd:.2f} standard "
                   f"deviations from the mean", op=j["det"])
    keep = np.setdiff1d(np.arange(n), sorted(touched))
    for s, c in zip(start, comps):
        d = np.abs(s[keep] - c[keep])
        if not (d <= 5.1e-5).all():
            k = int(keep[np.argmax(~(d <= 5.1e-5))])
            b.fail("valid-sample-changed", f"{tag}: sample {k} was never flagged; {s[k]!r} became {c[k]!r}", op=j["rep"])


def run(sc):
    return bench.Bench(sc, job).run()


def shrink_job(j):
    fs = j["rec"]["faults"]
    for i in range(len(fs)):
        if len(fs) > 1:
            yield dict(j, rec=dict(j["rec"], faults=fs[:i] + fs[i + 1:]))
        if fs[i][2] > 1:
            yield dict(j, rec=dict(j["rec"], faults=fs[:i] + [[fs[i][0], fs[i][1], fs[i][2] - 1, fs[i][3]]] + fs[i + 1:]))
    if j["lay"] != "c":
        yield dict(j, lay="c")


def shrink(sc):
    return bench.shrink_jobs(sc, shrink_job)
