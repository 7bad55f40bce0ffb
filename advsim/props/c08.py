"""C08: streaming filters: cutting and restarting a record changes nothing."""
import numpy as np

from .. import lib, probe
from . import bench, common
from .c07 import args

ID = "C08"
RUNS = {"quick": 18000, "thorough": 120000}
RULE = ("Each run simulates one to three processors that smooth a growing record while samples arrive in simulated time. A "
        "processor crashes at chosen points (before the call, at a chosen yield point inside the smoother, between the "
        "smoother and the output write, between the output write and the checkpoint), loses everything but its durable "
        "store (outputs written, checkpoint, raw samples), restarts with a newly imported package and resumes. The outputs "
        "written are compared with one uninterrupted call on the whole record, and prefixes with the whole. Non-trivial: a "
        "crash or preemption took place.")
MEASURE = "SHA-256 over results, crash points and preemption points"
COMPONENTS = dict(common.COMPONENTS, stub=["the durable store (an in-memory dictionary that survives a crash)"])
ASSUMPTIONS = ["floating-point records", "agreement is judged to 1e-10 of the record's magnitude",
               "the harness computes the Kalman covariance after a restart from the filter's model"]


def gen_job(rng, c):
    op = rng.choice(("ema", "ma", "wma", "kalman"))
    nmax = 50 if op == "kalman" else 160
    n = rng.choice((rng.randrange(2, 10), rng.randrange(6, 40), rng.randrange(20, nmax)))
    if rng.random() < 0.06:
        n = rng.randrange(nmax, 500 if op == "kalman" else 1500)
    rec = probe.spec(rng, n, faults=[f for f in probe.faults(rng, n, kinds=("spike", "burst", "drop", "stuck"), most=2, gross=True)])
    j = {"c": c, "op": op, "rec": rec, "lay": rng.choice(("c", "c", "stride", "ro"))}
    if op in ("ma", "wma"):
        j["w"] = max(1, min(rng.choice((1, 2, 3, 5, 8, 20, rng.randrange(1, n + 1), n // 2, n)), n))
    elif op == "ema":
        j["alpha"] = rng.choice((0.2, 0.5, 0.05, 1.0, 0.002, round(rng.uniform(0.02, 0.99), 3)))
    else:
        j.update(s=round(rng.uniform(-3, 3), 2), p=rng.choice((1.0, 0.1, 10.0, 100.0)), q=rng.choice((1e-3, 0.1, 0.5, 1e-6, 0.0, 20.0)),
                 r=rng.choice((0.1, 1.0, 4.0, 0.01, 100.0)))
    # arrivals: the record grows in chunks; every chunk is processed, with a crash now and then
    chunks, left = [], n
    while left:
        k = min(left, rng.choice((1, 1, 2, 3, 5, 8, 13, left)) if n <= 200 else rng.choice((1, 13, 64, 100, 300, left)))
        chunks.append(k)
        left -= k
    steps = []
    for k in chunks:
        st = {"k": k}
        if rng.random() < 0.3:
            st["crash"] = rng.choice(("before", "inside", "inside", "output", "checkpoint"))
            st["at"] = int(10 ** rng.uniform(0, 2.3))
        steps.append(st)
    j["steps"] = steps
    j["cuts"] = sorted({rng.randrange(1, n + 1) for _ in range(rng.choice((1, 2, 3)))})
    return j


def gen(rng, i, tier):
    nc = rng.choice((1, 1, 2, 3))
    return {"sched": bench.sched(rng, nc), "jobs": [gen_job(rng, c) for c in range(nc)]}


class Crash(Exception):
    pass


def covariance(j, m):
    p = j["p"]
    for _ in range(m):
        p = p + j["q"]
        p = (1 - p / (p + j["r"])) * p
    return p


def job(b, cl, j):
    x = probe.record(j["rec"])
    n, op, w = x.size, j["op"], j.get("w", 0)
    lay = lambda a: probe.layout(np.array(a, dtype=float), j["lay"])[0]
    flat = lambda y: np.asarray(y, dtype=float).reshape(-1)
    what = f"({ {k: j[k] for k in ('w', 'alpha', 's', 'p', 'q', 'r') if k in j} })"
    full = flat(b.value(cl, op, args(j, lay(x)), what=what))
    tol = 1e-10 * (np.abs(x).max() + abs(j.get("s", 0)) + 1e-300)
    same = lambda a, c: a.shape == c.shape and bool((np.abs(a - c) <= tol).all())
    lag = w if op == "wma" else 0
    if full.size != n - lag:
        b.fail("length", f"{op}{what}: {full.size} outputs for {n} samples", op=op)
    # causality: stop the acquisition at m
    for m in j["cuts"]:
        if m < max(1, w):
            continue
        y = flat(b.value(cl, op, args(j, lay(x[:m])), what=what))
        b.probe("prefix compared")
        if not same(y, full[:m - lag]):
            b.fail("not-causal", f"{op}{what}: the first {m} samples alone give {y[-3:]} at the end, the whole record of {n} "
                   f"gives {full[:m - lag][-3:]} there", op=op)
    # a processor with crashes
    disk = {"raw": [], "out": [], "done": 0}                 # what survives
    def resume(upto, hit):
        m, k = disk["done"], upto
        if op == "ema":
            if m == 0:
                return b_value(args(j, lay(x[:k])), hit)
            return b_value([lay(np.concatenate(([disk["out"][m - 1]], x[m:k]))), j["alpha"]], hit)[1:]
        if op == "ma":
            if m < w:
                if k < w:
                    return np.array([x[:i + 1].mean() for i in range(m, k)])      # not enough samples for a call
                return b_value(args(j, lay(x[:k])), hit)[m:]
            return b_value(args(j, lay(x[m - w:k])), hit)[w:]
        if op == "wma":
            if k < w:
                return np.array([])
            return b_value(args(j, lay(x[max(0, m - w):k])), hit)
        st = j["s"] if m == 0 else disk["out"][m - 1]
        return b_value([lay(x[m:k]), np.array([[st]]), np.array([[covariance(j, m)]]), np.array([[j["q"]]]),
                        np.array([[j["r"]]])], hit)

    def b_value(a, hit):
        res = b.sim_call(cl, op, a, hit)
        if cl.fired is not None:
            raise Crash()
        if res[0] != "ok":
            b.fail("raised", f"{op}{what} on a resumed segment of {a[0].size} samples: {res[1:]}", op=op)
        return flat(res[1])

    acquired = 0
    for st in j["steps"]:
        acquired += st["k"]
        b.sim.sleep(cl, 0.02 * st["k"])                          # samples arrive
        crash = st.get("crash")
        while True:
            try:
                if crash == "before":
                    raise Crash()
                hit = {"exc": "KeyboardInterrupt", "at": st["at"]} if crash == "inside" else None
                y = resume(acquired, hit)
                if crash == "output":
                    raise Crash()
                base = max(0, disk["done"] - w) if op == "wma" else disk["done"]
                disk["out"][base:] = list(y)                     # idempotent: written by position
                if crash == "checkpoint":
                    raise Crash()
                disk["done"] = acquired
                break
            except Crash:
                b.fault("crash " + crash)
                b.sim.note("crash", cl.cid, crash, disk["done"], acquired)
                crash = None
                lib.fresh()                                      # a new process imports the package again
                b.sim.sleep(cl, 0.5)
    out = np.array(disk["out"])
    if not same(out, full):
        k = int(np.argmax(np.abs(out - full) > tol)) if out.shape == full.shape else min(out.size, full.size)
        b.fail("restart-differs", f"{op}{what}, n={n}: output {k} is {out[k:k + 1]} from a processor that resumed in steps of "
               f"{[s['k'] for s in j['steps']]}, {full[k:k + 1]} from one call", op=op)


class Station(bench.Bench):
    def sim_call(self, cl, name, a, hit):
        from .. import ops
        from ..sim import Abort
        if self.sim.aborting:
            raise Abort()
        self.ops.add(name)
        self.calls += 1
        res = self.sim.call(cl, lib.resolve(ops.OPS[name].target), a, {}, fault=hit, budget=bench.BUDGET)
        if self.sim.aborting:
            raise Abort()
        self.sim.note("call", cl.cid, name, res[0], a[0].size)
        return res


def run(sc):
    return Station(sc, job).run()


def shrink_job(j):
    for i, st in enumerate(j["steps"]):
        if "crash" in st:
            yield dict(j, steps=j["steps"][:i] + [{"k": st["k"]}] + j["steps"][i + 1:])
    for i in range(len(j["steps"]) - 1):
        a, c = j["steps"][i], j["steps"][i + 1]
        yield dict(j, steps=j["steps"][:i] + [dict(c, k=a["k"] + c["k"])] + j["steps"][i + 2:])
    if j["cuts"]:
        yield dict(j, cuts=j["cuts"][1:])
    for i in range(len(j["rec"].get("faults", []))):
        yield dict(j, rec=dict(j["rec"], faults=j["rec"]["faults"][:i] + j["rec"]["faults"][i + 1:]))
    if len(j["steps"]) > 1:
        k = j["steps"][-1]["k"]
        n = j["rec"]["n"] - k
        if n >= max(2, j.get("w", 0)):
            yield dict(j, steps=j["steps"][:-1], rec=dict(j["rec"], n=n), cuts=[c for c in j["cuts"] if c <= n])
    if j["lay"] != "c":
        yield dict(j, lay="c")


def shrink(sc):
    return bench.shrink_jobs(sc, shrink_job)
