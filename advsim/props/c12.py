"""C12: a processing station ends with the sequential answer despite faults."""
import hashlib

import numpy as np

from .. import lib, ops, probe
from ..session import in_fork, quiet
from ..sim import Abort, Sim
from ..value import brief, canon, same
from . import bench, common

ID = "C12"
RUNS = {"quick": 4500, "thorough": 40000}
RULE = ("Each run is a whole station: a source sends blocks of samples over a network that delays, reorders, duplicates and "
        "loses messages (lost ones are sent again after a timeout); two to four workers lease blocks from a queue and clean "
        "them with a pipeline of library calls on arrays they share; workers stall past their lease, are interrupted and "
        "repeat the call, or die inside a call and restart, and expired leases are handed to others. Every completion, late "
        "duplicates included, is compared with what one fault-free worker computes for that block in a fresh process, and all "
        "blocks must be archived within a bounded simulated time after the last fault. Non-trivial: a fault was injected or a "
        "preemption took place.")
MEASURE = "SHA-256 over deliveries, leases, results, preemption points and fired faults"
COMPONENTS = {"real": ["the whole proadv package, loaded from /repo with yield points woven in", "numpy, scipy, scikit-learn"],
              "simulated": ["network", "workers' scheduling, stalls, crashes and restarts", "time", "velocimeters"],
              "stub": ["queue with leases and archive (in memory, atomic)"]}
ASSUMPTIONS = ["the queue and the archive of the station are part of the simulator", "a worker that dies takes no other thread with it"]
LEASE, RESEND, RESTART = 3.0, 2.0, 0.7


# --------------------------------------------------------------------- pipelines: (call, arrays) -> values

def p_pst(call, x):
    idx = call("pst", [x - call("mean", [x])])
    y = call("r_linear", [x, idx])
    return idx, y, call("std", [y]), call("ema", [y, 0.3])


def p_sph(call, x):
    idx = call("sph", [x, 1, 0.0])
    y = call("r_mean", [x, idx])
    return idx, y, call("ma", [y, 5]), call("skewness", [y])


def p_vc(call, u, v, w):
    idx = call("vc", [u, v, w])
    u, v, w = (call("r_last", [c, idx]) for c in (u, v, w))
    return idx, u, v, w, call("tke", [u, v, w]), call("reynolds", [u, v, w])


def p_kernel(call, x):
    idx = call("k3", [x, 8])
    return idx, call("r_median", [x, idx]), call("spectrum", [x, 50.0], {"block": 8, "overlap": 4})


def p_premod(call, x):
    y, keep = call("premod", [x])
    f = call("kalman", [y] + [np.array([[v]]) for v in (0.0, 1.0, 0.1, 0.5)])
    return y, keep, np.array(f).ravel(), call("median", [y])


def p_acc(call, x):
    a = call("acc", [x, 200, 1])
    y = call("r_cubic", [x, a])
    b = call("acc", [y, 200, 2])
    z = call("r_poly", [y, b])
    return a, b, z, call("wma", [z, 4]), call("kurtosis", [z])


def p_stats(call, x):
    return tuple(call(n, [x]) for n in ("min", "max", "mean", "median", "mode", "variance", "std", "skewness", "kurtosis"))


def p_fit(call, x):
    m = call("fminbound", [lambda t: float(((x - t) ** 2).mean()), float(x.min()) - 1, float(x.max()) + 1], {"detailed_output": True})
    r = call("brentq", [lambda t: float(np.tanh(x - t).sum()), float(x.min()) - 1, float(x.max()) + 1])
    return m, r, call("butter", [4, 0.25], {"btype": "lp", "output": "sop"}), call("cdf", [np.array([m[0] / 50, r / 50])])


def p_ssa(call, x):
    idx = call("pst", [x - call("mean", [x])])
    return idx, call("r_ssa", [x[:40], idx[idx < 40], 50, 10]), call("pollution", [x, np.abs(x), 1.0])


PIPES = {"pst": (p_pst, 1), "sph": (p_sph, 1), "vc": (p_vc, 3), "kernel": (p_kernel, 1), "premod": (p_premod, 1), "acc": (p_acc, 1),
         "stats": (p_stats, 1), "fit": (p_fit, 1), "ssa": (p_ssa, 1)}


# --------------------------------------------------------------------- scenarios

def gen(rng, i, tier):
    nb = rng.choice((2, 3, 4, 6))
    nw = rng.choice((2, 2, 3, 4))
    kinds = rng.sample(sorted(PIPES), rng.choice((1, 2, 3)))
    n = rng.choice((48, 64, rng.randrange(40, 120)))
    if rng.random() < 0.04:
        n = rng.randrange(120, 900)
    blocks = []
    for k in range(nb):
        pipe = rng.choice(kinds)
        recs = []
        m = n if rng.random() < 0.75 else rng.randrange(40, 120)
        for _ in range(PIPES[pipe][1]):
            recs.append(probe.spec(rng, m, kind=rng.choice(("turb", "white", "sine")), faults=probe.faults(rng, m, gross=True)))
        if blocks and rng.random() < 0.25:                     # another product of the same samples
            src = rng.choice(blocks)
            if PIPES[src["pipe"]][1] == PIPES[pipe][1]:
                recs = src["recs"]
                if rng.random() < 0.4:                         # a corrected block: nearly the same samples
                    f = rng.choice((1.0, 1.002, 1.01, 0.99))
                    recs = [dict(r, sd=r.get("sd", 1.0) * f, faults=r.get("faults", []) + [["spike", rng.randrange(m), rng.uniform(-1, 1)]])
                            for r in recs]
        d = round(rng.uniform(0, 2), 3)
        sends = [d] if rng.random() > 0.1 else []              # a lost message
        if rng.random() < 0.3:
            sends.append(round(d + rng.uniform(0, 6), 3))      # delivered again
        if not sends:
            sends = [round(d + RESEND + rng.uniform(0, 1), 3)]
            lost = 1
        else:
            lost = 0
        blocks.append({"pipe": pipe, "recs": recs, "sends": sends, "lost": lost})
    events = []
    for _ in range(rng.choice((0, 1, 1, 2, 3, 5))):
        w = rng.randrange(nw)
        k = rng.choice(("crash", "crash", "interrupt", "stall", "stall"))
        e = {"w": w, "call": rng.randrange(0, 8), "kind": k}
        if k in ("crash", "interrupt"):
            e["at"] = int(10 ** rng.uniform(0, 3))
            e["exc"] = rng.choice(("KeyboardInterrupt", "MemoryError"))
        else:
            e["s"] = round(rng.choice((0.5, LEASE * 1.2, LEASE * 3)), 2)
        events.append(e)
    sched = {"mode": "walk", "p": rng.choice((0.3, 0.1, 0.02, 0.005)), "seed": rng.randrange(1 << 30)}
    return {"blocks": blocks, "workers": nw, "events": events, "sched": sched, "share": rng.random() < 0.8,
            "slow": [rng.choice((1, 1, 1, 10)) for _ in range(nw)]}


class Died(Exception):
    pass


def arrays(blk):
    return [probe.record(r) for r in blk["recs"]]


def digest(v):
    return canon(v)


def reference(sc):
    """One fault-free worker, block by block, each in a process where the package has just been imported."""
    out = []
    for blk in sc["blocks"]:
        def body(blk=blk):
            quiet()
            sim = Sim({"mode": "serial", "gran": "line"}, max_events=20_000_000)
            got = []

            def work(cl):
                def call(name, a, kw=None):
                    res = sim.call(cl, lib.resolve(ops.OPS[name].target), a, kw or {}, budget=2_000_000)
                    if res[0] != "ok":
                        raise LookupError(res[1])
                    return res[1]
                try:
                    got.append(("ok", canon(PIPES[blk["pipe"]][0](call, *arrays(blk)))))
                except LookupError as e:
                    got.append(("err", str(e)))
            sim.spawn(work)
            sim.run()
            return got[0] + (sim.total,)
        out.append(in_fork(body))
    return out


class Station:
    def __init__(self, sc):
        self.sc = sc
        self.violation = None
        self.faults, self.probes = {}, {}
        self.calls, self.ops = 0, set()
        self.history = []

    def fault(self, k):
        self.faults[k] = self.faults.get(k, 0) + 1
        self.last_fault = self.sim.now

    def fail(self, kind, detail):
        if self.violation is None:
            self.violation = {"kind": kind, "detail": detail, "t": round(self.sim.now, 4)}
        self.sim.aborting = self.sim.aborting or "violation"
        raise Abort()

    # ------------------------------------------------------------ queue and archive
    def deliver(self, b, again):
        self.sim.note("deliver", b, "again" if again else "")
        if again:
            self.fault("duplicate delivery")
        if b not in self.archive:
            self.queue.append(b)
        else:
            self.late.append(b)                                # the station works on it once more: at-least-once
            self.queue.append(b)

    def lease(self, wid):
        now = self.sim.now
        for b in sorted(self.leases):
            if self.leases[b][1] < now:
                self.sim.note("expired", b)
                del self.leases[b]
                if b not in self.archive:
                    self.queue.append(b)
        for i, b in enumerate(self.queue):
            if b not in self.leases:
                self.queue.pop(i)
                self.leases[b] = (wid, now + LEASE)
                return b
        return None

    def complete(self, wid, b, out):
        self.sim.note("complete", wid, b, hashlib.sha256(repr(out).encode()).hexdigest()[:12])
        ref = self.ref[b]
        ok = out[0] == ref[0] and (same(out[1], ref[1]) if out[0] == "ok" else out[1] == ref[1])
        if not ok:
            self.fail("result-differs", f"block {b} ({self.sc['blocks'][b]['pipe']}), worker {wid}: "
                      f"{brief(out[1]) if out[0] == 'ok' else out}; a single fault-free worker gets "
                      f"{brief(ref[1]) if ref[0] == 'ok' else ref}")
        if b in self.archive:
            self.probes["completed twice"] = self.probes.get("completed twice", 0) + 1
        self.archive[b] = out
        if self.leases.get(b, (None,))[0] == wid:
            del self.leases[b]

    def finished(self):
        return len(self.archive) == len(self.sc["blocks"]) and not self.queue and self.pending == 0

    # ------------------------------------------------------------ workers
    def worker(self, cl):
        quiet()
        sim, wid = self.sim, cl.cid
        ncall = 0
        events = {}
        for e in self.sc["events"]:
            if e["w"] == wid:
                events.setdefault(e["call"], []).append(e)
        bound = self.bound

        def call(name, a, kw=None):
            nonlocal ncall
            hit = None
            crash = False
            for e in events.pop(ncall, ()):
                if e["kind"] == "stall":
                    self.fault("worker stalled")
                    sim.sleep(cl, e["s"])
                else:
                    hit, crash = {"exc": e["exc"], "at": e["at"]}, e["kind"] == "crash"
            ncall += 1
            while True:
                if sim.aborting:
                    raise Abort()
                res = sim.call(cl, lib.resolve(ops.OPS[name].target), a, kw or {}, fault=hit, budget=2_000_000)
                if sim.aborting:
                    raise Abort()
                self.calls += 1
                self.ops.add(name)
                if cl.fired is not None:
                    if crash:
                        self.fault("worker died inside a call")
                        raise Died()
                    self.fault("call interrupted, repeated")
                    hit = None
                    continue
                if res[0] == "hang":
                    self.fail("hang", f"{name} did not finish within {res[1]} steps (worker {wid})")
                if res[0] == "err":
                    raise LookupError(res[1])
                return res[1]

        while not self.finished():
            if sim.aborting:
                raise Abort()
            if sim.now > self.last_fault + bound:
                self.fail("no-progress", f"{len(self.archive)} of {len(self.sc['blocks'])} blocks archived {bound:.0f} s after the last fault")
            b = self.lease(wid)
            if b is None:
                sim.sleep(cl, 0.05)
                continue
            blk = self.sc["blocks"][b]
            xs = self.samples[b] if self.sc["share"] else arrays(blk)
            try:
                out = ("ok", canon(PIPES[blk["pipe"]][0](call, *xs)))
            except LookupError as e:
                out = ("err", str(e))
            except Died:
                sim.note("died", wid, b)
                sim.sleep(cl, RESTART)
                continue
            self.history.append({"worker": wid, "block": b, "t": round(sim.now, 4)})
            self.complete(wid, b, out)
            sim.sleep(cl, 0.01)

    def run(self):
        quiet()
        sc = self.sc
        self.ref = reference(sc)
        work = 1e-4 * sum(r[2] for r in self.ref)              # seconds of one ordinary worker
        self.bound = 60.0 + (20.0 * len(sc["blocks"]) + 10 * work) * max(sc["slow"])
        self.queue, self.leases, self.archive, self.late = [], {}, {}, []
        self.samples = [arrays(b) for b in sc["blocks"]]
        self.sim = Sim(dict(sc["sched"], gran="line"), max_events=8_000_000 + 60 * sum(r[2] for r in self.ref))
        self.last_fault = 0.0
        self.pending = sum(len(b["sends"]) for b in sc["blocks"])
        order = []
        for k, blk in enumerate(sc["blocks"]):
            if blk.get("lost"):
                self.fault("message lost")
            for t, d in enumerate(sorted(blk["sends"])):
                order.append((d, k))
                def arrive(k=k, t=t):
                    self.pending -= 1
                    self.deliver(k, t > 0)
                self.sim.after(d, arrive)
        if [k for _, k in sorted(order)] != sorted(k for _, k in order):
            self.fault("reordered delivery")
        for w in range(sc["workers"]):
            self.sim.spawn(self.worker, 1e-4 * sc["slow"][w])
        self.sim.run()
        s = self.sim
        if self.violation is None and s.aborting in ("deadlock", "event-limit"):
            self.violation = {"kind": "no-progress", "detail": f"the station stopped: {s.aborting}", "t": s.now}
        if self.violation is None:
            for b, xs in enumerate(self.samples):
                for x, y in zip(xs, arrays(sc["blocks"][b])):
                    if x.tobytes() != y.tobytes():
                        self.violation = {"kind": "samples-changed", "detail": f"the raw samples of block {b} are not what was delivered", "t": s.now}
        if self.violation is None and len(self.archive) != len(sc["blocks"]):
            self.violation = {"kind": "lost-block", "detail": f"archived: {sorted(self.archive)}", "t": s.now}
        sig = hashlib.sha256((s.sig.hexdigest() + s.log.hexdigest()).encode()).hexdigest()
        return {"violation": self.violation, "log": s.log.hexdigest(), "sig": sig, "schedule": s.schedule(), "sim_s": s.now, "events": s.total,
                "switches": len(s.switches), "faults": self.faults, "probes": self.probes, "calls": self.calls, "ops": sorted(self.ops),
                "trace": s.trace_text[-60:], "nontrivial": bool(self.faults) or bool(s.switches), "history": self.history[:80]}


def run(sc):
    return Station(sc).run()


def shrink(sc):
    for i in range(len(sc["events"])):
        yield dict(sc, events=sc["events"][:i] + sc["events"][i + 1:])
    if len(sc["blocks"]) > 1:
        for i in range(len(sc["blocks"])):
            yield dict(sc, blocks=sc["blocks"][:i] + sc["blocks"][i + 1:])
    for i, b in enumerate(sc["blocks"]):
        if len(b["sends"]) > 1:
            yield dict(sc, blocks=sc["blocks"][:i] + [dict(b, sends=b["sends"][:1])] + sc["blocks"][i + 1:])
    if sc["workers"] > 1:
        w = sc["workers"] - 1
        yield dict(sc, workers=w, slow=sc["slow"][:w], events=[e for e in sc["events"] if e["w"] < w])
    if max(sc["slow"]) > 1:
        yield dict(sc, slow=[1] * sc["workers"])
    for i, b in enumerate(sc["blocks"]):
        for r in range(len(b["recs"])):
            for f in range(len(b["recs"][r].get("faults", []))):
                r2 = dict(b["recs"][r], faults=b["recs"][r]["faults"][:f] + b["recs"][r]["faults"][f + 1:])
                yield dict(sc, blocks=sc["blocks"][:i] + [dict(b, recs=b["recs"][:r] + [r2] + b["recs"][r + 1:])] + sc["blocks"][i + 1:])
