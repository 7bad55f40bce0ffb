"""A processing bench: several processors (caller threads) work through jobs on records from simulated velocimeters.

Scenario (JSON): {"sched", "jobs": [{"c": caller, ...}], ...}.  Every job is handled by the property's own function
job(bench, client, job); its library calls go through bench.call(), so they are preempted at woven yield points, run in
simulated time, and may be interrupted and repeated ("hit": {"exc", "at"} strikes at that fault point of the job's first
call, if the call gets that far).
"""
import hashlib

import numpy as np

from .. import lib, ops
from ..session import quiet
from ..sim import Abort, Sim
from ..value import brief, canon

BUDGET = 3_000_000


class Bench:
    def __init__(self, sc, job):
        self.sc, self.job = sc, job
        self.violation = None
        self.faults, self.probes, self.known, self.ops = {}, {}, [], set()
        self.calls = 0
        self.history = []
        self.jobsig = hashlib.sha256()

    # ------------------------------------------------------------------ for the property's job function
    def fail(self, kind, detail, **extra):
        if self.violation is None:
            self.violation = dict(kind=kind, detail=detail, t=round(self.sim.now, 6), **extra)
        self.sim.aborting = self.sim.aborting or "violation"
        raise Abort()

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fault(self, name, n=1):
        self.faults[name] = self.faults.get(name, 0) + n

    def call(self, cl, name, args, kwargs=None, hit=None, budget=BUDGET):
        """One library call (by catalogue name).  Returns ("ok", value), ("err", type name, text) or ("hang", steps)."""
        sim = self.sim
        if sim.aborting:
            raise Abort()
        target = ops.OPS[name].target if name in ops.OPS else name
        self.ops.add(name)
        while True:
            res = sim.call(cl, lib.resolve(target), args, kwargs or {}, fault=hit, budget=budget)
            if sim.aborting:
                raise Abort()
            self.calls += 1
            if cl.fired is None:
                break
            self.fault("interrupted call, repeated")
            hit = None
        out = ("ok", canon(res[1])) if res[0] == "ok" else res
        digest = hashlib.sha256(repr(out).encode()).hexdigest()[:16]
        sim.note("done", cl.cid, name, out[0], digest)
        if len(self.history) < 80:
            self.history.append({"client": cl.cid, "op": name, "t": sim.now,
                                 "out": brief(out[1], 90) if out[0] == "ok" else str(out[:2])})
        return res

    def value(self, cl, name, args, kwargs=None, hit=None, what="", budget=BUDGET):
        """The value of a call that has to succeed."""
        res = self.call(cl, name, args, kwargs, hit, budget)
        if res[0] == "err":
            self.fail("raised", f"{name}{what} raised {res[1]}: {res[2]}", op=name)
        if res[0] == "hang":
            self.fail("hang", f"{name}{what} did not finish within {res[1]} steps", op=name)
        return res[1]

    # ------------------------------------------------------------------ running
    def _caller(self, cl):
        quiet()
        for j in self.sc["jobs"]:
            if j.get("c", 0) == cl.cid:
                self.job(self, cl, j)

    def run(self):
        quiet()
        n = max((j.get("c", 0) for j in self.sc["jobs"]), default=0) + 1
        self.sim = Sim(dict(self.sc.get("sched", {"mode": "serial"}), gran=self.sc.get("gran", "line")),
                       max_events=self.sc.get("max_events", 12_000_000))
        for c in range(n):
            self.sim.spawn(self._caller, 1e-4 * (1 + 3 * (c % 2)))
        self.sim.run()
        if self.violation is None and self.sim.aborting == "deadlock":
            self.violation = {"kind": "deadlock", "detail": "every caller is blocked for good", "t": self.sim.now}
        if self.violation is None and self.sim.aborting == "event-limit":
            self.violation = {"kind": "hang", "detail": "the run did not finish within the event limit", "t": self.sim.now}
        s = self.sim
        sig = hashlib.sha256((s.sig.hexdigest() + s.log.hexdigest()).encode()).hexdigest()
        return {"violation": self.violation, "log": s.log.hexdigest(), "sig": sig, "schedule": s.schedule(), "sim_s": s.now,
                "events": s.total, "switches": len(s.switches), "faults": self.faults, "probes": self.probes,
                "known": sorted(set(self.known)), "calls": self.calls, "trace": s.trace_text[-60:], "ops": sorted(self.ops),
                "nontrivial": bool(self.faults) or len(s.switches) > 0, "history": self.history}


def sched(rng, n):
    if n == 1 or rng.random() < 0.15:
        return {"mode": "serial"}
    return {"mode": "walk", "p": rng.choice((0.3, 0.05, 0.01, 0.002)), "seed": rng.randrange(1 << 30)}


def hit(rng, p=0.08):
    """An interrupt early, or somewhere, in the job's first call."""
    if rng.random() >= p:
        return None
    return {"exc": rng.choice(("KeyboardInterrupt", "MemoryError")), "at": int(10 ** rng.uniform(0, 3))}


def shrink_jobs(sc, shrink_job=None):
    jobs = sc["jobs"]
    if len(jobs) > 1:
        for i in range(len(jobs)):
            yield dict(sc, jobs=[jobs[i]], sched={"mode": "serial"})
        for i in range(len(jobs)):
            yield dict(sc, jobs=jobs[:i] + jobs[i + 1:])
    for i, j in enumerate(jobs):
        if j.get("hit"):
            yield dict(sc, jobs=jobs[:i] + [dict(j, hit=None)] + jobs[i + 1:])
        if shrink_job:
            for k in shrink_job(j):
                yield dict(sc, jobs=jobs[:i] + [k] + jobs[i + 1:])


def close(a, b, rtol=1e-9, atol=0.0):
    """Elementwise agreement; NaN matches NaN and infinities match themselves."""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
