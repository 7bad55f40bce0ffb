"""C04: randomness and process settings belong to the caller."""
import numpy as np

from .. import lib, ops, session
from ..session import Session, alone, same_outcome, show
from . import common

ID = "C04"
RUNS = {"quick": 2600, "thorough": 40000}
RULE = ("Each run draws a session of one to four callers, at most one of which seeds the generator and generates synthetic "
        "noise. Without a noise caller the generator state is compared at every yield point; with one, its data and the final "
        "state must be bit-identical to the same seeded call made alone. Process-wide settings are compared at every yield "
        "point, thread-local ones after every call; one call per run is made alone under two generator states. Non-trivial: "
        "at least one call was observed at three or more yield points.")
MEASURE = common.MEASURE
COMPONENTS = common.COMPONENTS
ASSUMPTIONS = ["numpy's floating-point error state is thread-local in this numpy: it is compared when a call ends"]


def gen(rng, i, tier):
    names = [n for n in ops.NONRANDOM if n != "kde2"]
    noisy = rng.random() < 0.5
    clients = []
    for c in range(rng.choice((1, 1, 2, 3))):
        clients.append([{"do": "call", "call": common.maybe_nan(rng, ops.gen_call(rng, rng.choice(names) if rng.random() < .98 else "kde2"), 0.1)}
                        for _ in range(rng.choice((1, 2, 3)))])
        if rng.random() < 0.15:
            clients[-1].append({"do": "call", "call": ops.bad_call(rng, ops.gen_call(rng, rng.choice(names)))})
    if noisy:
        steps = []
        for _ in range(rng.choice((1, 1, 2))):
            steps.append({"do": "seed", "value": rng.randrange(1 << 31)})
            call = ops.gen_call(rng, "synthetic")
            steps.append({"do": "call", "call": call})
            while len(steps) < 8 and rng.random() < 0.5:         # the same request again, under another seed or the same one
                call = rng.choice((call, common.sibling(rng, call, rng.choice(("data", "tweak", "scale", "shift")))))
                steps.append({"do": "seed", "value": rng.choice((steps[-2]["value"], rng.randrange(1 << 31), rng.randrange(1 << 31)))})
                steps.append({"do": "call", "call": call})
        clients.insert(rng.randrange(len(clients) + 1), steps)
    return {"gran": "line" if not noisy else common.grain(clients, rng.choice(("line", "op"))), "clients": clients, "bufs": {},
            "sched": common.sched(rng, len(clients), [sum(s["do"] == "call" for s in c) for c in clients]),
            "seed_rng": rng.randrange(1 << 31), "noisy": noisy, "seed2": rng.randrange(1 << 31)}


class NoiseSession(Session):
    def _after(self, cl, k, st, call, snaps, before, rng, out, fired, fault, base):
        super()._after(cl, k, st, call, snaps, before, rng, out, fired, fault, base)
        if call.spec["op"] == "synthetic":
            if out != base["out"]:
                self.fail("noise-not-reproducible", f"synthetic noise with a fixed seed gave {show(out)}; alone it gives "
                          f"{show(base['out'])}", op="synthetic")
                raise session.Abort()
            if lib.rng_state() != base["rng"]:
                self.fail("rng-touched", "another call drew from numpy's global generator during seeded noise generation, "
                          "or the generator was drawn from a different number of times", op="synthetic")
                raise session.Abort()


def run(sc):
    noisy = any(st["do"] == "call" and st["call"]["op"] == "synthetic" for c in sc["clients"] for st in c)
    watch = ("settings", "settings-end") + (() if noisy else ("rng", "rng-end"))
    # does any answer depend on the generator?
    dep = None
    picks = [st["call"] for c in sc["clients"] for st in c if st["do"] == "call" and st["call"]["op"] != "synthetic"]
    if picks:
        spec = picks[sc["seed2"] % len(picks)]
        a, b = alone(spec, "line", seed=sc["seed2"]), alone(spec, "line", seed=sc["seed2"] + 1)
        if "hang" not in (a["out"][0], b["out"][0]) and not same_outcome(a["out"], b["out"]):
            dep = {"kind": "depends-on-rng", "op": spec["op"],
                   "detail": f"{spec['op']} gave {show(a['out'])} and {show(b['out'])} under two generator seeds", "t": 0.0}
    s = NoiseSession(sc, watch=watch, compare=False).run()
    if s.violation is None:
        s.violation = dep
    return common.finish(s, sc, nontrivial=s.sim.total >= 3, probes={"noisy" if noisy else "quiet": 1})


shrink = common.shrink_session
