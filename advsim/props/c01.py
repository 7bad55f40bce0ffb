"""C01: concurrent callers and earlier calls never change a result."""
from .. import ops, probe
from ..session import Session
from . import common

ID = "C01"
RUNS = {"quick": 5200, "thorough": 60000}
RULE = ("Each run draws a session: several caller threads making the same or different library calls under a random-walk or "
        "few-preemption schedule, or one caller with a history (refilled buffers, near-identical records, other parameters, "
        "scribbled results, tens of earlier calls). Every result is compared with the same call made alone in a process "
        "that has just imported the package. Non-trivial: at least one preemption inside package code, or at least two calls.")
MEASURE = common.MEASURE
COMPONENTS = common.COMPONENTS
ASSUMPTIONS = ["CPython switches threads between bytecodes; switches inside C code of numpy that releases the GIL are not "
               "simulated (package state cannot change there)",
               "results are compared to a relative tolerance of 1e-9"]


def _light(rng):
    return rng.choice([n for n in ops.NONRANDOM if n not in ("kde2",)]) if rng.random() < 0.92 else "kde2"


def gen(rng, i, tier):
    fam = rng.random()
    gran = rng.choice(("line", "op"))
    bufs = {}
    if fam < 0.40:                                       # same operation, same length, different data
        name = _light(rng)
        first = common.maybe_nan(rng, ops.gen_call(rng, name))
        clients = []
        for _ in range(rng.choice((2, 2, 2, 3, 4))):
            steps = []
            for _ in range(rng.choice((1, 1, 2))):
                c = first if not clients and not steps else common.sibling(rng, first)
                if rng.random() < 0.04:
                    c = ops.bad_call(rng, c)
                steps.append({"do": "call", "call": c, "scribble": rng.random() < 0.3})
            clients.append(steps)
    elif fam < 0.60:                                     # a mix
        clients = []
        for _ in range(rng.choice((2, 3, 4, 5))):
            clients.append([{"do": "call", "call": common.maybe_nan(rng, ops.gen_call(rng, _light(rng))),
                             "scribble": rng.random() < 0.3} for _ in range(rng.choice((1, 2, 3)))])
    elif fam < 0.92:                                     # a history in one caller (and sometimes a second caller)
        clients = []
        for _ in range(1 if rng.random() < 0.7 else 2):
            name = _light(rng)
            first = common.maybe_nan(rng, ops.gen_call(rng, name))
            steps = []
            if first["recs"] and rng.random() < 0.5:     # the caller refills its own buffers
                names = []
                for r in first["recs"]:
                    b = f"b{len(bufs)}"
                    bufs[b] = r
                    names.append(b)
                cur = first
                for k in range(rng.choice((2, 3, 4))):
                    steps.append({"do": "call", "call": dict(cur, recs=[{"buf": b} for b in names]),
                                  "scribble": rng.random() < 0.4})
                    nxt = common.sibling(rng, first if rng.random() < 0.5 else cur)
                    for b, r in zip(names, nxt["recs"]):
                        steps.append({"do": "fill", "buf": b, "rec": r})
                    cur = nxt
                steps.append({"do": "call", "call": dict(cur, recs=[{"buf": b} for b in names])})
            else:
                cur = first
                for k in range(rng.choice((2, 3, 4, 6))):
                    steps.append({"do": "call", "call": cur, "scribble": rng.random() < 0.5})
                    r = rng.random()
                    cur = first if r < 0.25 else common.sibling(rng, first if r < 0.6 else cur)
                    if rng.random() < 0.15:
                        cur = ops.gen_call(rng, name)
                    if rng.random() < 0.12:              # a call that is refused must leave nothing behind either
                        steps.append({"do": "call", "call": ops.bad_call(rng, cur)})
            clients.append(steps)
    else:                                                # a long history
        name = rng.choice(ops.CHEAP)
        first = ops.gen_call(rng, name, n=rng.choice((16, 24, 32)))
        steps = [{"do": "call", "call": first, "scribble": rng.random() < 0.5}]
        mixed = rng.random() < 0.3
        for k in range(rng.choice((20, 20, 45, 45, 75, 150))):
            if mixed and rng.random() < 0.6:
                c = ops.gen_call(rng, rng.choice(ops.CHEAP), n=first["recs"][0]["n"] if first["recs"] and rng.random() < 0.5 else None)
            else:
                c = common.sibling(rng, first) if rng.random() < 0.5 else ops.gen_call(rng, name, n=rng.choice((16, 20, 24, 40)))
            if rng.random() < 0.05:
                c = ops.bad_call(rng, c)
            steps.append({"do": "call", "call": c})
        steps.append({"do": "call", "call": first})
        clients, gran = [steps], "line"
    ncalls = [sum(1 for s in c if s["do"] == "call") for c in clients]
    cost = [rng.choice((1e-4, 1e-4, 1e-3, 1e-2)) for _ in clients]
    return {"gran": common.grain(clients, gran, bufs), "sched": common.sched(rng, len(clients), ncalls), "clients": clients, "bufs": bufs, "cost": cost}


def run(sc):
    s = Session(sc).run()
    return common.finish(s, sc)


shrink = common.shrink_session
