"""C03: a call can be interrupted anywhere and leaves nothing behind."""
import copy

from .. import ops
from ..session import Session, in_fork
from . import common

ID = "C03"
RUNS = {"quick": 5000, "thorough": 40000}
RULE = ("Each run draws a session of one to three callers; one or more calls are cut short by KeyboardInterrupt or MemoryError "
        "at a chosen code location (first, second or last visit) or instant of package code, then repeated, then followed by other "
        "calls. Inputs, process settings and the random generator are compared before and after, results with the same "
        "calls made alone. Non-trivial: a fault really fired inside package code.")
MEASURE = common.MEASURE
COMPONENTS = common.COMPONENTS
ASSUMPTIONS = ["faults are not injected inside finally blocks, exception handlers and the exit of with blocks (no Python program "
               "survives a second fault in its own cleanup)",
               "a session that fails in the same way without any fault is not charged to this property"]


def gen(rng, i, tier):
    names = [n for n in ops.NONRANDOM if n != "kde2"]
    nclients = rng.choice((1, 1, 2, 3))
    clients = []
    main = rng.choice(names) if rng.random() < 0.97 else "kde2"
    for c in range(nclients):
        steps = []
        name = main if rng.random() < 0.7 else rng.choice(names)
        if rng.random() < 0.4:
            steps.append({"do": "call", "call": ops.gen_call(rng, name)})
        if rng.random() < 0.08:
            steps.append({"do": "call", "call": ops.bad_call(rng, ops.gen_call(rng, name))})
        first = ops.gen_call(rng, name)
        st = {"do": "call", "call": first}
        if c == 0 or rng.random() < 0.4:
            r = rng.random()
            frac = r if r < 0.7 else (rng.random() * 0.05 if r < 0.85 else 1 - rng.random() * 0.05)
            st["fault"] = {"exc": rng.choice(("KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"))}
            if rng.random() < 0.65:                      # a code location, not an instant: rare statements count as much as loops
                st["fault"].update(site=round(rng.random(), 5), occ=rng.choice((0, 0, 1, 2)))
            else:
                st["fault"]["frac"] = round(frac, 5)
        steps.append(st)
        for _ in range(rng.choice((1, 1, 2))):
            steps.append({"do": "call", "call": common.sibling(rng, first) if rng.random() < 0.7 else ops.gen_call(rng, rng.choice(names))})
        clients.append(steps)
    return {"gran": common.grain(clients, "op"), "sched": common.sched(rng, nclients, [len(c) for c in clients], serial=0.2), "clients": clients,
            "bufs": {}, "seed_rng": rng.randrange(1 << 30)}


def _session(sc):
    s = Session(sc, watch=("settings-end", "rng-end")).run()
    return common.finish(s, sc, nontrivial=bool(s.fired))


def run(sc):
    res = in_fork(lambda: _session(sc))
    if res is None:
        res = {"violation": {"kind": "hang", "detail": "no answer"}, "log": "-", "sig": "-", "nontrivial": True}
    if res["violation"] is not None:
        clean = copy.deepcopy(sc)
        for c in clean["clients"]:
            for st in c:
                st.pop("fault", None)
        ref = in_fork(lambda: _session(clean))
        if ref is not None and ref["violation"] is not None:
            res["violation"] = None
    return res


shrink = common.shrink_session
