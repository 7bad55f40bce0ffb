"""Shared by the properties that run sessions of several callers."""
import copy

from .. import ops, probe
from ..session import Session

COMPONENTS = {
    "real": ["the whole proadv package, loaded from /repo with yield points woven in", "numpy, scipy, scikit-learn",
             "CPython threads (parked and released one at a time)"],
    "simulated": ["thread scheduling (every line or bytecode of package code is a yield point)",
                  "the velocimeter (records and their faults)", "time", "interrupts and failed allocations"],
    "stub": [],
}
MEASURE = "SHA-256 over operations, preemption points (caller, yield point, next caller) and fired faults"


def sched(rng, nclients, ncalls, serial=0.1):
    r = rng.random()
    if nclients == 1 or r < serial:
        return {"mode": "serial"}
    if r < 0.6:
        return {"mode": "walk", "p": rng.choice((0.5, 0.2, 0.05, 0.02, 0.005)), "seed": rng.randrange(1 << 30)}
    pts = []
    for _ in range(rng.choice((1, 1, 2, 3, 4))):
        c = rng.randrange(nclients)
        pts.append([c, rng.randrange(max(1, ncalls[c])), round(rng.random(), 4)])
        if rng.random() < 0.6:                           # a code location, not an instant
            pts[-1].append(rng.choice((0, 0, 1, 2)))
    return {"mode": "points", "pts": pts}


def sibling(rng, call, how=None):
    """A call that looks like this one from far away: same length, nearly the same samples, or other parameters."""
    if how is None and rng.random() < 0.25:              # two differences at once
        call = sibling(rng, call, rng.choice(("tweak", "par", "par1", "scale", "shift", "swap")))
    c = copy.deepcopy(call)
    op = ops.OPS[c["op"]]
    if how is None and "it" in c["par"] and rng.random() < 0.5:     # the next (or the first) iteration over a similar record
        c["par"] = dict(c["par"], it=rng.choice((1, 2, 3)))
        if rng.random() < 0.3:
            return c
        how = rng.choice(("shift", "shift", "shift", "data", "tweak"))
    how = how or rng.choice(("data", "tweak", "tweak", "swap", "par", "par1", "scale", "lay", "shift"))
    if how in ("par", "par1") or not c["recs"]:
        n = c["recs"][0].get("n", 24) if c["recs"] else 32
        new = op.gen(rng, n)
        keys = sorted(k for k in new if new[k] != c["par"].get(k))
        floats = sorted(k for k, v in c["par"].items() if isinstance(v, float) and v < 0.9)
        if floats and rng.random() < 0.3:                        # nearly the same parameter
            k = rng.choice(floats)
            c["par"] = dict(c["par"], **{k: c["par"][k] * (1 + rng.choice((1e-6, 1e-4, 1e-2)))})
        elif how == "par1" and keys and c["op"] != "butter":       # one parameter only
            k = rng.choice(keys)
            c["par"] = dict(c["par"], **{k: new[k]})
        else:
            c["par"] = new
    elif how == "lay":
        c["lay"] = rng.choice(probe.ALL_LAYOUTS)
    elif how == "shift":                                 # another mean: the fluctuations stay
        for r in c["recs"]:
            r["mean"] = r.get("mean", 0.0) + rng.choice((1.0, -2.5, 10.0, 0.45 * r.get("sd", 1.0), -0.2 * r.get("sd", 1.0)))
    elif how == "data":
        for r in c["recs"]:
            r["seed"] = rng.randrange(1 << 30)
    else:
        r = rng.choice(c["recs"])
        n = r["n"]
        i = rng.randrange(n)
        if how == "tweak":
            r["faults"] = r.get("faults", []) + [["spike", i, rng.choice((-1, 1)) * rng.choice((1e-5, 1e-3, 0.02, 0.3, 1, 1)) * rng.uniform(0.5, 20)]]
        elif how == "swap":
            r["faults"] = r.get("faults", []) + [["swap", i, rng.randrange(n)]]
        else:
            r["sd"] = r.get("sd", 1.0) * rng.choice((0.5, 2.0, 3.0))
    return c


def grain(clients, gran, bufs=None):
    """Bytecode granularity for ordinary records, lines for long ones."""
    if any(r.get("n", 0) > 600 for r in (bufs or {}).values()):
        return "line"
    for steps in clients:
        for st in steps:
            c = st.get("call")
            if c and any(r.get("n", 0) > 1.5 * ops.OPS[c["op"]].nmax for r in c["recs"]):
                return "line"
    return gran


def maybe_nan(rng, call, p=0.05):
    if call["recs"] and rng.random() < p:
        r = rng.choice(call["recs"])
        r["faults"] = r.get("faults", []) + [["nan", rng.randrange(r["n"]), rng.choice((1, 2, 4))]]
    return call


def shrink_session(sc):
    """Smaller scenarios: fewer callers, fewer steps, fewer faults, shorter records."""
    cl = sc["clients"]
    if len(cl) > 1:
        for i in range(len(cl)):
            yield _without_client(sc, i)
    for i, steps in enumerate(cl):
        if len(steps) > 4:
            h = len(steps) // 2
            yield _with_steps(sc, i, steps[h:])
            yield _with_steps(sc, i, steps[:h])
        for j in range(len(steps)):
            if len(steps) > 1:
                yield _with_steps(sc, i, steps[:j] + steps[j + 1:])
    if sc.get("gran") == "op" and not any("fault" in s for c in cl for s in c):
        yield dict(sc, gran="line")
    for i, steps in enumerate(cl):
        for j, st in enumerate(steps):
            if "fault" in st:
                yield _with_step(sc, i, j, {k: v for k, v in st.items() if k != "fault"})
            if st.get("scribble"):
                yield _with_step(sc, i, j, {k: v for k, v in st.items() if k != "scribble"})
            if st["do"] == "call":
                for c in shrink_call(st["call"]):
                    yield _with_step(sc, i, j, dict(st, call=c))


def shrink_call(call):
    op = ops.OPS[call["op"]]
    if call.get("lay", "c") != "c":
        yield dict(call, lay="c")
    for i, r in enumerate(call["recs"]):
        for f in range(len(r.get("faults", []))):
            r2 = dict(r, faults=r["faults"][:f] + r["faults"][f + 1:])
            yield dict(call, recs=call["recs"][:i] + [r2] + call["recs"][i + 1:])
    if call["recs"] and all("n" in r for r in call["recs"]):
        n = call["recs"][0]["n"]
        for m in (op.nmin, n // 2, n - 1):
            if op.nmin <= m < n:
                par = dict(call["par"])
                if "flag" in par:
                    par["flag"] = [f for f in par["flag"] if f < m]
                if "w" in par:
                    par["w"] = min(par["w"], m)
                recs = [dict(r, n=m, faults=[f for f in r.get("faults", []) if f[1] < m]) for r in call["recs"]]
                yield dict(call, recs=recs, par=par)
    if len(call["par"].get("flag", [])) > 1:
        fl = call["par"]["flag"]
        for k in range(len(fl)):
            yield dict(call, par=dict(call["par"], flag=fl[:k] + fl[k + 1:]))


def _without_client(sc, i):
    s = dict(sc, clients=sc["clients"][:i] + sc["clients"][i + 1:])
    if sc.get("cost"):
        s["cost"] = sc["cost"][:i] + sc["cost"][i + 1:]
    if s["sched"]["mode"] == "points":
        pts = [[c - (c > i)] + rest for c, *rest in s["sched"]["pts"] if c != i]
        s["sched"] = {"mode": "points", "pts": pts}
    return s


def _with_steps(sc, i, steps):
    return dict(sc, clients=sc["clients"][:i] + [steps] + sc["clients"][i + 1:])


def _with_step(sc, i, j, st):
    steps = list(sc["clients"][i])
    steps[j] = st
    return _with_steps(sc, i, steps)


def finish(s, sc, nontrivial=None, probes=None):
    res = s.result()
    if nontrivial is None:
        nontrivial = res["switches"] > 0 or res["calls"] > 1
    import hashlib
    res["sig"] = hashlib.sha256((res["sig"] + "/" + ",".join(h["op"] for h in s.history)).encode()).hexdigest()
    res["nontrivial"] = nontrivial
    res["probes"] = probes or {}
    res["history"] = s.history[:80]
    return res
