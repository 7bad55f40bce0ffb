"""C02: the caller's data is never written, not even for a moment; results are the caller's own."""
from .. import ops, probe
from ..session import Session, alone, same_outcome, show
from . import common

ID = "C02"
RUNS = {"quick": 3000, "thorough": 45000}
RULE = ("Each run draws a session of one to four callers whose inputs are contiguous, strided, reversed, table columns, "
        "read-only, integers, single precision, lists, or one buffer shared by all callers; every input object is compared with its snapshot at every "
        "yield point of every caller, and every returned array is checked for memory shared with inputs or with earlier "
        "results; calls with an unusual layout are repeated with a contiguous copy and must give the same answer. Non-trivial: at least one call was observed at three or more yield points.")
MEASURE = common.MEASURE
COMPONENTS = common.COMPONENTS
ASSUMPTIONS = ["a write that is undone within a single bytecode, or inside one C call, cannot be seen by another Python thread "
               "either"]
DEGENERATE = {"ma": {"w": 1}, "wma": {"w": 1}, "ema": {"alpha": 1.0}, "r_sma": {"w": 1}, "r_ema": {"alpha": 1.0},
              "synthetic": {"pct": 0}}


def gen(rng, i, tier):
    names = ops.NONRANDOM + ["synthetic"]
    shared, bufs = {}, {}
    nclients = rng.choice((1, 1, 2, 3, 4))
    clients = []
    share = rng.random() < 0.35
    if share:
        n = rng.choice((24, 32, 40, 48))
        for k in range(3):
            r = probe.spec(rng, n)
            r["faults"] = probe.faults(rng, n)
            r["lay"] = rng.choice(probe.LAYOUTS)
            shared[f"s{k}"] = r
    for c in range(nclients):
        steps = []
        for _ in range(rng.choice((1, 2, 3))):
            name = rng.choice(names) if rng.random() < 0.95 else "kde2"
            if name == "kde2" and rng.random() < 0.8:
                name = "r_linear"
            call = common.maybe_nan(rng, ops.gen_call(rng, name), 0.12)
            op = ops.OPS[name]
            if share and call["recs"] and op.nmin <= n <= op.nmax and rng.random() < 0.7:
                call = ops.gen_call(rng, name, n=n)
                call["recs"] = [{"buf": f"s{k}"} for k in range(len(call["recs"]))]
            call["lay"] = "list" if "list" in op.tags and rng.random() < 0.3 else rng.choice(probe.ALL_LAYOUTS)
            if name in DEGENERATE and rng.random() < 0.25:
                call["par"].update(DEGENERATE[name])
            if "flag" in call["par"] and rng.random() < 0.12:
                call["par"]["flag"] = []
            for r in call["recs"]:
                if "n" in r and rng.random() < 0.06:
                    r["kind"] = "const"
                if "n" in r and rng.random() < 0.15:
                    r["round"] = rng.choice((0, 2, 4))
            steps.append({"do": "call", "call": call, "scribble": rng.random() < 0.3})
            if rng.random() < 0.25:
                steps.append({"do": "call", "call": call if rng.random() < 0.5 else common.sibling(rng, call, "par")})
        clients.append(steps)
    ncalls = [len(c) for c in clients]
    return {"gran": common.grain(clients, rng.choice(("line", "line", "op"))), "sched": common.sched(rng, nclients, ncalls), "clients": clients,
            "bufs": bufs, "shared": shared, "seed_rng": rng.randrange(1 << 30)}


def layouts(sc, probes):
    """Every way to hold the samples in memory has to be accepted like a contiguous, writeable array."""
    for c in sc["clients"]:
        for st in c:
            call = st["call"]
            if call.get("lay", "c") in ("c", "int", "f32") or any("buf" in r for r in call["recs"]) or not call["recs"] \
                    or call["op"] in ("synthetic", "kde2"):
                continue
            a, b = alone(call), alone(dict(call, lay="c"))
            probes["layouts compared"] = probes.get("layouts compared", 0) + 1
            if "hang" in (a["out"][0], b["out"][0]):     # too long for the harness
                continue
            degenerate = any(r.get("kind") == "const" or r.get("round") is not None or r.get("kind") == "quant"
                             or any(f[0] in ("stuck", "drop") for f in r.get("faults", ())) for r in call["recs"])
            if a["out"][0] != b["out"][0] or not degenerate and not same_outcome(a["out"], b["out"]):
                return {"kind": "layout-matters", "op": call["op"], "t": 0.0,
                        "detail": f"{call['op']} gave {show(a['out'])} for layout {call['lay']}, and {show(b['out'])} for a "
                                  f"contiguous copy of the same samples"}
    return None


def run(sc):
    s = Session(sc, watch=("inputs",), alias=True, compare=False).run()
    probes = {}
    if s.violation is None:
        s.violation = layouts(sc, probes)
    for c in sc["clients"]:
        for st in c:
            k = "layout:" + ("shared" if any("buf" in r for r in st["call"]["recs"]) else st["call"].get("lay", "c"))
            probes[k] = probes.get(k, 0) + 1
    return common.finish(s, sc, nontrivial=s.sim.total >= 3, probes=probes)


shrink = common.shrink_session
