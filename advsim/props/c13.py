"""C13: the statistics of what has arrived do not depend on how it was delivered."""
import math

import numpy as np

from .. import ops, probe
from . import bench, common

ID = "C13"
RUNS = {"quick": 6000, "thorough": 150000}
RULE = ("Each run simulates one to three telemetry links: a velocimeter sends packets of samples through a network that loses, "
        "duplicates, delays and so reorders them; a collector keeps what arrives, in order of arrival and without duplicates. "
        "Reporters ask the library for statistics of the samples that have arrived by chosen instants, under preemption and "
        "with interrupted and repeated calls. Every answer is compared with the definition, evaluated in extended precision on "
        "the set of samples received, and with the answer for the same samples in the order in which they were measured. "
        "Non-trivial: a delivery or sensor fault was injected, or a preemption took place.")
MEASURE = "SHA-256 over reports' results, preemption points and fired faults"
COMPONENTS = dict(common.COMPONENTS, simulated=common.COMPONENTS["simulated"] + ["the network between probe and collector, the collector"])
ASSUMPTIONS = ["agreement is judged to 1e-9 of the spread of the samples plus 1e-13 of their magnitude (as deviation, so 1e-26 in a variance)",
               "skewness, kurtosis and the tests built on them only where the samples vary by more than a hundred-thousandth of their "
               "magnitude, the skewness test not at skewness zero (where it is discontinuous by construction)"]

ONE = ("min", "max", "mean", "median", "mode", "variance", "std", "skewness", "kurtosis", "skewtest", "kurtotest")
THREE = ("tke", "reynolds")
TWO = ("pollution", "kde2")


def deliver(rng, npk):
    """The packets in order of arrival, lost ones missing, duplicated ones twice."""
    style = rng.choice(("good", "lossy", "late", "bad", "reverse"))
    if style == "reverse":                               # the buffer of the instrument is read last in, first out
        return list(range(npk))[::-1]
    loss, dup, late = {"good": (0, 0, 0.1), "lossy": (0.2, 0.05, 0.1), "late": (0.02, 0.1, 0.6), "bad": (0.4, 0.3, 0.9)}[style]
    ev = []
    for k in range(npk):
        for copy in range(2 if rng.random() < dup else 1):
            if rng.random() < loss:
                continue
            d = rng.expovariate(1.0) * rng.choice((1, 5, npk)) if rng.random() < late else 0.0
            ev.append((k + d, k))
    return [k for _, k in sorted(ev)]


def gen_job(rng, c):
    group = rng.choice((ONE, ONE, ONE, THREE, TWO))
    r = rng.random()
    n = rng.randrange(1, 12) if r < 0.2 else rng.randrange(8, 80) if r < 0.7 else rng.randrange(40, 400)
    if r > 0.97 and group is ONE:
        n = rng.randrange(400, 4000)
    if group is TWO:
        n = max(n, 12)
    kinds = ("spike", "burst", "drop", "stuck", "set")
    nan, inf = rng.choice((False,) * 16 + (True,) * 3), rng.random() < 0.06
    if nan and rng.random() < 0.3:
        inf = True
    recs = []
    for _ in range(1 if group is ONE else 3 if group is THREE else 2):
        s = probe.spec(rng, n, mean=rng.choice((0.0, 0.0, 5.0, -7.0, 40.0, 300.0, 2e4, -1e6)))
        if rng.random() < 0.06:
            s["kind"] = "const"
        if rng.random() < 0.5:
            s["faults"] = probe.faults(rng, n, kinds=kinds)
        if inf and rng.random() < 0.7:
            s["faults"] = s.get("faults", []) + [["inf", rng.randrange(n), 1, rng.choice((-1, 1))]]
        if nan and rng.random() < 0.7:
            s["faults"] = s.get("faults", []) + [["nan", rng.randrange(n), rng.choice((1, 1, 3))]]
        if rng.random() < 0.25:
            s["round"] = rng.choice((0, 1, 2))
        recs.append(s)
    k = rng.choice((1, 1, 2, 5, 16)) if n < 500 else 16
    arr = deliver(rng, -(-n // k))
    reports = []
    for _ in range(rng.choice((1, 2, 3))):
        op = rng.choice(group)
        rep = {"op": op, "after": len(arr) if rng.random() < 0.5 else rng.randrange(1, len(arr) + 1) if arr else 0,
               "lay": rng.choice(probe.LAYOUTS + (rng.choice(("int", "i16", "u16")), "list")), "hit": bench.hit(rng)}
        if op in ("skewtest", "kurtotest"):
            rep["alt"] = rng.choice(("two-sided", "less", "greater"))
        if op == "pollution":
            rep["k"] = rng.choice((0.5, 1, 2))
        if op == "kde2":
            rep.update(hx=rng.choice((0.05, 0.1)), hy=0.08, grid=rng.choice((4, 8)))
        reports.append(rep)
    return {"c": c, "recs": recs, "k": k, "arr": arr, "reports": reports}


def gen(rng, i, tier):
    nc = rng.choice((1, 1, 2, 3))
    return {"sched": bench.sched(rng, nc), "jobs": [gen_job(rng, c) for c in range(nc)]}


# ------------------------------------------------------------------------------------------- definitions

def moments(x):
    """Mean, and the central moments 2 to 4 and the absolute third, in extended precision."""
    x = np.asarray(x, dtype=np.longdouble)
    m = x.sum() / x.size
    m = m + (x - m).sum() / x.size
    d = x - m
    return m, (d ** 2).mean(), (d ** 3).mean(), (d ** 4).mean(), (np.abs(d) ** 3).mean()


def erfc_p(z, alt):
    cdf = 0.5 * math.erfc(-z / math.sqrt(2))
    sf = 0.5 * math.erfc(z / math.sqrt(2))
    return {"less": cdf, "greater": sf, "two-sided": 2 * min(cdf, sf)}[alt]


def skew_z(g, n):
    y = g * math.sqrt((n + 1) * (n + 3) / (6.0 * (n - 2)))
    b2 = 3.0 * (n * n + 27 * n - 70) * (n + 1) * (n + 3) / ((n - 2.0) * (n + 5) * (n + 7) * (n + 9))
    w2 = math.sqrt(2 * (b2 - 1)) - 1
    return math.asinh(y / math.sqrt(2 / (w2 - 1))) / math.sqrt(0.5 * math.log(w2))


def kurt_z(k, n):
    """None where the test statistic is not defined."""
    e = 3.0 * (n - 1) / (n + 1)
    v = 24.0 * n * (n - 2) * (n - 3) / ((n + 1) ** 2 * (n + 3) * (n + 5))
    x = (k - e) / math.sqrt(v)
    sb = 6.0 * (n * n - 5 * n + 2) / ((n + 7) * (n + 9)) * math.sqrt(6.0 * (n + 3) * (n + 5) / (n * (n - 2) * (n - 3)))
    a = 6.0 + 8.0 / sb * (2.0 / sb + math.sqrt(1 + 4.0 / (sb * sb)))
    den = 1 + x * math.sqrt(2 / (a - 4.0))
    if den < 1e-3:
        return None
    return ((1 - 2 / (9 * a)) - ((1 - 2 / a) / den) ** (1 / 3)) / math.sqrt(2 / (9 * a))


def judge(b, rep, what, xs, val):
    """Compare one answer with its definition; returns True where the question has a definite answer."""
    op, x = rep["op"], xs[0]
    n = x.size

    def bad(name, got, want):
        b.fail("not-definition", f"{op}{what}: {name} is {got!r}, by definition of the {n} samples received {want!r}", op=op)

    if any(np.isnan(v).any() for v in xs):
        if op in ("mode", "pollution", "kde2"):
            return False
        vals = np.asarray(val[0] if op in ("skewtest", "kurtotest") else val, dtype=float).reshape(-1)
        if op == "reynolds":
            nan = [np.isnan(v).any() for v in xs]
            want = [nan[0], nan[1], nan[2], nan[0] or nan[1], nan[0] or nan[2], nan[1] or nan[2]]
            vals = vals[[i for i in range(6) if want[i]]]
        if not np.isnan(vals).all():
            bad("the result although a sample is missing (NaN)", val, math.nan)
        return False
    if any(np.isinf(v).any() for v in xs) and op not in ("min", "max"):
        return False
    big = float(max(np.abs(v).max() for v in xs))
    if op in ("min", "max"):
        want = x.min() if op == "min" else x.max()
        if not val == want:
            bad("it", val, want)
    elif op == "mean":
        want = float(moments(x)[0])
        if not abs(val - want) <= 1e-12 * big:
            bad("it", val, want)
    elif op == "median":
        s = np.sort(x)
        want = s[n // 2] if n % 2 else 0.5 * (s[n // 2 - 1] + s[n // 2])
        if not abs(val - want) <= 1e-13 * big:
            bad("it", val, want)
    elif op == "mode":
        v, cnt = val
        uniq, counts = np.unique(x, return_counts=True)
        if not (cnt == counts.max() and (uniq[counts == counts.max()] == v).any()):
            bad("it", (v, cnt), (uniq[counts == counts.max()][:3].tolist(), int(counts.max())))
    elif op in ("variance", "std"):
        m2 = float(moments(x)[1])
        got = float(val) ** 2 if op == "std" else float(val)
        if not (abs(got - m2) <= 1e-9 * m2 + 1e-26 * big * big and val >= 0):
            bad("it", val, math.sqrt(m2) if op == "std" else m2)
    elif op in ("skewness", "kurtosis", "skewtest", "kurtotest"):
        m, m2, m3, m4, a3 = (float(v) for v in moments(x))
        if m2 <= 1e-10 * big * big or m2 == 0:
            return False
        if op == "skewness":
            want = m3 / m2 ** 1.5
            if not abs(val - want) <= 1e-8 * (a3 / m2 ** 1.5):
                bad("it", val, want)
        elif op == "kurtosis":
            want = m4 / m2 ** 2
            if not abs(val - want) <= 1e-8 * want:
                bad("it", val, want)
        else:
            if op == "skewtest":
                if abs(m3) <= 1e-7 * a3:
                    return False
                z = skew_z(m3 / m2 ** 1.5, n)
            else:
                z = kurt_z(m4 / m2 ** 2, n)
                if z is None:
                    return False
            gz, gp = float(val[0]), float(val[1])
            if not abs(gz - z) <= 1e-6 * (1 + abs(z)):
                bad("the statistic", gz, z)
            if not (abs(gp - erfc_p(z, rep["alt"])) <= 1e-6 and -1e-12 <= gp <= 1 + 1e-12):
                bad("the p-value", gp, erfc_p(z, rep["alt"]))
    elif op in ("tke", "reynolds"):
        d = [np.asarray(v, dtype=np.longdouble) - moments(v)[0] for v in xs]
        pairs = ((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2))
        st = [float((d[p] * d[q]).mean()) for p, q in pairs]
        if op == "tke":
            want = 0.5 * (st[0] + st[1] + st[2])
            if not abs(val - want) <= 1e-9 * want + 1e-26 * big * big:
                bad("it", val, want)
        else:
            if len(val) != 6:
                bad("the number of stresses", len(val), 6)
            for i, (p, q) in enumerate(pairs):
                if not abs(val[i] - st[i]) <= 1e-9 * math.sqrt(st[p] * st[q]) + 1e-26 * big * big:
                    bad("stress " + "uvw"[p] + "uvw"[q], val[i], st[i])
    elif op == "pollution":
        sd = math.sqrt(float(moments(x)[1]))
        up, lo = x - (xs[1] + rep["k"] * sd), -xs[1] - rep["k"] * sd - x
        eps = 1e-9 * (big + sd)
        least = int((up > eps).sum() + (lo > eps).sum())
        most = int((up > -eps).sum() + (lo > -eps).sum())
        if not 100.0 * least / n - 1e-9 <= val <= 100.0 * most / n + 1e-9:
            bad("the percentage", val, (100.0 * least / n, 100.0 * most / n))
    return True


def spread(xs):
    return all(np.isfinite(x).all() and np.ptp(x) > 1e-9 * (1e-300 + np.abs(x).max()) for x in xs)


def present(xs, rep):
    """The samples as the reporter hands them over, and as floats."""
    lay = rep["lay"]
    if lay == "list" and "list" not in ops.OPS[rep["op"]].tags:
        lay = "c"
    if lay in ("int", "i16", "u16") and (rep["op"] == "kde2" or not all(np.isfinite(x).all() for x in xs)):
        lay = "c"
    if lay == "list":
        return [x.tolist() for x in xs], xs
    arr = [probe.layout(x, lay)[0] for x in xs]
    return arr, [np.asarray(a, dtype=float) for a in arr]


def call_args(rep, arr):
    op = rep["op"]
    if op in ("skewtest", "kurtotest"):
        return arr + [rep["alt"]]
    if op == "pollution":
        return arr + [rep["k"]]
    if op == "kde2":
        return [np.array(arr), rep["hx"], rep["hy"], rep["grid"]]
    return arr


LEAST = {"skewtest": 8, "kurtotest": 5}


def job(b, cl, j):
    recs = [probe.record(r) for r in j["recs"]]
    for r in j["recs"]:
        for f in r.get("faults", []):
            b.fault("sensor " + f[0])
    n, k = recs[0].size, j["k"]
    npk = -(-n // k)
    for a, c in zip(j["arr"], j["arr"][1:]):
        if c < a:
            b.fault("packet overtaken")
    b.fault("packet duplicated", len(j["arr"]) - len(set(j["arr"])))
    b.fault("packet lost", npk - len(set(j["arr"])))
    b.faults = {x: v for x, v in b.faults.items() if v}
    for rep in sorted(j["reports"], key=lambda r: r["after"]):
        seen, order = set(), []
        for p in j["arr"][:rep["after"]]:
            if p not in seen:                            # the collector drops duplicates
                seen.add(p)
                order += list(range(p * k, min(n, (p + 1) * k)))
        op = rep["op"]
        idx = np.array(order, dtype=int)
        got = [x[idx] for x in recs]
        what = f"({len(order)} of {n} samples, {rep['lay']})"
        if not order:
            if op in ("min", "max", "median", "variance", "std"):
                res = b.call(cl, op, present(got, dict(rep, lay="c"))[0])
                if res[:2] != ("err", "ValueError"):
                    b.fail("empty-accepted", f"{op} of no samples at all: {res[:2]!r} instead of ValueError", op=op)
                b.probe("nothing arrived")
            continue
        arr, xs = present(got, rep)
        if op in ("min", "max") and np.isnan(xs[0]).any():
            res = b.call(cl, op, arr, hit=rep.get("hit"))
            if res[:2] != ("err", "ValueError"):
                b.fail("nan-accepted", f"{op}{what} of samples with NaN: {res[:2]!r} instead of ValueError", op=op)
            b.probe("missing sample reported")
            continue
        if len(order) < LEAST.get(op, 1):
            res = b.call(cl, op, call_args(rep, arr), hit=rep.get("hit"))
            if res[:2] != ("err", "ValueError"):
                b.fail("too-few-accepted", f"{op}{what}: {res[:2]!r} instead of ValueError", op=op)
            b.probe("too few samples refused")
            continue
        if op == "kde2" and (len(order) < 8 or not spread(xs)):
            continue
        if op in LEAST and np.isnan(xs[0]).any():
            res = b.call(cl, op, call_args(rep, arr), hit=rep.get("hit"))
            if res[:2] != ("err", "TypeError"):
                b.fail("nan-accepted", f"{op}{what} of samples with NaN: {res[:2]!r} instead of TypeError", op=op)
            b.probe("missing sample reported")
            continue
        if op in LEAST and (len(order) < LEAST[op] + 6 or not spread(xs)):
            continue                                     # the tests are not defined for samples that do not vary
        if op == "kurtosis" and np.isinf(xs[0]).any():
            continue
        val = b.value(cl, op, call_args(rep, arr), hit=rep.get("hit"), what=what)
        definite = judge(b, rep, what, xs, val)
        back = np.argsort(idx)
        if (back[1:] < back[:-1]).any():
            b.probe("arrived out of order")
            if definite or op == "kde2":
                ref = b.value(cl, op, call_args(rep, present([x[back] for x in got], rep)[0]), what=what + " in order of measurement")
                same(b, op, what, xs, val, ref, rep)


def same(b, op, what, xs, val, ref, rep):
    """Two answers for the same samples in different orders."""
    if op in ("min", "max", "mode", "median"):
        ok = np.array_equal(np.asarray(val, dtype=float), np.asarray(ref, dtype=float))
    elif op == "kde2":
        ok = all(bench.close(p, q, rtol=1e-9, atol=1e-9 * float(np.abs(np.asarray(q)).max())) for p, q in zip(val, ref))
    elif op in ("skewtest", "kurtotest"):
        ok = bench.close([float(v) for v in val], [float(v) for v in ref], rtol=2e-6, atol=2e-6)
    else:
        return                                           # both were compared with the definition, or will be
    if not ok:
        b.fail("order-dependent", f"{op}{what}: {val!r} in order of arrival, {ref!r} in order of measurement", op=op)


def run(sc):
    return bench.Bench(sc, job).run()


def shrink_job(j):
    if len(j["reports"]) > 1:
        for i in range(len(j["reports"])):
            yield dict(j, reports=j["reports"][:i] + j["reports"][i + 1:])
    for i, r in enumerate(j["reports"]):
        if r["lay"] != "c":
            yield dict(j, reports=j["reports"][:i] + [dict(r, lay="c")] + j["reports"][i + 1:])
        if r.get("hit"):
            yield dict(j, reports=j["reports"][:i] + [dict(r, hit=None)] + j["reports"][i + 1:])
    a = j["arr"]
    size = len(a) // 2
    while size >= 1:
        for i in range(0, len(a), size):
            new = a[:i] + a[i + size:]
            yield dict(j, arr=new, reports=[dict(r, after=min(r["after"], len(new))) for r in j["reports"]])
        size //= 2
        if len(a) > 64 and size < len(a) // 16:
            break
    if a != sorted(a):
        yield dict(j, arr=sorted(a))
    for i, r in enumerate(j["recs"]):
        for f in range(len(r.get("faults", []))):
            yield dict(j, recs=j["recs"][:i] + [dict(r, faults=r["faults"][:f] + r["faults"][f + 1:])] + j["recs"][i + 1:])


def shrink(sc):
    return bench.shrink_jobs(sc, shrink_job)
