"""C15: filter nodes configured alike filter alike, in every representation and across restarts."""
import numpy as np

from .. import lib, probe
from . import bench, common

ID = "C15"
RUNS = {"quick": 16000, "thorough": 100000}
RULE = ("Each run sets up one to three filter nodes for the same Butterworth filter, each with its own representation (polynomials, "
        "zeros and poles, second-order sections) and its cut-off given relative to the Nyquist frequency or in hertz. A "
        "velocimeter's record (with sensor faults) streams through every node in blocks. Nodes are preempted, interrupted while "
        "they design the filter, and crash between blocks; a restarted node imports the package anew, designs its filter again "
        "and continues from the filter registers it had made durable. Outputs of all nodes must agree with each other and with "
        "the same node run without faults; the response must follow the Butterworth law at the cut-offs, in the pass band and in "
        "the stop band, and all poles must be stable. Non-trivial: a fault was injected or a preemption took place.")
MEASURE = "SHA-256 over designs, preemption points and fired faults"
COMPONENTS = dict(common.COMPONENTS, simulated=common.COMPONENTS["simulated"] + [
    "the node: running the recursion, its registers, checkpoints and restarts (the package designs filters, it does not run them)"])
ASSUMPTIONS = ["the polynomial representation only for orders 1 to 5, cut-offs between 0.08 and 0.92 of Nyquist and bands at least 0.1 "
               "wide, where its coefficients are well conditioned; the other two up to order 16 (bands: 8), cut-offs from 1e-5 to "
               "1 - 1e-5 and bands from 0.002", "responses agree to 1e-6 (polynomials) or 1e-8, streams to 1e-6 of the largest sample (orders above 6 "
               "and bands below 0.05: responses only, a stream's rounding error is the node's own there)"]

FORMS = ("nd", "zps", "sop")


def gen(rng, i, tier):
    nc = rng.choice((1, 1, 2, 3))
    filters = []
    for _ in range(rng.choice((1, 1, 2))):
        bt = rng.choice(("lp", "hp", "bp", "bs"))
        q = rng.randrange(1, 6 if bt in ("lp", "hp") else 4)
        ag = rng.random() < 0.2
        if bt in ("lp", "hp"):
            w = rng.uniform(0.08, 0.92)
        else:
            a = rng.uniform(0.08, 0.7)
            w = [a, rng.uniform(a + 0.1, 0.92)]
        if rng.random() < 0.3:
            w = round(w, 2) if isinstance(w, float) else [round(v, 2) for v in w]
        hard = rng.random() < 0.3                        # beyond what polynomials can represent
        if hard:
            q = rng.randrange(1, 17 if bt in ("lp", "hp") else 9)
            wide = rng.choice((0.002, 0.005, 0.02, 0.1, 0.3))
            if bt in ("lp", "hp"):
                w = rng.choice((rng.uniform(0.005, 0.995), rng.uniform(0.1, 0.9)))
            else:
                a = rng.uniform(0.02, 0.97 - wide)
                w = [a, a + wide]
            if not ag and rng.random() < 0.2:            # far below (or just short of) the Nyquist frequency
                e = 10 ** rng.uniform(-5, -2)
                if bt in ("lp", "hp"):
                    q, w = rng.randrange(1, 9), rng.choice((e, e, 1 - e))
                else:
                    q, w = rng.randrange(1, 5), [e, e * rng.uniform(1.5, 5)]
            if ag:
                scale = rng.choice((0.01, 1, 50.0, 1e3))
                w = [v * scale for v in w] if isinstance(w, list) else w * scale
        ints = None
        if rng.random() < 0.12:                          # whole numbers of hertz (or rad/s), as an instrument's register holds them
            kind = rng.choice(("u1", "i2", "u2", "i4", "i8"))
            sr = rng.choice((2, 2000.0, 90000.0)) if ag else rng.choice((100, 240, 500, 1000, 20000, 60000.0))
            scale = rng.choice((50, 1e3, 6e4)) / max(w if isinstance(w, list) else [w]) if ag else sr / 2
            k = [round(v * scale) for v in (w if isinstance(w, list) else [w])]
            if k[0] > 0 and k[-1] <= np.iinfo(kind).max and (len(k) == 1 or k[1] - k[0] >= 0.1 * k[1]) and (ag or k[-1] < 0.95 * sr / 2):
                ints = [kind, None if ag else sr, k]
                w = [float(v) if ag else 2 * v / sr for v in k]
                w = w if len(w) > 1 else w[0]
                hard = hard or ag
        filters.append({"q": q, "w": w, "bt": bt, "ag": ag, "upper": rng.random() < 0.1, "hard": hard, "ints": ints})
    rec = probe.spec(rng, rng.choice((6, 30, 80)))
    rec["faults"] = probe.faults(rng, rec["n"], most=3)
    jobs = []
    for f, flt in enumerate(filters):
        for form in ("zps", "sop") if flt["hard"] else rng.sample(FORMS, rng.choice((2, 3, 3))):
            blocks, left = [], rec["n"]
            while left > 0:
                b = min(left, rng.choice((1, 3, 8, 20, left)))
                blocks.append([b, rng.choice(("ok", "ok", "ok", "crash before", "crash after"))])
                left -= b
            jobs.append({"c": rng.randrange(nc), "f": f, "form": form, "sr": None if flt["ag"] else rng.choice((None, flt["ints"][1], flt["ints"][1])) if flt["ints"] else rng.choice((None, None, 2.0, 50.0, 25, 64, 1.0)),
                         "blocks": blocks, "hit": bench.hit(rng, 0.2), "arr": rng.choice(("array", "list", "tuple"))})
    rng.shuffle(jobs)
    return {"sched": bench.sched(rng, nc), "filters": filters, "rec": rec, "jobs": jobs}


def design(b, cl, sc, j, hit=None):
    flt = sc["filters"][j["f"]]
    w = flt["w"]
    if j["sr"]:
        w = (np.array(w) * (j["sr"] / 2)).tolist()
    ints = flt.get("ints")
    if ints and ints[1] == j["sr"]:
        w = np.array(ints[2], dtype=ints[0]) if len(ints[2]) > 1 else np.array(ints[2], dtype=ints[0])[0]
        b.probe("cut-offs in whole numbers")
    elif isinstance(w, list):
        w = np.array(w) if j["arr"] == "array" else tuple(w) if j["arr"] == "tuple" else list(w)
    bt = flt["bt"].upper() if flt["upper"] else flt["bt"]
    kw = {"btype": bt, "output": j["form"], "ag": flt["ag"]}
    if j["sr"]:
        kw["sr"] = j["sr"]
    return b.value(cl, "butter", [flt["q"], w], kw, hit=hit, what=f"({flt['q']}, {w}, {kw})")


def sections(form, d):
    """The design as first- or second-order (or one high-order) recursions: [(b, a)], complex allowed, plus a gain."""
    if form == "nd":
        g, h = (np.atleast_1d(np.asarray(v)) for v in d)
        n = max(g.size, h.size)
        return 1.0, [(np.concatenate((np.zeros(n - g.size), g)), np.concatenate((np.zeros(n - h.size), h)))]
    if form == "zps":
        z, p, k = np.atleast_1d(d[0]).astype(complex), np.atleast_1d(d[1]).astype(complex), float(np.real(d[2]))
        out = []
        for i in range(p.size):
            num = np.array([1.0, -z[i]]) if i < z.size else np.array([0.0, 1.0])
            out.append((num, np.array([1.0, -p[i]])))
        return k, out
    s = np.atleast_2d(np.asarray(d, dtype=float))
    return 1.0, [(r[:3].astype(complex), r[3:].astype(complex)) for r in s]


def response(form, d, s):
    """Frequency response at the points s (z on the unit circle, or j*omega for an analogue filter)."""
    k, secs = sections(form, d)
    h = np.full(s.shape, k, dtype=complex)
    for num, den in secs:
        h = h * np.polyval(num, s) / np.polyval(den, s)
    return h


def poles(form, d):
    return np.concatenate([np.roots(np.trim_zeros(den, "f")) for _, den in sections(form, d)[1]])


def law(flt, f):
    """|H| of the Butterworth filter at frequencies f (relative to Nyquist; analogue: rad/s)."""
    t = f if flt["ag"] else np.tan(np.pi * f / 2)
    w = np.atleast_1d(np.array(flt["w"], dtype=float))
    c = w if flt["ag"] else np.tan(np.pi * w / 2)
    if flt["bt"] == "lp":
        om = t / c[0]
    elif flt["bt"] == "hp":
        om = c[0] / t
    elif flt["bt"] == "bp":
        om = np.abs((t * t - c[0] * c[1]) / (t * (c[1] - c[0])))
    else:
        with np.errstate(divide="ignore"):
            om = np.abs(t * (c[1] - c[0]) / (t * t - c[0] * c[1]))
    with np.errstate(over="ignore"):
        return 1 / np.sqrt(1 + om ** (2 * flt["q"]))


class Node:
    """A filter node: sections in transposed direct form, registers durable at checkpoints."""

    def __init__(self, form, d, regs=None):
        self.k, secs = sections(form, d)
        if form == "zps":                                # numerator and denominator as polynomials in 1/z
            secs = [(num if num[0] != 0 else np.array([0.0, 1.0]), den) for num, den in secs]
        self.secs = [(np.asarray(num) / den[0], np.asarray(den) / den[0]) for num, den in secs]
        self.regs = [np.zeros(len(den) - 1, dtype=complex) for _, den in self.secs] if regs is None else [r.copy() for r in regs]

    def push(self, block):
        out = np.empty(len(block))
        for i, v in enumerate(block):
            v = self.k * complex(v)
            for (num, den), r in zip(self.secs, self.regs):
                y = num[0] * v + (r[0] if r.size else 0)
                for m in range(r.size):
                    r[m] = (r[m + 1] if m + 1 < r.size else 0) + num[m + 1] * v - den[m + 1] * y
                v = y
            out[i] = v.real
        return out


def same_design(a, b):
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same_design(x, y) for x, y in zip(a, b))
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.tobytes() == b.tobytes()


def job(b, cl, j):
    sc, flt, form = b.sc, b.sc["filters"][j["f"]], j["form"]
    d = design(b, cl, sc, j, hit=j.get("hit"))
    what = f"butterworth({flt}, {form}, sr={j['sr']})"
    f = np.array([0.02, 0.1, 0.23, 0.4, 0.55, 0.7, 0.85, 0.97])
    if flt["ag"] and flt.get("hard"):
        f = f * np.max(flt["w"]) * 1.4
    f = np.concatenate((f, np.atleast_1d(flt["w"])))
    s = 1j * f if flt["ag"] else np.exp(1j * np.pi * f)
    h, want = np.abs(response(form, d, s)), law(flt, f)
    tol = 1e-6 if form == "nd" else 1e-8
    if not flt["ag"]:                                    # a section's value at z near 1 or -1 is a difference of nearly equal numbers
        edge = np.pi * min(np.min(flt["w"]), 1 - np.max(flt["w"]))
        tol += 1e-14 * flt["q"] / edge ** 2
    if not (np.abs(h - want) <= tol).all():
        i = int(np.argmax(np.abs(h - want)))
        b.fail("response", f"{what}: gain {h[i]!r} at {f[i]}, the Butterworth law gives {want[i]!r}", op="butter")
    p = poles(form, d)
    if not ((p.real < 1e-9 * np.max(flt["w"])).all() if flt["ag"] else (np.abs(p) < 1 + (1e-6 if form == "nd" else 0)).all()):
        b.fail("unstable", f"{what}: poles {p!r}", op="butter")
    if flt["ag"]:
        return
    x = probe.record(sc["rec"])
    for fl in sc["rec"].get("faults", []):
        b.fault("sensor " + fl[0])
    node, out, pos = Node(form, d), [], 0
    for size, fate in j["blocks"]:
        block = x[pos:pos + size]
        durable = [r.copy() for r in node.regs]
        if fate == "crash before":
            b.fault("node crashed, block repeated")
        y = node.push(block)
        if fate != "ok":
            if fate == "crash after":
                b.fault("node crashed after its checkpoint")
                durable = [r.copy() for r in node.regs]
            lib.fresh() if len(set(k["c"] for k in sc["jobs"])) == 1 else None
            d2 = design(b, cl, sc, j)
            if not same_design(d, d2):
                b.fail("redesign", f"{what}: designed again after a restart, the filter is another one", op="butter")
            node = Node(form, d2, durable)
            if fate == "crash before":
                y = node.push(block)
        out.append(y)
        pos += size
    out = np.concatenate(out)
    if flt.get("hard") and (flt["q"] > 6 or flt["bt"] in ("bp", "bs") and flt["w"][1] - flt["w"][0] < 0.05):
        b.probe("steep or narrow filter: streams not compared")  # the node's own arithmetic would be compared
        return
    ref = b.__dict__.setdefault("streams", {}).setdefault(j["f"], (form, out))
    tol = 1e-6 * (np.abs(x).max() + 1e-300)
    if not (np.abs(ref[1] - out) <= tol).all():
        i = int(np.argmax(np.abs(ref[1] - out)))
        b.fail("nodes-disagree", f"{what}: sample {i} is {out[i]!r}, the node with {ref[0]} says {ref[1][i]!r}", op="butter")
    if ref[0] != form:
        b.probe("two representations compared")


def run(sc):
    return bench.Bench(sc, job).run()


def shrink_job(j):
    if len(j["blocks"]) > 1:
        yield dict(j, blocks=[[sum(x[0] for x in j["blocks"]), "ok"]])
    for i, x in enumerate(j["blocks"]):
        if x[1] != "ok":
            yield dict(j, blocks=j["blocks"][:i] + [[x[0], "ok"]] + j["blocks"][i + 1:])


def shrink(sc):
    yield from bench.shrink_jobs(sc, shrink_job)
    if sc["rec"].get("faults"):
        yield dict(sc, rec=dict(sc["rec"], faults=[]))
