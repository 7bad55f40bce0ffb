"""The catalogue of library calls the simulated callers make.

A call is a JSON object {"op": name, "recs": [record specs], "par": {...}, "lay": layout}; build() turns it into the
function, its arguments, and the list of objects that belong to the caller.
"""
import math

import numpy as np

from . import lib, probe

OPS = {}


class Op:
    def __init__(self, name, target, nrec, gen, bind, tags=(), nmin=16, nmax=400):
        self.name, self.target, self.nrec, self.gen, self.bind = name, target, nrec, gen, bind
        self.tags, self.nmin, self.nmax = frozenset(tags), nmin, nmax


def _op(name, target, nrec=1, gen=None, bind=None, tags=(), nmin=16, nmax=400):
    OPS[name] = Op(name, "proadv." + target, nrec, gen or (lambda rng, n: {}), bind or (lambda r, p: (list(r), {})),
                   tags, nmin, nmax)


def flags(rng, n):
    """A schedule of flagged samples: none, one, runs, both ends, many."""
    style = rng.random()
    if style < 0.06:
        return []
    if style < 0.14:
        return [rng.choice((0, 1, n // 2, n - 2, n - 1, rng.randrange(n)))]
    out = set()
    for _ in range(rng.randrange(1, 7)):
        i = rng.randrange(n)
        out.update(range(i, min(n, i + rng.choice((1, 1, 1, 2, 3, 5, 8)))))
    if rng.random() < 0.2:
        out.update(range(0, rng.randrange(1, 4)))
    if rng.random() < 0.2:
        out.update(range(n - rng.randrange(1, 4), n))
    if rng.random() < 0.05:
        out.update(i for i in range(n) if rng.random() < 0.4)
    out = sorted(out)
    if rng.random() < 0.08:                              # in the order in which somebody found them, some twice
        if rng.random() < 0.4 and out:
            out += [rng.choice(out) for _ in range(2)]
        rng.shuffle(out)
    return out


def _idx(p):
    return np.array(p["flag"], dtype=np.int64)


D, S, R = "filtration.detection.", "statistics.", "filtration.replacement.replacements:"

# descriptive / spread / moment
for _n in ("min", "max", "mean", "mode"):
    _op(_n, S + "descriptive:" + _n, tags=("cheap", "stat", "list"), nmax=1500)
_op("median", S + "descriptive:median", tags=("cheap", "stat"), nmax=1500)
_op("variance", S + "spread:variance", tags=("cheap", "stat"), nmax=1500)
_op("std", S + "spread:std", tags=("cheap", "stat"), nmax=1500)
_op("skewness", S + "moment:skewness", tags=("cheap", "stat"), nmax=1200)
_op("kurtosis", S + "moment:kurtosis", tags=("cheap", "stat", "list"), nmax=1200)

# smoothers
_op("ma", S + "series:moving_average", gen=lambda rng, n: {"w": rng.choice((1, 2, 3, 5, 7, min(20, n), max(1, n // 2), n))},
    bind=lambda r, p: ([r[0], p["w"]], {}), tags=("cheap", "series"))
_op("ema", S + "series:exponential_moving_average",
    gen=lambda rng, n: {"alpha": rng.choice((1.0, 0.5, 0.2, 0.05, round(rng.uniform(0.01, 1), 3)))},
    bind=lambda r, p: ([r[0], p["alpha"]], {}), tags=("cheap", "series"))
_op("wma", S + "series:weighted_moving_average", gen=lambda rng, n: {"w": rng.choice((1, 2, 5, min(20, n), max(1, n // 2)))},
    bind=lambda r, p: ([r[0], p["w"]], {}), tags=("cheap", "series"))


def _kal_gen(rng, n):
    return {"s": round(rng.uniform(-3, 3), 2), "p": rng.choice((1.0, 0.1, 10.0)), "q": rng.choice((1e-3, 0.1, 0.5)),
            "r": rng.choice((0.1, 1.0, 4.0))}


def _kal_args(p):
    return [np.array([[p["s"]]]), np.array([[p["p"]]]), np.array([[p["q"]]]), np.array([[p["r"]]])]


_op("kalman", S + "series:kalman_filter", gen=_kal_gen, bind=lambda r, p: ([r[0]] + _kal_args(p), {}),
    tags=("series",), nmax=120)
_op("ssa", S + "series:ssa", gen=lambda rng, n: {"fs": 50, "f": rng.choice((5, 8, 10))},
    bind=lambda r, p: ([r[0], p["fs"], p["f"]], {}), tags=("heavy", "series"), nmin=24, nmax=48)

# normal distribution
for _n in ("cdf", "sf", "log_cdf", "log_sf"):
    _op(_n, S + "distributions.normal:" + _n, tags=("cheap", "dist"), nmax=60)
for _n in ("pdf", "log_pdf"):
    _op(_n, S + "distributions.normal:" + _n, gen=lambda rng, n: {"std": rng.choice((1, 2.5)), "mean": rng.choice((0, 1.5))},
        bind=lambda r, p: ([r[0], p["std"], p["mean"]], {}), tags=("cheap", "dist"), nmax=60)
for _n in ("skewtest", "kurtotest"):
    _op(_n, S + "distributions.normal:" + _n, gen=lambda rng, n: {"alt": rng.choice(("two-sided", "less", "greater"))},
        bind=lambda r, p: ([r[0], p["alt"]], {}), tags=("cheap", "dist"), nmin=24, nmax=300)


# optimisation
def objective(c):
    a, b = c

    def f(x):
        return (x - a) ** 3 + b * (x - a)
    return f


def objective2(c):
    a, b = c

    def f(x, k=0.0):
        return (x - a) ** 2 + b * math.cos(3 * x) + k * x
    return f


_op("brentq", S + "optimize.optimize:brentq", nrec=0,
    gen=lambda rng, n: {"c": [round(rng.uniform(-2, 3), 3), rng.choice((0.0, 0.1, 2.0))], "full": rng.random() < 0.5,
                        "it": rng.choice((500, 500, 500, 40, 4)), "tol": rng.choice((1.48e-8, 1.48e-8, 1e-3, 1e-12))},
    bind=lambda r, p: ([objective(p["c"]), -3.0, 5.0], {"full_output": p["full"], "maxiter": p["it"], "xtol": p["tol"]}), tags=("opt",))
_op("fminbound", S + "optimize.optimize:fminbound", nrec=0,
    gen=lambda rng, n: {"c": [round(rng.uniform(-2, 3), 3), rng.choice((0.0, 0.1, 0.5))], "full": rng.random() < 0.5,
                        "k": rng.choice((0.0, 0.3)), "it": rng.choice((500, 500, 500, 20, 3)), "tol": rng.choice((1e-5, 1e-5, 1e-2, 1e-9))},
    bind=lambda r, p: ([objective2(p["c"]), -3.0, 5.0, (p["k"],)],
                       {"detailed_output": p["full"], "max_evaluations": p["it"], "tolerance": p["tol"]}), tags=("opt",))


# signal
def _butter_gen(rng, n):
    bt = rng.choice(("lp", "hp", "bp", "bs"))
    w = round(rng.uniform(0.05, 0.4), 3)
    return {"q": rng.randrange(1, 7), "w": w if bt in ("lp", "hp") else [w, round(w + rng.uniform(0.05, 0.4), 3)],
            "bt": bt, "out": rng.choice(("nd", "zps", "sop")), "ag": rng.random() < 0.25,
            "sr": rng.choice((None, None, 2.0))}


def _butter_bind(r, p):
    w = p["w"] if not isinstance(p["w"], list) else np.array(p["w"])
    return [p["q"], w], {"btype": p["bt"], "output": p["out"], "ag": p["ag"], "sr": None if p["ag"] else p["sr"]}


def _zpk_gen(rng, n):
    """Zeros and poles of a prototype in conjugate pairs, as the caller's own arrays."""
    def pairs(k, left):
        out = []
        for _ in range(k):
            re, im = round(rng.uniform(0.1, 0.9), 3), round(rng.uniform(0.1, 0.9), 3)
            out += [[-re if left else re, im], [-re if left else re, -im]]
        return out
    npole = rng.randrange(1, 4)
    zero, pole = pairs(rng.randrange(0, npole + 1), False), pairs(npole, True)
    if rng.random() < 0.3:                                       # a real pole, in any place
        pole.insert(rng.randrange(len(pole) + 1), [round(-rng.uniform(0.1, 0.9), 3), 0.0])
    if rng.random() < 0.5:
        rng.shuffle(pole)
        rng.shuffle(zero)
    return {"z": zero, "p": pole, "k": round(rng.uniform(0.5, 3), 3),
            "a": rng.choice((1.0, 0.4, 2.5)), "b": rng.choice((1.0, 0.3)), "ro": rng.random() < 0.3,
            "pg": rng.choice((None, "nr", "kd", "ml")), "ag": rng.random() < 0.35}


def _zpk(p):
    out = []
    for k in ("z", "p"):
        x = np.array([complex(*v) for v in p[k]], dtype=complex)
        x.flags.writeable = not p["ro"]
        out.append(x)
    return out + [p["k"]]


for _n in ("low_to_low", "low_to_high"):
    _op(_n, S + "signal.butter:" + _n, nrec=0, gen=_zpk_gen, bind=lambda r, p: (_zpk(p) + [p["a"]], {}), tags=("cheap", "helper"))
for _n in ("low_to_band", "low_to_stop"):
    _op(_n, S + "signal.butter:" + _n, nrec=0, gen=_zpk_gen, bind=lambda r, p: (_zpk(p) + [p["a"], p["b"]], {}),
        tags=("cheap", "helper"))
_op("bilinear", S + "signal.butter:bilinear", nrec=0, gen=_zpk_gen, bind=lambda r, p: (_zpk(p) + [2 * p["a"]], {}),
    tags=("cheap", "helper"))
_op("ptf", S + "signal.butter:xyz_to_ptf", nrec=0, gen=_zpk_gen, bind=lambda r, p: (_zpk(p), {}), tags=("cheap", "helper"))
_op("sop", S + "signal.butter:xyz_to_sop", nrec=0, gen=_zpk_gen, bind=lambda r, p: (_zpk(p), {"pg": None if p["ag"] else p["pg"], "ag": p["ag"]}),
    tags=("cheap", "helper"))
_op("buttap", S + "signal.butter:buttap", nrec=0, gen=lambda rng, n: {"q": rng.randrange(1, 9)},
    bind=lambda r, p: ([p["q"]], {}), tags=("cheap", "helper"))
_op("butter", S + "signal.butter:butterworth", nrec=0, gen=_butter_gen, bind=_butter_bind, tags=("signal",))
_op("tke", S + "signal.fluid:kinetic_turbulent_energy", nrec=3, tags=("cheap", "multi"), nmax=300)
_op("reynolds", S + "signal.fluid:reynolds_stresses", nrec=3, tags=("cheap", "multi"), nmax=300)
_op("spectrum", S + "signal.spectrum:power_spectra",
    gen=lambda rng, n: {"fs": rng.choice((25.0, 100.0)), "block": rng.choice([b for b in (8, 16, 16, 63, 64, 256) if b <= max(n, 16)]), "ov": rng.choice((0, 4)),
                        "one": rng.random() < 0.7},
    bind=lambda r, p: ([r[0], p["fs"]], {"overlap": p["ov"], "block": p["block"], "onesided": p["one"]}),
    tags=("cheap", "signal"), nmax=2000)
_op("synthetic", S + "signal.synthetic:synthetic_noise",
    gen=lambda rng, n: {"pct": rng.choice((0, 1, 5, 10, 25, 50, round(rng.uniform(0, 100), 1)))},
    bind=lambda r, p: ([r[0], p["pct"]], {}), tags=("random",), nmax=80)

# kernel density
_op("root", "kernel.bivariate:root", nrec=0,
    gen=lambda rng, n: {"c": [rng.choice((1e-13, 1e-4, 0.003, 0.05, 0.5, -0.1)), rng.choice((0.0, 0.1, 2.0))], "n": rng.choice((20, 80, 700, 2000))},
    bind=lambda r, p: ([objective(p["c"]), p["n"]], {}), tags=("cheap", "helper"))
_op("kde2", "kernel.bivariate:bivariate_kernel", nrec=2, gen=lambda rng, n: {"hx": rng.choice((0.05, 0.1)), "hy": 0.08,
                                                                          "grid": rng.choice((4, 8))},
    bind=lambda r, p: ([np.array([r[0], r[1]]), p["hx"], p["hy"], p["grid"]], {}), tags=("heavy", "kernel"), nmin=40,
    nmax=80)
_op("kernel", D + "trivariatekernel:kernel", nrec=2, gen=lambda rng, n: {"grid": rng.choice((8, 12))},
    bind=lambda r, p: ([r[0], r[1], p["grid"]], {}), tags=("heavy", "kernel"), nmax=150)

# detection
_op("acc", D + "acceleration:acceleration_thresholding",
    gen=lambda rng, n: {"f": rng.choice((25, 50, 100, 200)), "tag": rng.choice((1, 2)), "ks": rng.choice((1, 1.5, 0.5)),
                        "kg": rng.choice((1.5, 1, 0.1)), "g": rng.choice((980, 980, 981, 9.81))},
    bind=lambda r, p: ([r[0], p["f"], p["tag"]], {"gravity": p["g"], "k_gravity": p["kg"], "k_sigma": p["ks"]}),
    tags=("cheap", "detect", "list"), nmax=1500)
_op("vc", D + "correlation:velocity_correlation", nrec=3, tags=("detect", "multi"), nmax=300)
_op("pst", D + "phasespace:phasespace_thresholding", tags=("detect",), nmax=300)
_op("premod", D + "phasespace:phasespace_thresholding_premodification",
    gen=lambda rng, n: {"c1": rng.choice((1.5, 1.0)), "c2": rng.choice((1.35, 1.0))},
    bind=lambda r, p: ([r[0], p["c1"], p["c2"]], {}), tags=("cheap", "detect"), nmax=1500)
_op("sph", D + "spherical:spherical_phasespace_thresholding", gen=lambda rng, n: {"it": rng.choice((1, 2)), "cm": 0.5},
    bind=lambda r, p: ([r[0], p["it"], p["cm"]], {}), tags=("detect",), nmax=150)
_op("k3", D + "trivariatekernel:three_dimensional_kernel", gen=lambda rng, n: {"grid": rng.choice((8, 12))},
    bind=lambda r, p: ([r[0], p["grid"]], {}), tags=("heavy", "detect"), nmax=150)
_op("bi_derivative", D + "bivariatekernel:_derivative", tags=("detect",), nmax=200)
_op("bi_cutoff", D + "bivariatekernel:_cutoff", nrec=2, gen=lambda rng, n: {"c1": 0.3, "c2": 0.6, "k": n // 2},
    bind=lambda r, p: ([2.0, r[0], p["c1"], p["c2"], np.abs(r[1]) + 0.1, p["k"], r[0].size], {}), tags=("cheap", "detect"),
    nmax=60)
_op("pollution", D + "pollution:pollution_rate", nrec=2, gen=lambda rng, n: {"k": rng.choice((0.5, 1, 2))},
    bind=lambda r, p: ([r[0], r[1], p["k"]], {}), tags=("cheap", "detect"), nmax=600)

# the public building blocks of the detectors
_op("pst_derivatives", D + "phasespace:calculate_derivatives", tags=("cheap", "helper"), nmax=600)
_op("pst_parameters", D + "phasespace:calculate_parameters", nrec=3, tags=("cheap", "helper"), nmax=600)
_op("vc_parameters", D + "correlation:calculate_parameters", nrec=3, tags=("cheap", "helper"), nmax=600)
_op("calculate_ab", D + "poincare:calculate_ab", nrec=0,
    gen=lambda rng, n: {"s": [round(rng.uniform(0.2, 3), 3) for _ in range(2)], "t": round(rng.uniform(-1.5, 1.5), 3),
                        "l": rng.choice((2.5, 3.4))},
    bind=lambda r, p: (p["s"] + [p["t"], p["l"]], {}), tags=("cheap", "helper"))
_op("calculate_rho", D + "poincare:calculate_rho", nrec=2,
    gen=lambda rng, n: {"t": round(rng.uniform(-1.5, 1.5), 3), "a": rng.choice((1.0, 4.0)), "b": rng.choice((0.5, 2.0))},
    bind=lambda r, p: (list(r) + [p["t"], p["a"], p["b"]], {}), tags=("cheap", "helper"), nmax=600)

# replacement
_dec = lambda rng: rng.choice((4, 4, 2, 6))


def _rep(name, target, extra=None, args=None, kw=None, **o):
    def gen(rng, n):
        p = {"flag": flags(rng, n)}
        if extra:
            p.update(extra(rng, n))
        return p
    _op(name, R + target, gen=gen, bind=lambda r, p: ([r[0], _idx(p)] + (args(p) if args else []), kw(p) if kw else {}),
        tags=("replace",) + tuple(o.pop("tags", ())), **o)


_rep("r_last", "last_valid_data", tags=("cheap",))
_rep("r_mean", "mean_value", tags=("cheap",))
_rep("r_median", "median_value", tags=("cheap",))
_rep("r_linear", "linear_interpolation", lambda rng, n: {"dec": _dec(rng)}, kw=lambda p: {"decimals": p["dec"]},
     tags=("cheap",))
_rep("r_cubic", "cubic_12points_polynomial", lambda rng, n: {"dec": _dec(rng)}, kw=lambda p: {"decimals": p["dec"]},
     nmin=40, nmax=250)
_rep("r_sma", "simple_moving_average", lambda rng, n: {"w": rng.choice((1, 2, 5, min(20, n)))},
     kw=lambda p: {"window_size": p["w"]}, tags=("cheap",))
_rep("r_ema", "exponential_moving_average", lambda rng, n: {"alpha": rng.choice((1.0, 0.5, 0.2))},
     kw=lambda p: {"alpha": p["alpha"]}, tags=("cheap",))
_rep("r_wma", "weighted_moving_average", lambda rng, n: {"w": rng.choice((2, 5, min(20, n // 2)))},
     kw=lambda p: {"period": p["w"]}, tags=("cheap",))
_rep("r_ssa", "ssa", lambda rng, n: {"fs": 50, "f": rng.choice((5, 8, 10))}, args=lambda p: [p["fs"], p["f"]],
     tags=("heavy",), nmin=24, nmax=48)
_rep("r_kalman", "kalman_filter", _kal_gen, args=_kal_args, nmax=100)
_rep("r_poly", "polynomial_replacement", lambda rng, n: {"w": rng.choice((100, 20, 12)), "deg": rng.choice((1, 2)),
                                                        "dec": _dec(rng)},
     kw=lambda p: {"window": p["w"], "degree": p["deg"], "decimals": p["dec"]}, nmax=200, tags=("heavy",))

NONRANDOM = sorted(n for n, o in OPS.items() if "random" not in o.tags)
CHEAP = sorted(n for n, o in OPS.items() if "cheap" in o.tags)


# parameters a call refuses (or at least answers oddly): part of the histories, not an oracle of their own
BAD = {
    "ma": lambda rng, n, p: dict(p, w=rng.choice((0, -1, n + 1, 5 * n))),
    "wma": lambda rng, n, p: dict(p, w=rng.choice((0, -3, n + 1))),
    "ema": lambda rng, n, p: dict(p, alpha=rng.choice((0, 1.5, -0.2))),
    "acc": lambda rng, n, p: dict(p, tag=rng.choice((0, 3, None))),
    "butter": lambda rng, n, p: rng.choice((dict(p, bt="xx"), dict(p, w=1.7), dict(p, out="zz"), dict(p, q=-1), dict(p, w=[0.5, 0.2]))),
    "brentq": lambda rng, n, p: dict(p, c=[rng.choice((40.0, -40.0)), 0.1]),
    "skewtest": lambda rng, n, p: dict(p, alt="sideways"),
    "kurtotest": lambda rng, n, p: dict(p, alt="sideways"),
    "spectrum": lambda rng, n, p: rng.choice((dict(p, block=0), dict(p, ov=64))),
    "ssa": lambda rng, n, p: dict(p, f=rng.choice((60, 0.1))),
    "r_sma": lambda rng, n, p: dict(p, w=rng.choice((0, n + 1))),
    "r_ema": lambda rng, n, p: dict(p, alpha=rng.choice((0, 7))),
    "r_wma": lambda rng, n, p: dict(p, w=rng.choice((0, n + 1))),
    "r_last": lambda rng, n, p: dict(p, flag=[n // 2, n + 5]),
    "r_mean": lambda rng, n, p: dict(p, flag=[n // 2, n + 5]),
    "r_median": lambda rng, n, p: dict(p, flag=[n // 2, n + 5]),
    "r_linear": lambda rng, n, p: dict(p, flag=[n // 2, n + 5]),
    "r_cubic": lambda rng, n, p: dict(p, flag=[n // 2, n + 5]),
    "r_ssa": lambda rng, n, p: dict(p, flag=[n // 2, n + 5]),
    "r_kalman": lambda rng, n, p: dict(p, flag=[n // 2, n + 5]),
    "r_poly": lambda rng, n, p: rng.choice((dict(p, flag=[n // 2, n + 5]), dict(p, deg=-1))),
    "kernel": lambda rng, n, p: dict(p, grid=rng.choice((0, 1))),
    "k3": lambda rng, n, p: dict(p, grid=rng.choice((0, 1))),
    "buttap": lambda rng, n, p: dict(p, q=rng.choice((-2, 2.5))),
    "low_to_stop": lambda rng, n, p: dict(p, z=p["p"] + p["z"] + [[0.5, 0.0]]),
    "low_to_band": lambda rng, n, p: dict(p, z=p["p"] + p["z"] + [[0.5, 0.0]]),
    "bilinear": lambda rng, n, p: dict(p, z=p["p"] + p["z"] + [[0.5, 0.0]]),
    "sop": lambda rng, n, p: dict(p, pg="zz", ag=False),
}


def bad_call(rng, call):
    """The same call with a parameter it refuses, if there is one."""
    f = BAD.get(call["op"])
    if f is None:
        return call
    n = call["recs"][0].get("n", 24) if call["recs"] else 24
    return dict(call, par=f(rng, n, call["par"]))


def prune():
    """Helpers in the catalogue may be gone after a refactoring; they are no part of any property."""
    for name in ["bi_derivative", "bi_cutoff"] + [n for n, o in OPS.items() if "helper" in o.tags]:
        try:
            lib.resolve(OPS[name].target)
        except (AttributeError, KeyError):
            for lst in (NONRANDOM, CHEAP):
                if name in lst:
                    lst.remove(name)


LONG = {"ssa": 320, "r_ssa": 320, "kde2": 400, "k3": 1500, "kernel": 1500, "kalman": 1500, "r_kalman": 1500, "sph": 2200,
        "synthetic": 1500, "median": 8200, "mean": 20000, "min": 8200, "max": 8200, "spectrum": 20000}


def draw_n(rng, op):
    """A record length for this operation: mostly short, now and then at the operation's upper end."""
    lo, hi = op.nmin, op.nmax
    r = rng.random()
    if r < 0.03:                                         # records as long as a real campaign's
        return int(hi * (max(hi, LONG.get(op.name, 4500)) / hi) ** rng.random())
    if r < 0.15:
        hi2 = hi
    elif r < 0.5:
        hi2 = min(hi, max(lo + 8, 120))
    else:
        hi2 = min(hi, max(lo + 4, 48))
    return rng.randrange(lo, hi2 + 1)


def gen_call(rng, name=None, n=None, names=None, faulty=0.5):
    name = name or rng.choice(names or NONRANDOM)
    op = OPS[name]
    if n is None or not (op.nmin <= n <= op.nmax):
        n = draw_n(rng, op)
    if "dist" in op.tags and name in ("cdf", "sf", "log_cdf", "log_sf", "pdf", "log_pdf"):
        recs = [probe.spec(rng, n, sd=1.0, mean=0.0, kind="white")]
    else:
        recs = [probe.spec(rng, n) for _ in range(op.nrec)]
        for r in recs:
            if rng.random() < faulty:
                r["faults"] = probe.faults(rng, n)
    if op.name == "pollution":
        recs[1]["mean"] = 0.0
    return {"op": name, "recs": recs, "par": op.gen(rng, n), "lay": "c"}


class Call:
    """A library call about to be made: function, arguments, and what belongs to the caller."""

    def __init__(self, spec, shared=None):
        op = OPS[spec["op"]]
        self.spec = spec
        arrays, self.owned = [], []
        for r in spec["recs"]:
            if "buf" in r:                            # a buffer the caller keeps and refills
                a, b = shared[r["buf"]]
            else:
                x = probe.record(r)
                if spec.get("lay") == "list" and "list" in op.tags:
                    a = b = x.tolist()
                else:
                    a, b = probe.layout(x, spec.get("lay", "c"))
            arrays.append(a)
            self.owned.append(b)
        self.target = op.target
        self.args, self.kwargs = op.bind(arrays, spec["par"])
        for a in self.args:
            if isinstance(a, (np.ndarray, list)) and not any(a is o for o in self.owned) \
                    and not any(a is x for x in arrays):
                self.owned.append(a)
        self.arrays = arrays

    @property
    def fn(self):
        return lib.resolve(self.target)


def snapshot(obj):
    if isinstance(obj, np.ndarray):
        return (obj.dtype.str, obj.shape, obj.tobytes(), obj.flags.writeable)
    return ("list", tuple(obj))


def unchanged(obj, snap):
    if isinstance(obj, np.ndarray):
        return obj.dtype.str == snap[0] and obj.shape == snap[1] and obj.tobytes() == snap[2] and obj.flags.writeable == snap[3]
    return len(obj) == len(snap[1]) and all(a is b or a == b or (a != a and b != b) for a, b in zip(obj, snap[1]))
