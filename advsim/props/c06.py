"""C06: root and minimum search survive any behaviour of the user's function."""
import math

import numpy as np

from .. import lib, ops
from ..sim import Abort, Hang
from . import bench, common

ID = "C06"
RUNS = {"quick": 28000, "thorough": 250000}
RULE = ("Each run lets one to three callers search for roots or minima of functions played by the simulator: smooth, steep, "
        "flat, discontinuous or sign-only, which at scheduled evaluations return NaN, infinities, huge or noisy values, "
        "raise (ordinary errors, ValueError, Ctrl-C), take simulated time so that other callers run, or start another "
        "search. The simulator's own log of evaluations is the oracle. Non-trivial: a fault fired or a preemption took place.")
MEASURE = "SHA-256 over evaluation logs, preemption points and fired faults"
COMPONENTS = dict(common.COMPONENTS, simulated=["the user's function and its faults", "thread scheduling", "time"])
ASSUMPTIONS = ["tolerances above rounding (absolute tolerance at least 1e-12 times the interval's magnitude)",
               "convergence is demanded only for monotone (root) and unimodal (minimum) functions that do not fail",
               "a minimiser may always make two evaluations"]


class Boom(Exception):
    pass


class Odd(BaseException):
    pass


RAISE = {"Boom": Boom, "ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt, "StopIteration": StopIteration,
         "ZeroDivisionError": ZeroDivisionError, "MemoryError": MemoryError, "Odd": Odd, "RecursionError": RecursionError,
         "FloatingPointError": FloatingPointError, "IndexError": IndexError}


def root_fn(kind, c, k):
    return {
        "lin": lambda x: k * (x - c),
        "cubic": lambda x: k * ((x - c) ** 3 + 0.01 * (x - c)),
        "pow9": lambda x: k * (x - c) ** 9,
        "sign": lambda x: k if x > c else -k,
        "step0": lambda x: k if x > c + 0.05 else (-k if x < c - 0.05 else 0.0),
        "exp": lambda x: k * (math.exp(min(50.0, 3 * (x - c))) - 1),
        "atan": lambda x: k * math.atan(40 * (x - c)),
        "sqrt": lambda x: k * math.copysign(abs(x - c) ** 0.5, x - c),
        "pole": lambda x: k / (x - c) if x != c else 0.0,
        "sin": lambda x: k * math.sin(3 * (x - c)),
        "skew": lambda x: k * ((x - c) if x < c else 1e6 * (x - c)),
    }[kind]


MONO = ("lin", "cubic", "sign", "exp", "atan", "sqrt", "skew")


def min_fn(kind, c, k):
    return {
        "sq": lambda x: k * (x - c) ** 2,
        "abs": lambda x: k * abs(x - c),
        "quart": lambda x: k * (x - c) ** 4,
        "asym": lambda x: k * (5 * (c - x) if x < c else (x - c)),
        "root": lambda x: k * abs(x - c) ** 0.5,
        "wavy": lambda x: k * ((x - c) ** 2 + 0.5 * math.cos(9 * x)),
        "flat": lambda x: k,
        "stair": lambda x: k * math.floor(4 * abs(x - c)),
        "down": lambda x: -k * x,
    }[kind]


UNI = ("sq", "abs", "quart", "asym", "root")


def gen_faults(rng, budget):
    out = []
    for _ in range(rng.choice((0, 1, 1, 1, 2, 3))):
        at = rng.choice((1, 2, 3, 4, rng.randrange(1, 12), rng.randrange(1, 40)))
        k = rng.choice(("raise", "raise", "nan", "inf", "ninf", "huge", "noise", "zero", "flip", "sleep", "nest", "tiny"))
        f = {"at": at, "kind": k}
        if k == "raise":
            f["exc"] = rng.choice(sorted(RAISE))
        if k in ("nan", "inf", "ninf", "huge", "noise", "flip"):
            f["len"] = rng.choice((1, 1, 1, 2, 5, 1000))
        f["amp"] = rng.choice((1e-3, 0.3, 5.0))
        out.append(f)
    return out


def gen_solve(rng, depth=0):
    what = rng.choice(("root", "min"))
    lo = rng.choice((-3.0, 0.0, -1.0, 1e-3, -50.0, 100.0, round(rng.uniform(-5, 5), 3)))
    width = rng.choice((8.0, 1.0, 1e-2, 300.0, round(rng.uniform(0.1, 20), 3)))
    c = lo + width * rng.choice((rng.random(), rng.random(), rng.random(), 0.0, 1.0, 0.5, 1e-6, -0.1, 1.2))
    k = rng.choice((1.0, 1.0, 1e-8, 1e8, 1e-200, 1e200)) * (rng.choice((-1, 1)) if what == "root" else 1)
    mag = abs(lo) + width
    j = {"what": what, "lo": lo, "hi": lo + width, "fc": c, "fk": k, "full": rng.random() < 0.6,
         "fn": rng.choice(("lin", "cubic", "pow9", "sign", "step0", "exp", "atan", "sqrt", "pole", "sin", "skew") if what == "root"
                          else ("sq", "abs", "quart", "asym", "root", "wavy", "flat", "stair", "down")),
         "fseed": rng.randrange(1 << 30), "type": rng.choice(("float",) * 5 + ("np64", "0d", "int", "np32"))}
    if what == "root":
        if rng.random() < 0.6:
            j["xtol"] = max(rng.choice((1e-3, 1e-6, 1e-10)), 1e-12 * mag)
        if rng.random() < 0.3:
            j["rtol"] = rng.choice((1e-4, 1e-8))
        if rng.random() < 0.35:
            j["maxiter"] = rng.choice((1, 2, 3, 5, 8, 20, 100))
    else:
        if rng.random() < 0.6:
            j["tol"] = rng.choice((1e-2, 1e-4, 1e-7)) * max(1.0, mag * 1e-2)
        if rng.random() < 0.12 and j["lo"] < j["hi"]:    # a minimum within the tolerance of an end of the interval
            d = j.get("tol", 1e-5) * 10 ** rng.uniform(-2, 0.3)
            if d < (j["hi"] - j["lo"]) / 4:
                j["fc"] = rng.choice((j["lo"] + d, j["hi"] - d))
        if rng.random() < 0.35:
            j["maxev"] = rng.choice((1, 2, 3, 5, 8, 20, 100))
        if rng.random() < 0.3:
            j["par"] = [round(rng.uniform(-1, 1), 3) for _ in range(rng.choice((1, 2)))]
    if rng.random() < 0.02:
        j["lo"], j["hi"] = j["hi"], j["lo"]
    j["faults"] = gen_faults(rng, 500) if rng.random() < 0.75 else []
    for f in j["faults"]:
        if f["kind"] == "nest":
            if depth < 2:
                f["solve"] = gen_solve(rng, depth + 1)
            else:
                f["kind"] = "sleep"
    return j


def gen(rng, i, tier):
    nc = rng.choice((1, 1, 2, 3))
    jobs = [dict(gen_solve(rng), c=c) for c in range(nc) for _ in range(rng.choice((1, 2)))]
    return {"sched": bench.sched(rng, nc), "jobs": jobs}


def typed(kind, v):
    """The value as the user's function hands it over."""
    if kind == "np64":
        return np.float64(v)
    if kind == "0d":
        return np.array(v)
    if kind == "np32":
        with np.errstate(all="ignore"):
            return np.float32(v)
    if kind == "int" and math.isfinite(v) and (v == int(v) and abs(v) < 1e15):
        return int(v)
    return v


class Env:
    """The user's function: behaves as scheduled and keeps the log."""

    def __init__(self, b, cl, j):
        self.b, self.cl, self.j = b, cl, j
        self.f = (root_fn if j["what"] == "root" else min_fn)(j["fn"], j["fc"], j["fk"])
        self.log = []                         # (x, value)
        self.n = 0
        self.raised = None
        self.late = False
        self.dirty = False
        self.badargs = None

    def __call__(self, x, *par):
        b, j = self.b, self.j
        if self.raised is not None:
            self.late = True
        self.n += 1
        if tuple(par) != tuple(j.get("par", ())):
            self.badargs = par
        x = float(x)
        v = self.f(x)
        for t, f in enumerate(j["faults"]):
            if not f["at"] <= self.n < f["at"] + f.get("len", 1):
                continue
            k = f["kind"]
            b.fault("function: " + k)
            b.sim.sig.update(b"F%d:%d" % (t, self.n))
            if k == "sleep":
                b.sim.sleep(self.cl, 0.01)
                continue
            if k == "nest":
                solve(b, self.cl, f["solve"], nested=True)
                b.probe("re-entered")
                continue
            self.dirty = True
            if k == "raise":
                self.raised = RAISE[f["exc"]]("from the user's function")
                self.log.append((x, None))
                raise self.raised
            if k == "nan":
                v = math.nan
            elif k == "inf":
                v = math.inf
            elif k == "ninf":
                v = -math.inf
            elif k == "huge":
                v = v * 1e100
            elif k == "tiny":
                v = v * 1e-100
            elif k == "zero":
                v = 0.0
            elif k == "flip":
                v = -v
            elif k == "noise":
                v = v + abs(j["fk"]) * f["amp"] * math.sin(1e4 * x + j["fseed"] + self.n)
        out = typed(j.get("type", "float"), v)
        if float(out) != v:                      # single precision: a flatter function than the one described
            self.dirty = True
        self.log.append((x, float(out)))
        return out


def solve(b, cl, j, nested=False):
    env = Env(b, cl, j)
    root = j["what"] == "root"
    name = "brentq" if root else "fminbound"
    fn = lib.resolve(ops.OPS[name].target)
    kw = {}
    if root:
        for k in ("xtol", "rtol", "maxiter"):
            if k in j:
                kw[k] = j[k]
        kw["full_output"] = j["full"]
    else:
        if "tol" in j:
            kw["tolerance"] = j["tol"]
        if "maxev" in j:
            kw["max_evaluations"] = j["maxev"]
        if "par" in j:
            kw["parameters"] = tuple(j["par"])
        kw["detailed_output"] = j["full"]

    def go():
        try:
            return ("ok", fn(env, j["lo"], j["hi"], **kw))
        except (Abort, Hang):
            raise
        except BaseException as e:
            return ("exc", e)

    if nested:                                   # already inside a call of this caller
        out = go()
    else:
        res = b.sim.call(cl, go, [], {}, budget=400_000)
        if b.sim.aborting:
            raise Abort()
        if res[0] == "hang":
            b.fail("hang", f"{name}: no answer within {res[1]} steps, {env.n} evaluations", op=name)
        out = res[1]
    b.calls += 1
    b.ops.add(name)
    b.sim.note(name, cl.cid, out[0], env.n, repr(out[1])[:60] if out[0] == "ok" else type(out[1]).__name__)
    tag = f"{name}[{j['lo']:g}, {j['hi']:g}] of {j['fn']}(c={j['fc']:.6g}, k={j['fk']:g})"
    judge(b, j, env, out, tag, name)


def judge(b, j, env, out, tag, name):
    root = j["what"] == "root"
    lo, hi = j["lo"], j["hi"]
    bad = lambda kind, text: b.fail(kind, f"{tag}: {text}; evaluations: {[(x, v) for x, v in env.log[-6:]]}", op=name)
    if env.badargs is not None:
        bad("parameters", f"the function was called with extra arguments {env.badargs}, not {j.get('par', ())}")
    if lo > hi:
        if out[0] != "exc" or not isinstance(out[1], ValueError):
            bad("interval", "an empty interval was accepted")
        return
    eps = 1e-13 * (abs(lo) + abs(hi))
    for x, _ in env.log:
        if not (lo - eps <= x <= hi + eps):
            bad("outside", f"evaluated at {x!r}")
    limit = (j.get("maxiter", 500) + 2) if root else max(2, j.get("maxev", 500))
    if env.n > limit:
        bad("budget", f"{env.n} evaluations with a budget of {limit}")
    if env.raised is not None:
        if out[0] != "exc" or out[1] is not env.raised:
            bad("exception-lost", f"the function raised {env.raised!r}, the caller got {out[1]!r}")
        if env.late:
            bad("exception-lost", "the function was evaluated again after it had raised")
        return
    log = [(x, v) for x, v in env.log if v is not None]
    if out[0] == "exc" and not isinstance(out[1], ValueError):
        bad("raised", f"raised {type(out[1]).__name__}: {out[1]}")
    if root:
        judge_root(b, j, env, out, log, bad)
    else:
        judge_min(b, j, env, out, log, bad)


def judge_root(b, j, env, out, log, bad):
    lo, hi = j["lo"], j["hi"]
    clean = not env.dirty
    fa, fb = env.f(lo), env.f(hi)
    converged = out[0] == "ok"
    if out[0] == "ok":
        if j["full"]:
            d = out[1]
            if not isinstance(d, dict) or not {"root", "function_calls", "converged"} <= set(d):
                bad("report", f"full_output is {d!r}")
            converged, r = bool(d["converged"]), d["root"]
            if d["function_calls"] != env.n:
                bad("count", f"reports {d['function_calls']} function calls, made {env.n}")
        else:
            r = out[1]
    if converged:
        r = float(r)
        exact = any(x == r and v == 0 for x, v in log)
        if not exact:
            tol = 2 * (j.get("xtol", 1.48e-8) + j.get("rtol", 1.48e-8) * abs(r)) + 1e-13 * (abs(lo) + abs(hi))
            near = [(x, v) for x, v in log if abs(x - r) <= tol]
            pos = [x for x, v in near if v > 0]
            neg = [x for x, v in near if v < 0]
            if not (pos and neg and min(pos + neg) <= r <= max(pos + neg)):
                bad("not-a-root", f"claims the root {r!r}, but no sign change was observed within {tol:.3g} of it")
        b.probe("root claimed and confirmed")
    else:
        b.probe("failure reported")
    if clean:
        opposite = fa == 0 or fb == 0 or (fa < 0) != (fb < 0)
        if not opposite and converged:
            bad("not-bracketed", "the end points have the same sign, yet success is claimed")
        if opposite and j["fn"] in MONO and j.get("maxiter", 500) >= 100 and not converged:
            bad("not-found", f"no root found of a monotone function with opposite signs at the ends ({out[1]!r})")


def judge_min(b, j, env, out, log, bad):
    lo, hi = j["lo"], j["hi"]
    if out[0] == "exc":
        bad("raised", f"raised {type(out[1]).__name__}: {out[1]}")
    seen_nan = any(v != v for _, v in log)
    if j["full"]:
        if not isinstance(out[1], tuple) or len(out[1]) != 4:
            bad("report", f"detailed output is {out[1]!r}")
        x, fv, flag, count = out[1]
        if count != env.n:
            bad("count", f"reports {count} evaluations, made {env.n}")
        if flag not in (0, 1, 2):
            bad("report", f"flag {flag!r}")
        if flag == 2 and not seen_nan:
            bad("report", "flag 2 (NaN) although no NaN was seen")
    else:
        x, fv, flag = out[1], None, None
    x = float(x)
    if flag == 2 or (flag is None and seen_nan):
        return
    best = min((v for _, v in log if v == v), default=None)
    if best is None:
        bad("report", f"success claimed although every evaluation was NaN: {out[1]!r}")
    if not any(p == x and v == best and (fv is None or v == fv) for p, v in log):
        bad("not-best", f"returned x={x!r} with value {fv!r}; the best evaluation was {min((v, p) for p, v in log if v == v)!r}")
    b.probe("minimum confirmed as best")
    if not env.dirty and j["fn"] in UNI:
        tol = j.get("tol", 1e-5)
        target = min(max(j["fc"], lo), hi)
        big = j.get("maxev", 500) >= 500
        if big and flag == 1:
            bad("not-found", "a unimodal function's minimum was not found within the default budget")
        if flag == 0 or (flag is None and big):
            if abs(x - target) > 5 * (1.6e-8 * abs(x) + tol / 3) + 1e-12 * (hi - lo):
                bad("not-a-minimum", f"claims {x!r}, the minimum is at {target!r} (tolerance {tol})")


def job(b, cl, j):
    solve(b, cl, j)


def run(sc):
    return bench.Bench(sc, job).run()


def shrink_job(j):
    for i in range(len(j["faults"])):
        yield dict(j, faults=j["faults"][:i] + j["faults"][i + 1:])
    for i, f in enumerate(j["faults"]):
        if f["kind"] == "nest":
            yield dict(f["solve"], c=j.get("c", 0))
            for s in shrink_job(f["solve"]):
                yield dict(j, faults=j["faults"][:i] + [dict(f, solve=s)] + j["faults"][i + 1:])
        if f.get("len", 1) > 1:
            yield dict(j, faults=j["faults"][:i] + [dict(f, len=1)] + j["faults"][i + 1:])
    if j["fk"] != 1.0:
        yield dict(j, fk=1.0)
    if j.get("type", "float") != "float":
        yield dict(j, type="float")
    if "par" in j:
        yield {k: v for k, v in j.items() if k != "par"}


def shrink(sc):
    return bench.shrink_jobs(sc, shrink_job)
