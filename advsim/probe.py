"""The simulated velocimeter: a turbulent record plus a schedule of instrument faults.

A record is described by a small JSON object, so scenarios stay explicit and can be minimised.  Nothing here touches
NumPy's global generator.
"""
import numpy as np

KINDS = ("turb", "turb", "turb", "white", "sine", "quant", "ramp")


def rng_for(seed):
    return np.random.Generator(np.random.PCG64(seed & 0xFFFFFFFFFFFF))


def base(kind, n, seed, sd):
    g = rng_for(seed)
    if kind == "turb":                      # first-order autoregressive fluctuation, like a filtered ADV signal
        rho = 0.3 + 0.6 * g.random()
        e = g.standard_normal(n + 20)
        x = np.empty(n + 20)
        x[0] = e[0]
        s = np.sqrt(1 - rho * rho)
        for i in range(1, n + 20):
            x[i] = rho * x[i - 1] + s * e[i]
        return sd * x[20:]
    if kind == "white":
        return sd * g.standard_normal(n)
    if kind == "sine":
        f = 0.01 + 0.2 * g.random()
        return sd * (1.4 * np.sin(2 * np.pi * (f * np.arange(n) + g.random())) + 0.1 * g.standard_normal(n))
    if kind == "quant":                     # coarse analogue-digital converter
        return np.round(g.standard_normal(n) * 4) / 4 * sd
    if kind == "ramp":
        return sd * (np.linspace(-2, 2, n) + 0.3 * g.standard_normal(n))
    if kind == "const":
        return np.zeros(n)
    raise ValueError(kind)


def record(spec):
    n = spec["n"]
    sd = spec.get("sd", 1.0)
    x = base(spec.get("kind", "turb"), n, spec["seed"], sd) + spec.get("mean", 0.0)
    for f in spec.get("faults", ()):
        kind, i = f[0], f[1]
        if i >= n:
            continue
        if kind == "spike":                 # amplitude in standard deviations
            x[i] += f[2] * sd
        elif kind == "burst":
            j = min(n, i + f[2])
            x[i:j] += f[3] * sd
        elif kind == "drop":                # signal lost: zeros
            x[i:min(n, i + f[2])] = 0.0
        elif kind == "stuck":
            x[i:min(n, i + f[2])] = x[i]
        elif kind == "set":
            x[i:min(n, i + f[2])] = f[3]
        elif kind == "nan":
            x[i:min(n, i + f[2])] = np.nan
        elif kind == "inf":
            x[i:min(n, i + f[2])] = np.inf * f[3]
        elif kind == "swap":                # two samples exchanged: same multiset, other order
            j = f[2] % n
            x[i], x[j] = x[j], x[i]
        else:
            raise ValueError(kind)
    if spec.get("round") is not None:
        x = np.around(x, spec["round"])
    return x


def layout(x, how):
    """The same samples in another memory layout.  Returns (array handed to the library, owning buffer)."""
    if how == "stride":
        b = np.full(2 * x.size + 1, 9e9)
        v = b[1::2]
        v[:] = x
        return v, b
    if how == "neg":
        b = x[::-1].copy()
        return b[::-1], b
    if how == "field":                      # one column of an acquisition table
        b = np.full((x.size, 3), 9e9)
        b[:, 1] = x
        return b[:, 1], b
    if how == "ro":
        b = x.copy()
        b.flags.writeable = False
        return b, b
    if how == "int":                        # counts of an analogue-digital converter
        b = np.where(np.isfinite(x), np.clip(x, -1e9, 1e9), 0).astype(np.int64)
        return b, b
    if how in ("i16", "u16"):               # full scale of a 16-bit converter
        y = np.where(np.isfinite(x), np.clip(x, -1e9, 1e9), 0)
        if how == "u16":
            y = y - y.min()
        b = np.rint(y * (30000 / (np.abs(y).max() or 1))).astype(np.int16 if how == "i16" else np.uint16)
        return b, b
    if how == "f32":
        b = x.astype(np.float32)
        return b, b
    if how == "be":                         # as read from a file in the byte order of another machine
        b = x.astype(">f8")
        return b, b
    if how == "packed":                     # a field of packed binary records: not aligned
        b = np.zeros(x.size, dtype=[("status", "u1"), ("v", "<f8"), ("amp", "u1")])
        b["status"] = 200
        b["v"] = x
        return b["v"], b
    b = x.copy()
    return b, b


LAYOUTS = ("c", "c", "c", "c", "stride", "neg", "field", "ro", "be", "packed")
ALL_LAYOUTS = LAYOUTS + ("int", "f32")


def faults(rng, n, kinds=("spike", "burst", "drop", "stuck"), most=4, gross=False):
    """A random fault schedule (rng: random.Random)."""
    out = []
    for _ in range(rng.randrange(0, most + 1)):
        k = rng.choice(kinds)
        i = rng.choice((0, 1, n - 1, n - 2)) if rng.random() < 0.2 else rng.randrange(n)
        i = max(0, i)
        amp = rng.choice((-1, 1)) * (rng.uniform(10, 60) if gross else rng.choice((3, 5, 8, 15, 40, 1e3, 1e6)))
        ln = rng.choice((1, 2, 3, 5, 9))
        if k == "spike":
            out.append(["spike", i, amp])
        elif k == "burst":
            out.append(["burst", i, ln, amp])
        elif k == "inf":
            out.append(["inf", i, ln, rng.choice((-1, 1))])
        elif k == "set":
            out.append(["set", i, ln, rng.choice((0.0, -32768.0, 1e6, 1e15, -9999.0))])
        else:
            out.append([k, i, ln])
    return out


def spec(rng, n, **kw):
    s = {"n": n, "seed": rng.randrange(1 << 30), "kind": rng.choice(KINDS), "sd": rng.choice((0.5, 1.0, 3.0, 12.0)),
         "mean": rng.choice((0.0, 0.0, 5.0, -7.0, 40.0))}
    s.update(kw)
    return s
