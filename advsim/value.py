"""Canonical, picklable form of what a call returned, and comparison of two of them."""
import numpy as np


def canon(v):
    if isinstance(v, np.ma.MaskedArray) or v is np.ma.masked:
        a = np.ma.asarray(v)
        return ("ma", canon(np.asarray(a.filled(np.nan) if a.dtype.kind in "fc" else a.filled(0))),
                np.ma.getmaskarray(a).tolist())
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("obj", v.shape, [canon(x) for x in v.ravel().tolist()])
        return ("arr", v.dtype.str, v.shape, np.ascontiguousarray(v).tobytes())
    if isinstance(v, np.generic):
        return canon(np.asarray(v))
    if isinstance(v, (tuple, list)):
        return (type(v).__name__, [canon(x) for x in v])
    if isinstance(v, dict):
        return ("dict", [(str(k), canon(v[k])) for k in sorted(v, key=str)])
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return ("py", v)
    if isinstance(v, int):
        return canon(np.asarray(v))
    if isinstance(v, (float, complex)):
        return canon(np.asarray(v))
    return ("repr", type(v).__name__)


def arr(c):
    """ndarray from a canonical array."""
    return np.frombuffer(c[3], dtype=np.dtype(c[1])).reshape(c[2])


def same(a, b, rtol=1e-9):
    """Equal up to rounding noise: numbers within rtol of the result's own scale, everything else exactly."""
    if a[0] != b[0]:
        return False
    if a[0] == "arr":
        if a[2] != b[2] or np.dtype(a[1]).kind != np.dtype(b[1]).kind:
            return False
        x, y = arr(a), arr(b)
        if x.dtype.kind not in "fc":
            return bool(np.array_equal(x, y))
        if x.dtype.itemsize != y.dtype.itemsize:
            return False
        fin = np.isfinite(x) & np.isfinite(y)
        if not np.array_equal(np.isnan(x), np.isnan(y)):
            return False
        if not np.array_equal(x[~fin], y[~fin], equal_nan=True):
            return False
        if not fin.any():
            return True
        scale = max(1e-300, float(np.abs(x[fin]).max()))
        with np.errstate(all="ignore"):
            return bool((np.abs(x[fin] - y[fin]) <= rtol * (np.abs(x[fin]) + 1e-3 * scale)).all())
    if a[0] in ("tuple", "list"):
        return len(a[1]) == len(b[1]) and all(same(x, y, rtol) for x, y in zip(a[1], b[1]))
    if a[0] == "dict":
        return ([k for k, _ in a[1]] == [k for k, _ in b[1]]
                and all(same(x, y, rtol) for (_, x), (_, y) in zip(a[1], b[1])))
    if a[0] == "obj":
        return a[1] == b[1] and all(same(x, y, rtol) for x, y in zip(a[2], b[2]))
    if a[0] == "ma":
        return a[2] == b[2] and same(a[1], b[1], rtol)
    return a == b


def brief(c, limit=160):
    if c is None:
        return "nothing"
    if c[0] == "arr":
        s = np.array2string(arr(c), threshold=8, precision=6).replace("\n", "")
    elif c[0] in ("tuple", "list"):
        s = c[0] + "(" + ", ".join(brief(x, 60) for x in c[1]) + ")"
    elif c[0] == "dict":
        s = "{" + ", ".join(f"{k}: {brief(x, 40)}" for k, x in c[1]) + "}"
    else:
        s = repr(c)
    return s if len(s) <= limit else s[:limit] + "..."
