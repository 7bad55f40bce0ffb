"""The code under test: fresh instances of the real proadv package, compiled from /repo's working tree.

Every simulated run starts from a package that has just been imported, so that one seed is one execution:
nothing a previous run left in module globals, function attributes or caches can leak into the next one.
Source files are compiled once per process; only the (cheap) module bodies run again.

Seam: locks created by package code are replaced by simulated ones, so that a thread that blocks gives the
baton back to the scheduler instead of stopping the (single) runnable thread for good.
"""
import decimal
import gc
import importlib
import importlib.abc
import importlib.util
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np
import sklearn

from . import weave
from .env import PKG, REPO

_real_lock = threading.Lock
_real_rlock = threading.RLock

current_sim = None          # the Sim that owns the running threads, if any


def _pt():
    s = current_sim
    if s is not None:
        s.stmt(True)


def _pt0():
    s = current_sim
    if s is not None:
        s.stmt(False)


def _pv(x):
    s = current_sim
    if s is not None:
        s.expr(True)
    return x


def _pv0(x):
    s = current_sim
    if s is not None:
        s.expr(False)
    return x


POINTS = {weave.PT: _pt, weave.PT0: _pt0, weave.PV: _pv, weave.PV0: _pv0}


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self):
        self.code = {}

    def find_spec(self, name, path, target=None):
        if name != "proadv" and not name.startswith("proadv."):
            return None
        base = os.path.join(REPO, *name.split("."))
        if os.path.isdir(base):
            init = os.path.join(base, "__init__.py")
            if not os.path.exists(init):
                return None
            return importlib.util.spec_from_file_location(name, init, loader=self,
                                                          submodule_search_locations=[base])
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(name, base + ".py", loader=self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        path = module.__spec__.origin
        code = self.code.get(path)
        if code is None:
            with open(path, "rb") as fh:
                code = self.code[path] = weave.compile_woven(fh.read(), path)
        module.__dict__.update(POINTS)
        exec(code, module.__dict__)


_finder = _Finder()


class SimLock:
    """Lock/RLock stand-in for locks made by package code; blocks in simulated, not real, time."""

    def __init__(self, reentrant=False):
        self.owner = None
        self.count = 0
        self.reentrant = reentrant
        self.real = _real_rlock() if reentrant else _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        sim = current_sim
        me = sim.me() if sim is not None else None
        if me is None:
            return self.real.acquire(blocking, timeout)
        while self.owner is not None and not (self.reentrant and self.owner is me):
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                sim.sleep(me, timeout)
                if self.owner is not None:
                    return False
                break
            sim.block_on(me, lambda: self.owner is None)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None:
            self.real.release()
            return
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None or (not self.reentrant and self.real.locked())

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()


def _from_package():
    frame = sys._getframe(2)
    while frame is not None and frame.f_code.co_filename == threading.__file__:
        frame = frame.f_back
    return frame is not None and frame.f_code.co_filename.startswith(PKG)


def _lock():
    return SimLock() if _from_package() else _real_lock()


def _rlock():
    return SimLock(True) if _from_package() else _real_rlock()


def install():
    """Once per process, before the first import of the package."""
    if _finder not in sys.meta_path:
        sys.meta_path.insert(0, _finder)
        threading.Lock = _lock
        threading.RLock = _rlock


MODULES = []


def discover():
    names = []
    for root, dirs, files in os.walk(PKG):
        dirs[:] = sorted(d for d in dirs if d not in ("__pycache__", "tests"))
        rel = os.path.relpath(root, REPO).replace(os.sep, ".")
        for f in sorted(files):
            if f.endswith(".py"):
                names.append(rel if f == "__init__.py" else rel + "." + f[:-3])
    return names


def fresh():
    """Import a new instance of the whole package and return its root module."""
    install()
    for k in [k for k in sys.modules if k == "proadv" or k.startswith("proadv.")]:
        del sys.modules[k]
    root = importlib.import_module("proadv")
    if not MODULES:
        MODULES.extend(discover())
    for name in MODULES:
        importlib.import_module(name)
    return root


def resolve(path):
    mod, attr = path.split(":")
    return getattr(sys.modules[mod], attr)


# ----------------------------------------------------------------- process-wide settings

def rng_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4])


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def settings():
    """Process-wide state the library's caller owns (the random generators are compared separately)."""
    ctx = decimal.getcontext()
    return {
        "numpy.errstate": tuple(sorted(np.geterr().items())),
        "numpy.errcall": repr(np.geterrcall()),
        "numpy.printoptions": repr(sorted(np.get_printoptions().items(), key=lambda kv: kv[0])),
        "numpy.bufsize": np.getbufsize(),
        "warnings.filters": repr(warnings.filters),
        "warnings.showwarning": id(warnings.showwarning),
        "decimal.context": (ctx.prec, ctx.rounding),
        "os.environ": tuple(sorted(os.environ.items())),
        "cwd": os.getcwd(),
        "recursionlimit": sys.getrecursionlimit(),
        "gc.enabled": (gc.isenabled(), gc.get_threshold()),
        "umask": _umask(),
        "switchinterval": sys.getswitchinterval(),
        "logging": (logging.root.level, logging.root.disabled, logging.root.manager.disable, len(logging.root.handlers)),
        "sys.stdout": (id(sys.stdout), id(sys.stderr), id(sys.excepthook)),
        "sys.path": tuple(sys.path),
        "signals": tuple(str(signal.getsignal(n)) for n in (signal.SIGINT, signal.SIGALRM, signal.SIGTERM)),
        "sklearn.config": tuple(sorted((k, repr(v)) for k, v in sklearn.get_config().items())),
        "locale": locale.setlocale(locale.LC_ALL),
        "random.state": random.getstate(),
        "numpy.random.bitgen": id(np.random.mtrand._rand._bit_generator),
    }


def fast_settings():
    """The part of settings() that is visible to other threads at once and cheap to read at every yield point."""
    return {
        "warnings.filters": list(warnings.filters),
        "warnings.showwarning": id(warnings.showwarning),
        "numpy.printoptions": np.get_printoptions(),
        "numpy.random.bitgen": id(np.random.mtrand._rand._bit_generator),
        "cwd": os.getcwd(),
        "os.environ": dict(os.environ._data),
        "recursionlimit": sys.getrecursionlimit(),
        "gc.enabled": (gc.isenabled(), gc.get_threshold()),
        "switchinterval": sys.getswitchinterval(),
        "sys.stdout": (id(sys.stdout), id(sys.stderr)),
        "logging": (logging.root.level, logging.root.manager.disable),
    }


def settings_diff(a, b):
    return sorted(k for k in a if a[k] != b.get(k))
