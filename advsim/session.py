"""A session: several callers of the library under one simulator, with everything they did on record.

Scenario (JSON):
  gran    "line" | "op"
  sched   {"mode": "serial"} | {"mode": "walk", "p", "seed"} | {"mode": "points", "pts": [[client, call, fraction], [client, call, u, occ], ...]}
          | {"mode": "explicit", "switches", "forced"}      (what a run recorded)
  cost    simulated seconds per yield point, per caller (slow callers)
  bufs    {name: record spec}                                buffers that callers keep and refill
  clients [[step, ...], ...]   step = {"do": "call", "call": spec, "fault"?: {"exc", "frac"|"at"}, "scribble"?, "retry"?}
                                    | {"do": "fill", "buf", "rec"} | {"do": "seed", "value"} | {"do": "sleep", "s"}
"""
import os
import pickle
import select
import signal
import sys
import time
import warnings

import numpy as np

from . import lib, ops, probe
from .sim import Abort, Sim
from .value import brief, canon, same

ALONE_BUDGET = 600_000
FORK_TIMEOUT = 150


def at_site(sites, u, occ):
    """The occ-th (first, second, last) visit of the code location chosen by u in [0, 1)."""
    return sites[min(int(u * len(sites)), len(sites) - 1)][occ] if sites else None


class HarnessError(Exception):
    pass


def _nothing(err, flag):
    pass


def quiet():
    """No noise, but with settings a library would not choose itself, so that a change is a visible change."""
    warnings.simplefilter("ignore")
    warnings.filterwarnings("error", message="advsim sentinel")
    np.seterrcall(_nothing)
    np.seterr(all="call")


def in_fork(fn, timeout=FORK_TIMEOUT):
    """Run fn() in a forked child and return its (pickled) result; None if it had to be killed."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                data = pickle.dumps(("ok", fn()))
            except BaseException as e:
                import traceback
                data = pickle.dumps(("exc", "".join(traceback.format_exception(e))[-4000:]))
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks, end, killed = [], time.monotonic() + timeout, False
    while True:
        left = end - time.monotonic()
        ready = select.select([r], [], [], max(0, left))[0] if left > 0 else []
        if not ready:
            killed = True
            os.kill(pid, signal.SIGKILL)
            break
        c = os.read(r, 1 << 16)
        if not c:
            break
        chunks.append(c)
    os.close(r)
    os.waitpid(pid, 0)
    if killed:
        return None
    try:
        tag, val = pickle.loads(b"".join(chunks))
    except Exception:
        raise HarnessError("a forked run died without an answer")
    if tag == "exc":
        raise HarnessError(val)
    return val


def outcome(res):
    if res[0] == "ok":
        return ("ok", canon(res[1]))
    return tuple(res)


def same_outcome(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "ok":
        return same(a[1], b[1])
    if a[0] == "err":
        return a[1] == b[1]
    return True


def show(o):
    if o is None:
        return "nothing"
    if o[0] == "ok":
        return brief(o[1])
    if o[0] == "err":
        return f"{o[1]}({o[2][:80]!r})"
    return "no answer within the step budget"


def alone(spec, gran="line", seed=None, bufs=None):
    """What this call gives alone, in a process where the package has just been imported."""
    def body():
        quiet()
        if seed is not None:
            np.random.seed(seed)
        call = ops.Call(spec, bufs)
        sim = Sim({"mode": "serial", "gran": gran})
        sim.record_sites()
        got = {}

        def run(cl):
            res = sim.call(cl, call.fn, call.args, call.kwargs, budget=ALONE_BUDGET)
            got["out"] = outcome(res)
            got["events"], got["fps"] = cl.call_events, cl.fault_points
            got["sites"], got["fsites"] = (list(t.values()) for t in sim.sites)
        sim.spawn(run)
        sim.run()
        got["rng"] = lib.rng_state()
        return got
    res = in_fork(body)
    if res is None:
        return {"out": ("hang", -1), "events": 0, "fps": 0, "rng": None, "sites": [], "fsites": []}
    return res


def resolve_call(spec, contents):
    """The same call with the contents of the caller's buffers written out."""
    if not any("buf" in r for r in spec["recs"]):
        return spec
    s = dict(spec)
    s["recs"] = [contents[r["buf"]] if "buf" in r else r for r in spec["recs"]]
    s["lay"] = s["recs"][0].get("lay", "c")            # a kept buffer has its own layout
    return s


class Session:
    def __init__(self, sc, watch=(), alias=False, compare=True):
        self.sc = sc
        self.compare = compare
        self.shared = {k: probe.layout(probe.record(r), r.get("lay", "c")) for k, r in sc.get("shared", {}).items()}
        self.watch = frozenset(watch)
        self.alias = alias
        self.violation = None
        self.history = []
        self.baseline = {}
        self.fired = {}
        self.results = []          # (client, call number, object) of everything returned, kept alive
        self.inflight = {}         # cid -> (Call, snapshots)

    # ------------------------------------------------------------- baselines
    def calls(self):
        for cid, steps in enumerate(self.sc["clients"]):
            contents = dict(self.sc.get("bufs", {}))
            contents.update(self.sc.get("shared", {}))
            seed = None
            k = 0
            for st in steps:
                if st["do"] == "fill":
                    contents[st["buf"]] = st["rec"]
                elif st["do"] == "seed":
                    seed = st["value"]
                elif st["do"] == "call":
                    yield cid, k, st, resolve_call(st["call"], contents), seed
                    k += 1

    def prepare(self):
        gran = self.sc.get("gran", "line")
        cache = {}
        for cid, k, st, spec, seed in self.calls():
            import json
            key = json.dumps([spec, seed], sort_keys=True)
            if key not in cache:
                cache[key] = alone(spec, gran, seed=seed)
            self.baseline[cid, k] = cache[key]

    def schedule(self):
        sched = dict(self.sc["sched"])
        sched["gran"] = self.sc.get("gran", "line")
        if sched["mode"] == "points":
            sw = []
            for cid, k, frac, *occ in sched["pts"]:
                before = sum(self.baseline[c, j]["events"] for (c, j) in self.baseline if c == cid and j < k)
                base = self.baseline.get((cid, k), {"events": 0})
                ev = base["events"]
                if ev:
                    at = at_site(base["sites"], frac, occ[0]) if occ else 1 + int(frac * ev)
                    sw.append([cid, before + at, -1])
            sched["switches"] = sw
            sched["mode"] = "explicit"
        return sched

    # ------------------------------------------------------------- checking
    def fail(self, kind, detail, **extra):
        if self.violation is None:
            self.violation = dict(kind=kind, detail=detail, t=round(self.sim.now, 6), **extra)
        self.sim.aborting = self.sim.aborting or "violation"

    def _observe(self, cl):
        w = self.watch
        if "inputs" in w:
            for cid, (call, snaps) in self.inflight.items():
                for i, (o, s) in enumerate(zip(call.owned, snaps)):
                    if not ops.unchanged(o, s):
                        self.fail("input-written", f"argument {i} of {call.spec['op']} (caller {cid}) changed while "
                                  f"{self.where()} was running", op=call.spec["op"])
                        raise Abort()
        if "rng" in w and self.rng0 is not None:
            if lib.rng_state() != self.rng0:
                self.fail("rng-touched", f"numpy's global generator changed during {self.where()}", op=self.where())
                raise Abort()
        if "settings" in w:
            d = lib.settings_diff(self.fast0, lib.fast_settings())
            if d:
                self.fail("settings-changed", f"{', '.join(d)} changed during {self.where()}", op=self.where())
                raise Abort()

    def where(self):
        c = self.sim.me()
        if c is not None and c.cid in self.inflight:
            return self.inflight[c.cid][0].spec["op"]
        return "?"

    def _arrays(self, v, depth=0):
        if v is np.ma.masked:
            return
        if isinstance(v, np.ndarray):
            yield v
        elif isinstance(v, (list, tuple)) and depth < 3:
            for x in v:
                yield from self._arrays(x, depth + 1)
        elif isinstance(v, dict):
            for x in v.values():
                yield from self._arrays(x, depth + 1)

    def _check_alias(self, cl, k, call, value):
        mine = list(self._arrays(value))
        for a in mine:
            for o in call.owned:
                if isinstance(o, np.ndarray) and a.size and o.size and np.may_share_memory(a, o):
                    self.fail("result-aliases-input", f"{call.spec['op']} returned an array that shares memory with an "
                              f"argument", op=call.spec["op"])
                    raise Abort()
            for (c2, k2, b) in self.results:
                if b is not a and a.size and b.size and np.may_share_memory(a, b) or b is a:
                    self.fail("result-aliases-result", f"{call.spec['op']} (caller {cl.cid}, call {k}) returned an array "
                              f"that shares memory with what caller {c2} got from call {k2}", op=call.spec["op"])
                    raise Abort()
        self.results.extend((cl.cid, k, a) for a in mine)

    def _scribble(self, value):
        for a in self._arrays(value):
            if a.size and a.flags.writeable:
                a[...] = 77
        if isinstance(value, list):
            value.append("scribble")
        elif isinstance(value, dict):
            value["scribble"] = 1

    # ------------------------------------------------------------- callers
    def _caller(self, cl):
        steps = self.sc["clients"][cl.cid]
        sim = self.sim
        bufs = {}
        for name, rec in self.sc.get("bufs", {}).items():
            bufs[name] = probe.layout(probe.record(rec), "c")
        bufs.update(self.shared)
        k = -1
        quiet()
        for st in steps:
            if sim.aborting:
                raise Abort()
            if st["do"] == "fill":
                a, b = bufs[st["buf"]]
                a[:] = probe.record(st["rec"])
                continue
            if st["do"] == "seed":
                np.random.seed(st["value"])
                continue
            if st["do"] == "sleep":
                sim.sleep(cl, st["s"])
                continue
            k += 1
            base = self.baseline[cl.cid, k]
            tries = 0
            while True:
                call = ops.Call(st["call"], bufs)
                snaps = [ops.snapshot(o) for o in call.owned]
                before = lib.settings()
                rng = lib.rng_state() if "rng-end" in self.watch else None
                self.inflight[cl.cid] = (call, snaps)
                fault = None
                f = st.get("fault")
                if f and tries == 0:
                    at = f.get("at") or (at_site(base["fsites"], f["site"], f["occ"]) if "site" in f else
                                         1 + int(f["frac"] * base["fps"]))
                    fault = {"exc": f["exc"], "at": at}
                res = sim.call(cl, call.fn, call.args, call.kwargs, fault=fault,
                               budget=base["events"] * 12 + 30_000)
                del self.inflight[cl.cid]
                if sim.aborting:
                    raise Abort()
                out = outcome(res)
                fired = cl.fired
                sim.note("done", cl.cid, k, call.spec["op"], out[0], "fault" if fired else "")
                self.history.append({"client": cl.cid, "call": k, "op": call.spec["op"], "try": tries, "t": sim.now,
                                     "seq": sim.total, "fired": fired, "out": show(out)})
                if fired:
                    self.fired[f["exc"]] = self.fired.get(f["exc"], 0) + 1
                self._after(cl, k, st, call, snaps, before, rng, out, fired, fault, base)
                if self.alias and res[0] == "ok":
                    self._check_alias(cl, k, call, res[1])
                if st.get("scribble") and res[0] == "ok":
                    self._scribble(res[1])
                if fired and tries == 0:
                    tries += 1                        # the caller tries again
                    continue
                break

    def _after(self, cl, k, st, call, snaps, before, rng, out, fired, fault, base):
        op = call.spec["op"]
        tag = f"{op} (caller {cl.cid}, call {k})"
        for i, (o, s) in enumerate(zip(call.owned, snaps)):
            if not ops.unchanged(o, s):
                self.fail("input-written", f"argument {i} of {tag} is not what the caller passed"
                          + (" after an interrupt" if fired else ""), op=op)
                raise Abort()
        d = lib.settings_diff(before, lib.settings())
        if d and "settings-end" in self.watch:
            self.fail("settings-changed", f"{tag} left {', '.join(d)} changed" + (" after an interrupt" if fired else ""),
                      op=op)
            raise Abort()
        if rng is not None and "random" not in ops.OPS[op].tags and lib.rng_state() != rng:
            self.fail("rng-touched", f"{tag} changed the state of numpy's global generator", op=op)
            raise Abort()
        if fired:
            if out[0] != "err" or out[1] != fault["exc"]:
                self.fail("interrupt-lost", f"{tag}: {fault['exc']} injected at {fired[0]} did not reach the caller; "
                          f"got {show(out)}", op=op)
                raise Abort()
            return
        if self.compare and base["out"][0] != "hang" and not same_outcome(out, base["out"]):
            kind = "hang" if out[0] == "hang" else "result-differs"
            self.fail(kind, f"{tag} gave {show(out)}; alone in a fresh process it gives {show(base['out'])}", op=op)
            raise Abort()

    # ------------------------------------------------------------- run
    def run(self):
        quiet()
        self.prepare()
        self.fast0 = lib.fast_settings()
        obs = self._observe if self.watch & {"inputs", "rng", "settings"} else None
        cost = self.sc.get("cost") or [1e-4] * len(self.sc["clients"])
        self.sim = Sim(self.schedule(), observer=obs, max_events=3_000_000 + 40 * sum(b["events"] for b in self.baseline.values()))
        if self.sc.get("seed_rng") is not None:
            np.random.seed(self.sc["seed_rng"])
        self.rng0 = lib.rng_state() if "rng" in self.watch else None
        for c in range(len(self.sc["clients"])):
            self.sim.spawn(self._caller, cost[c])
        self.sim.run()
        if self.violation is None and self.sim.aborting == "deadlock":
            self.violation = {"kind": "deadlock", "detail": "every caller is blocked for good", "t": self.sim.now}
        if self.violation is None and self.sim.aborting == "event-limit":
            self.violation = {"kind": "hang", "detail": "the run did not finish within the event limit", "t": self.sim.now}
        return self

    def result(self):
        s = self.sim
        return {"violation": self.violation, "log": s.log.hexdigest(), "sig": s.sig.hexdigest(),
                "schedule": s.schedule(), "sim_s": s.now, "events": s.total, "switches": len(s.switches),
                "faults": dict(self.fired), "calls": len(self.history), "trace": s.trace_text[-60:],
                "ops": sorted({h["op"] for h in self.history})}
