"""The simulator: one baton, many caller threads, simulated time, injected faults.

Caller threads are real threads that are parked on a gate and released one at a time.  The only places where the
baton can move are the yield points woven into package code (see weave.py): every statement, or in "op" granularity also
every call, operator, subscript, comparison and store, plus explicit waits.  Who runs next is decided by the policy, which
is a pure function of the seed; every decision is recorded, so any run can be replayed from its record alone.

Simulated time advances with every yield point (a slow caller's points cost more) and jumps to the next timer when
nobody can run.  Faults are raised inside package code at an exact yield point of an exact call.
"""
import hashlib
import heapq
import random
import sys
import threading
import _thread

from . import lib

EXCEPTIONS = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


class Hang(BaseException):
    """A call used up its step budget."""


class Abort(BaseException):
    """The run is being torn down."""


class Client:
    def __init__(self, cid, fn):
        self.cid = cid
        self.fn = fn
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.events = 0            # yield points this caller has passed
        self.call_events = 0       # ... in its current call
        self.fault_points = 0      # fault points passed in its current call
        self.in_call = False
        self.fault = None          # {"at": fault point, "exc": name} armed for the current call
        self.fired = None
        self.budget = None
        self.waiting = None
        self.done = False
        self.cost = 1e-6
        self.error = None
        self.ident = None


class Policy:
    """Decides preemptions.  kinds: serial, walk (each point with probability p), points (at chosen local points),
    explicit (a recorded schedule)."""

    def __init__(self, spec):
        self.spec = spec
        self.kind = spec.get("mode", "serial")
        self.rng = random.Random(spec.get("seed", 0))
        self.p = spec.get("p", 0.0)
        self.at = {}
        for cid, ev, tgt in spec.get("switches", ()):
            self.at[(cid, ev)] = tgt
        self.forced = list(spec.get("forced", ()))
        self.nforced = 0

    def preempt(self, sim, cl):
        k = self.kind
        if k == "serial":
            return None
        if k == "walk":
            if self.rng.random() < self.p:
                others = [c for c in sim.clients if c is not cl and sim.runnable(c)]
                if others:
                    return others[self.rng.randrange(len(others))]
            return None
        tgt = self.at.get((cl.cid, cl.events))
        if tgt is None:
            return None
        if tgt == -1:              # "somebody else": the next runnable caller, round robin
            n = len(sim.clients)
            for i in range(1, n):
                c = sim.clients[(cl.cid + i) % n]
                if sim.runnable(c):
                    return c
            return None
        c = sim.clients[tgt] if tgt < len(sim.clients) else None
        return c if c is not None and c is not cl and sim.runnable(c) else None

    def pick(self, sim, ready):
        """The current caller cannot go on: who is next?"""
        i = self.nforced
        self.nforced += 1
        if self.kind == "walk":
            return ready[self.rng.randrange(len(ready))]
        if i < len(self.forced):
            for c in ready:
                if c.cid == self.forced[i]:
                    return c
        return ready[0]


class Sim:
    def __init__(self, sched, observer=None, max_events=4_000_000):
        self.policy = Policy(sched)
        self.gran = sched.get("gran", "line")
        self.clients = []
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.now = 0.0
        self.timers = []
        self.seq = 0
        self.observer = observer
        self.total = 0
        self.max_events = max_events
        self.switches = []
        self.forced = []
        self.aborting = None
        self.log = hashlib.sha256()
        self.sig = hashlib.sha256()
        self.nlog = 0
        self.trace_text = []
        self.by_thread = {}
        self.cur = None
        self.fine = self.gran == "op"
        self.sites = None          # {code location: [first, second, last]} of yield points and of fault points, if recorded

    # -------------------------------------------------------------- log
    def note(self, *what):
        text = " ".join(str(w) for w in what)
        self.log.update(text.encode() + b"\n")
        self.nlog += 1
        if len(self.trace_text) < 400:
            self.trace_text.append(f"t={self.now:.6f} {text}")

    # -------------------------------------------------------------- building
    def spawn(self, fn, cost=1e-6):
        c = Client(len(self.clients), fn)
        c.cost = cost
        self.clients.append(c)
        return c

    def after(self, delay, fn):
        self.seq += 1
        heapq.heappush(self.timers, (self.now + delay, self.seq, fn))

    # -------------------------------------------------------------- scheduling
    def me(self):
        return self.by_thread.get(_thread.get_ident())

    def runnable(self, c):
        return not c.done and (c.waiting is None or bool(c.waiting()))

    def _fire_due(self):
        while self.timers and self.timers[0][0] <= self.now:
            _, _, fn = heapq.heappop(self.timers)
            fn()

    def _hand(self, cl, nxt):
        self.cur = nxt
        nxt.gate.release()
        if cl is not None and not cl.done:
            cl.gate.acquire()
            if self.aborting:
                raise Abort()

    def _next_or_none(self):
        while True:
            ready = [c for c in self.clients if self.runnable(c)]
            if ready:
                return self.policy.pick(self, ready)
            if all(c.done for c in self.clients):
                return None
            if not self.timers:
                self.aborting = "deadlock"
                return None
            self.now = max(self.now, self.timers[0][0])
            self._fire_due()

    def block_on(self, cl, pred):
        """Wait, in simulated time, until pred() holds."""
        while not pred():
            cl.waiting = pred
            nxt = self._next_or_none()
            if nxt is None:
                raise Abort()
            if nxt is not cl:
                self.forced.append(nxt.cid)
                self.note("wait", cl.cid, "->", nxt.cid)
                self.sig.update(b"w%d" % nxt.cid)
                self._hand(cl, nxt)
            cl.waiting = None
        if self.aborting:
            raise Abort()

    def sleep(self, cl, delay):
        state = {"up": False}
        self.after(delay, lambda: state.update(up=True))
        self.block_on(cl, lambda: state["up"])

    def point(self, cl, where=None):
        """A yield point."""
        if self.aborting:
            raise Abort()
        cl.events += 1
        self.total += 1
        self.now += cl.cost
        if self.observer is not None:
            self.observer(cl)
        if self.timers:
            self._fire_due()
        if self.total > self.max_events:
            self.aborting = self.aborting or "event-limit"
            raise Abort()
        nxt = self.policy.preempt(self, cl)
        if nxt is not None:
            self.switches.append((cl.cid, cl.events, nxt.cid))
            self.note("switch", cl.cid, cl.events, "->", nxt.cid, where or "")
            self.sig.update(b"s%d:%d>%d" % (cl.cid, cl.events, nxt.cid))
            cl.waiting = None
            self._hand(cl, nxt)

    # -------------------------------------------------------------- yield points woven into package code
    def stmt(self, fault):
        cl = self.cur
        if cl is not None and cl.in_call and cl.ident == _thread.get_ident():
            if fault:
                self._fault_point(cl)
            self._step(cl)

    def expr(self, fault):
        if not self.fine:
            return
        cl = self.cur
        if cl is not None and cl.in_call and cl.ident == _thread.get_ident():
            if fault:
                self._fault_point(cl)
            self._step(cl)

    def record_sites(self):
        self.sites = ({}, {})

    def _site(self, table, index):
        f = sys._getframe(4)
        key = (f.f_code.co_filename, f.f_code.co_firstlineno, f.f_lasti)
        seen = table.get(key)
        if seen is None:
            table[key] = [index, index, index]
        else:
            if seen[1] == seen[0]:
                seen[1] = index
            seen[2] = index

    def _step(self, cl):
        cl.call_events += 1
        if self.sites is not None:
            self._site(self.sites[0], cl.call_events)
        if cl.budget is not None and cl.call_events > cl.budget:
            raise Hang()
        self.point(cl)

    def _fault_point(self, cl):
        cl.fault_points += 1
        if self.sites is not None:
            self._site(self.sites[1], cl.fault_points)
        f = cl.fault
        if f is not None and cl.fired is None and cl.fault_points == f["at"]:
            frame = sys._getframe(3)
            cl.fired = (frame.f_code.co_name, frame.f_lineno)
            self.note("fault", cl.cid, f["exc"], f["at"], frame.f_code.co_name)
            self.sig.update(b"f%d:%d" % (cl.cid, f["at"]))
            raise EXCEPTIONS[f["exc"]]("injected")

    def call(self, cl, fn, args, kwargs, fault=None, budget=None):
        """Run one library call of this caller under the tracer.  Returns ("ok", value) or ("err", type name)."""
        cl.call_events = cl.fault_points = 0
        cl.fault, cl.fired, cl.budget = fault, None, budget
        cl.in_call = True
        try:
            return ("ok", fn(*args, **kwargs))
        except Abort:
            raise
        except Hang:
            return ("hang", cl.call_events)
        except BaseException as e:                # the call's own outcome, whatever it is
            return ("err", type(e).__name__, str(e)[:200])
        finally:
            cl.in_call = False

    # -------------------------------------------------------------- running
    def _body(self, cl):
        cl.gate.acquire()
        cl.ident = _thread.get_ident()
        self.by_thread[cl.ident] = cl
        try:
            if not self.aborting:
                cl.fn(cl)
        except Abort:
            pass
        except BaseException as e:                # harness error: reported apart from violations
            import traceback
            cl.error = "".join(traceback.format_exception(e))[-3000:]
        finally:
            cl.done = True
        if self.aborting:
            self._drain()
            return
        nxt = self._next_or_none()
        if nxt is None:
            self._drain()
            return
        self.forced.append(nxt.cid)
        self.note("end", cl.cid, "->", nxt.cid)
        self.sig.update(b"e%d" % nxt.cid)
        self.cur = nxt
        nxt.gate.release()

    def _drain(self):
        """Nothing more to run (or tearing down): let every parked thread out, then the main thread."""
        if all(c.done for c in self.clients):
            try:
                self.main.release()
            except RuntimeError:
                pass
            return
        self.aborting = self.aborting or "teardown"
        for c in self.clients:
            if not c.done:
                self.cur = c
                c.gate.release()
                return

    def run(self):
        lib.current_sim = self
        threads = [threading.Thread(target=self._body, args=(c,), daemon=True) for c in self.clients]
        for t in threads:
            t.start()
        first = self._next_or_none()
        if first is not None:
            self.forced.append(first.cid)
            self.note("start", first.cid)
            self.sig.update(b"b%d" % first.cid)
            self.cur = first
            first.gate.release()
            self.main.acquire()
        for t in threads:
            t.join()
        lib.current_sim = None
        errors = [c.error for c in self.clients if c.error]
        if errors:
            raise RuntimeError("harness error in a caller thread:\n" + errors[0])
        return self

    def schedule(self, gran=None):
        """What happened, as an explicit schedule that replays it."""
        return {"mode": "explicit", "gran": gran or self.gran, "switches": [list(s) for s in self.switches],
                "forced": list(self.forced)}
