"""The seams: every source of nondeterminism the properties depend on, under one seed."""
from __future__ import annotations

import contextlib
import sys
import time as _time

import numpy as np


# ----------------------------------------------------------------------------- hash order
# pytensor variables and nodes hash by memory address, so every set()/dict keyed by them has an
# address-dependent order.  The simulator replaces that address by a seeded 61-bit number per
# object, so iteration order of such sets is a (replayable) choice of the run.
class HashOrder:
    def __init__(self, seed):
        self.seed = seed
        self.saved = []

    def __enter__(self):
        from pytensor.graph import basic

        seed = (self.seed * 0x9E3779B97F4A7C15 + 0x1234567) & ((1 << 61) - 1)
        counter = [0]
        M = (1 << 61) - 1

        def sim_hash(self):
            d = self.__dict__
            h = d.get("_dst_hash")
            if h is None:
                counter[0] += 1
                x = (counter[0] * 0xBF58476D1CE4E5B9 + seed) & 0xFFFFFFFFFFFFFFFF
                x ^= x >> 29
                x = (x * 0x94D049BB133111EB) & 0xFFFFFFFFFFFFFFFF
                x ^= x >> 32
                h = d["_dst_hash"] = x & M
            return h

        for cls in (basic.Variable, basic.Apply):
            if "__hash__" in cls.__dict__:
                self.saved.append((cls, cls.__dict__["__hash__"]))
            else:
                self.saved.append((cls, None))
            cls.__hash__ = sim_hash
        return self

    def __exit__(self, *exc):
        for cls, old in self.saved:
            if old is None:
                del cls.__hash__
            else:
                cls.__hash__ = old
        return False


# ----------------------------------------------------------------------------- clocks
class SimClock:
    """Replaces time.time / monotonic / perf_counter by simulated readings.

    Every reading advances by `step` seconds; at reading number k listed in `jumps` the wall clock
    also jumps by the given (possibly negative) amount.
    """

    def __init__(self, start=1.7e9, step=0.5, jumps=()):
        self.t = float(start)
        self.mono = 1000.0
        self.step = step
        self.jumps = dict((int(k), float(v)) for k, v in jumps)
        self.reads = 0
        self.fired = 0
        self.saved = None

    def _tick(self):
        self.reads += 1
        self.t += self.step
        self.mono += self.step
        if self.reads in self.jumps:
            self.t += self.jumps[self.reads]
            self.fired += 1

    def time(self):
        self._tick()
        return self.t

    def monotonic(self):
        self._tick()
        return self.mono

    def __enter__(self):
        self.saved = (_time.time, _time.monotonic, _time.perf_counter)
        _time.time = self.time
        _time.monotonic = self.monotonic
        _time.perf_counter = self.monotonic
        return self

    def __exit__(self, *exc):
        _time.time, _time.monotonic, _time.perf_counter = self.saved
        return False


# ----------------------------------------------------------------------------- interrupts
class InterruptAt:
    """Raise `exc` at the k-th executed line inside files matching `match`.

    Lines are counted with sys.settrace, so the point is exactly repeatable.  With k=None nothing is
    raised and `count` ends as the number of lines a run offers.
    """

    def __init__(self, k=None, exc=KeyboardInterrupt, match="/pymc_extras/", only=None):
        self.k = k
        self.exc = exc
        self.match = match
        self.only = only
        self.count = 0
        self.fired = None
        self._cache = {}

    def _want(self, code):
        w = self._cache.get(code)
        if w is None:
            fn = code.co_filename
            w = self.match in fn and "/dst/" not in fn
            if w and self.only is not None:
                w = any(o in fn for o in self.only)
            self._cache[code] = w
        return w

    def _global(self, frame, event, arg):
        if self._want(frame.f_code):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self.count += 1
            if self.k is not None and self.count >= self.k and self.fired is None:
                # leaving a `with` block reports the `with` line before __exit__ runs; no code can protect
                # itself against an interrupt there, so it is delivered one line later
                import linecache

                if linecache.getline(frame.f_code.co_filename, frame.f_lineno).lstrip().startswith("with "):
                    return self._local
                self.fired = (frame.f_code.co_filename.split("/")[-1], frame.f_code.co_name)
                raise self.exc("injected by the simulator")
        return self._local

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *exc):
        sys.settrace(self._old)
        return False


# ----------------------------------------------------------------------------- thread schedules
class ThreadSched:
    """Real threads, one running at a time; who runs next is decided by the seeded PRNG.

    Threads park at `line` events inside /repo's package (and at explicit `step()` calls); at each
    such point the scheduler may hand the token to another thread.  The sequence of hand-overs is
    the schedule: it is logged and replays exactly.
    """

    def __init__(self, rng, switch_p=0.2, match="/pymc_extras/", ctx=None, max_switch=4000):
        import threading

        self.threading = threading
        self.rng = rng
        self.switch_p = switch_p
        self.match = match
        self.cv = threading.Condition()
        self.current = None
        self.alive = []
        self.errors = {}
        self.results = {}
        self.switches = 0
        self.trace = []
        self.max_switch = max_switch
        self._cache = {}

    def _want(self, code):
        w = self._cache.get(code)
        if w is None:
            w = self._cache[code] = self.match in code.co_filename and "/dst/" not in code.co_filename
        return w

    def _park(self, name):
        with self.cv:
            if len(self.alive) > 1 and self.switches < self.max_switch and self.rng.random() < self.switch_p:
                nxt = self.rng.choice(sorted(n for n in self.alive if n != name))
                self.switches += 1
                self.trace.append(nxt)
                self.current = nxt
                self.cv.notify_all()
                while self.current != name:
                    self.cv.wait()

    def step(self):
        self._park(self.threading.current_thread().name)

    def _tracer(self, name):
        def glob(frame, event, arg):
            return loc if self._want(frame.f_code) else None

        def loc(frame, event, arg):
            if event == "line":
                self._park(name)
            return loc

        return glob

    def run(self, tasks):
        """tasks: dict name -> callable.  Returns (results, errors)."""
        threading = self.threading
        order = sorted(tasks)
        self.alive = list(order)
        self.current = self.rng.choice(order)
        self.trace.append(self.current)

        def body(name, fn):
            with self.cv:
                while self.current != name:
                    self.cv.wait()
            sys.settrace(self._tracer(name))
            try:
                self.results[name] = fn()
            except BaseException as e:  # noqa: BLE001 - recorded, judged by the oracle
                self.errors[name] = e
            finally:
                sys.settrace(None)
                with self.cv:
                    self.alive.remove(name)
                    if self.alive:
                        self.current = self.rng.choice(sorted(self.alive))
                        self.trace.append(self.current)
                    self.cv.notify_all()

        ts = [threading.Thread(target=body, args=(n, tasks[n]), name=n, daemon=True) for n in order]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return self.results, self.errors


# ----------------------------------------------------------------------------- randomness
class AdversarialBits:
    """A numpy Generator whose primitive draws are pushed to legal extremes by the simulator.

    `plan` maps the index of a *draw call* to an extreme kind.  Values stay within what the real
    generator may return (uniform in [0,1), Poisson >= 0, ...), so any code relying on them must cope.
    """

    KINDS = ("zero", "almost_one", "tiny", "half", "repeat")

    def __init__(self, seed, rate, kinds, rng):
        self.inner = np.random.default_rng(seed)
        self.rate = rate
        self.kinds = kinds
        self.r = rng
        self.fired = {}


@contextlib.contextmanager
def case_environment(case):
    with contextlib.ExitStack() as st:
        hs = case.get("hash_seed")
        if hs is not None:
            st.enter_context(HashOrder(hs))
        yield


# ----------------------------------------------------------------------------- helpers
@contextlib.contextmanager
def quiet():
    import io
    import logging
    import warnings

    lvl = logging.root.manager.disable
    logging.disable(logging.CRITICAL)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                yield
    finally:
        logging.disable(lvl)
