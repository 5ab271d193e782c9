"""Deterministic simulation core: one integer decides everything a run does.

A *case* is a JSON document: scenario name, seed, parameters and an operation/fault list.  It is
produced by `Scenario.generate(rng)` from one PRNG and executed by `Scenario.execute(case, ctx)`,
which must be a pure function of the case and of the code in /repo.  Everything else here --
workers, minimisation, replay files, evidence -- works on cases only.
"""
from __future__ import annotations

import hashlib
import json
import random
import signal
import traceback


class Violation(Exception):
    """The property is broken.  `key` names the class of violation and survives minimisation."""

    def __init__(self, key, msg=""):
        super().__init__(f"{key}: {msg}")
        self.key = key
        self.msg = msg


class HarnessError(Exception):
    """The check itself is at fault; never reported as a violation."""


class Hang(BaseException):
    pass


def derive(*parts) -> int:
    h = hashlib.sha256("\x1f".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big") >> 1


class Ctx:
    """What a run records.  Recording never draws randomness and never reads a real clock."""

    def __init__(self):
        self.h = hashlib.sha256()
        self.n_events = 0
        self.tail = []
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.sim_time = 0.0
        self.checks = 0

    def log(self, *ev):
        s = json.dumps(ev, default=str, sort_keys=True)
        self.h.update(s.encode())
        self.h.update(b"\n")
        self.n_events += 1
        self.tail.append(s[:300])
        if len(self.tail) > 60:
            del self.tail[0]

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *key):
        self.states.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def advance(self, dt):
        self.sim_time += float(dt)

    def check(self, cond, key, msg=""):
        self.checks += 1
        if not cond:
            raise Violation(key, msg() if callable(msg) else msg)

    def digest(self):
        return self.h.hexdigest()[:16]


class Scenario:
    name = "?"
    #: seconds after which a run counts as making no progress
    hang_s = 240

    def generate(self, rng: random.Random, tier: str) -> dict:
        raise NotImplementedError

    def execute(self, case: dict, ctx: Ctx) -> None:
        raise NotImplementedError

    def simpler(self, case: dict):
        """Yield candidate simplifications besides dropping operations."""
        return ()


def reset_globals(seed):
    import numpy as np

    random.seed(seed)
    np.random.seed(seed % (2**32))


def run_case(scn: Scenario, case: dict):
    """Execute one case; returns (ctx, violation-or-None)."""
    ctx = Ctx()
    from . import seams

    reset_globals(case["seed"])
    viol = None

    def on_alarm(*_):
        raise Hang()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(scn.hang_s)
    try:
        with seams.case_environment(case):
            scn.execute(case, ctx)
    except Violation as v:
        viol = v
    except Hang:
        viol = Violation("no-progress", f"run did not finish within {scn.hang_s}s")
    except HarnessError:
        raise
    except Exception as e:  # the code under test refused a call that had to succeed
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{f.filename.split('/')[-1]}:{f.name}" for f in tb][-6:]
        viol = Violation(f"unexpected-{type(e).__name__}", f"{str(e)[:400]} at {' > '.join(where)}")
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    ctx.log("end", viol.key if viol else "ok")
    return ctx, viol


def ddmin(items, fails):
    """Classic delta debugging over a list; `fails(list) -> bool`."""
    n = 2
    items = list(items)
    while len(items) >= 1:
        chunk = max(1, len(items) // n)
        some = False
        for i in range(0, len(items), chunk):
            cand = items[:i] + items[i + chunk:]
            if fails(cand):
                items = cand
                n = max(n - 1, 2)
                some = True
                break
        if not some:
            if chunk == 1:
                break
            n = min(len(items), n * 2)
    return items


def minimise(scn, case, key, deadline, log=lambda s: None):
    """Shrink ops first, then scenario-specific simplifications, keeping the violation class."""
    import time

    tried = 0

    def fails(c):
        nonlocal tried
        if time.monotonic() > deadline:
            return False
        tried += 1
        try:
            _, v = run_case(scn, c)
        except HarnessError:
            return False
        return v is not None and v.key == key

    best = case
    progress = True
    while progress and time.monotonic() < deadline:
        progress = False
        if best.get("ops"):
            ops = ddmin(best["ops"], lambda o: fails({**best, "ops": o}))
            if len(ops) < len(best["ops"]):
                best = {**best, "ops": ops}
                progress = True
        for cand in scn.simpler(best):
            if time.monotonic() > deadline:
                break
            if fails(cand):
                best = cand
                progress = True
                break
    return best, tried
