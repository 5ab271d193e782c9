"""B01: a saved model survives any interrupted, failed, concurrent or self-overwriting save."""
import os
import random
import shutil
import tempfile

import numpy as np
import pandas as pd

from ..core import Scenario, derive
from ..seams import InterruptAt, ThreadSched, quiet

PLAN = {
    "quick": [("save-history", 64), ("save-race", 32)],
    "thorough": [("save-history", 6000), ("save-race", 2500)],
}
META = {
    "level": "fault_enumeration",
    "min_events": 4,
    "rule": "One run is a seeded history of fit/save/load operations of ModelBuilder models over a few paths in a "
            "scratch directory, with process crashes at seeded calls of the I/O stack (forked process, os._exit), "
            "ENOSPC/EIO before or after a group write, KeyboardInterrupt at a seeded line of the save, saves over the "
            "file a model was lazily loaded from, and savers and loaders interleaved by a seeded thread schedule.",
    "states": "distinct (fault kind, crash decile, number of earlier versions, outcome old/new/absent)",
    "real": ["pymc_extras.model_builder", "arviz to_netcdf/from_netcdf", "xarray", "h5netcdf/h5py", "real files in a scratch directory"],
    "stub": ["MCMC sampling inside fit (synthetic posterior)"],
    "assumptions": ["process crash, not power loss: bytes handed to the OS before the crash survive"],
}


def setup():
    from .. import mbworld

    globals()["W"] = mbworld


def make_model(cls, op):
    m = W.CLASSES[cls]()
    n = op["n"]
    r = np.random.default_rng(op["dseed"])
    X = pd.DataFrame({"input": r.normal(size=n)})
    y = r.normal(size=n)
    m.fit(X, y, random_seed=op["dseed"], progressbar=False)
    return m


def load_digest(cls, path):
    m = W.CLASSES[cls].load(path)
    d = W.digest(m.idata)
    return m, d


class SaveHistory(Scenario):
    name = "save-history"

    def generate(self, rng, tier):
        n = rng.randint(3, 12 if tier == "quick" else 20)
        cls = rng.choice(["Lin", "Lin", "Rich"])
        npaths = rng.choice([1, 1, 2])
        rate = rng.choice([0.0, 0.3, 0.5, 0.7])
        ops = [["fit", 0, rng.randrange(10**6), rng.randint(1, 5)]]
        for _ in range(n):
            r = rng.random()
            if r < 0.25:
                ops.append(["fit", rng.randrange(2), rng.randrange(10**6), rng.randint(1, 5)])
            elif r < 0.75:
                f = None
                if rng.random() < rate:
                    kind = rng.choice(["crash", "crash", "crash", "enospc", "eio", "interrupt"])
                    if kind == "crash":
                        f = ["crash", round(rng.random() if rng.random() < 0.7 else 1 - 0.1 * rng.random(), 4)]
                    elif kind == "interrupt":
                        f = ["interrupt", rng.randint(1, 12)]
                    else:
                        f = [kind, rng.randint(0, 5), rng.choice(["before", "after"])]
                ops.append(["save", rng.randrange(2), rng.randrange(npaths), f])
            elif r < 0.92:
                ops.append(["load", rng.randrange(2), rng.randrange(npaths)])
            else:
                ops.append(["save_unfitted", rng.randrange(npaths), rng.choice(["new", "prior", "failed"])])
        return {"cls": cls, "ops": ops, "name": rng.choice(["m.nc", "model.v1.nc", "results", "link"])}

    def execute(self, case, ctx):
        d = tempfile.mkdtemp(prefix="dst-b01-")
        try:
            with quiet():
                self.run(case, ctx, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def run(self, case, ctx, d):
        cls = case["cls"]
        allowed = {}          # path -> set of digests (None = no file) the path may hold
        slots = {}            # slot -> (model, digest)
        names = {}

        def path(p):
            base = os.path.join(d, f"p{p}-{case['name']}")
            if case["name"] == "link" and p not in names:
                os.symlink(os.path.join(d, f"target{p}.nc"), base)
                names[p] = base
            return base

        def verify(p, why):
            want = allowed.get(p, {None})
            f = path(p)
            if not os.path.exists(f):
                ctx.check(None in want, "saved-model-lost", lambda: f"{why}: file for path {p} is gone; an earlier save had succeeded")
                return None
            try:
                m, got = load_digest(cls, f)
            except Exception as e:
                ctx.check(False, "saved-model-unreadable", f"{why}: path {p} holds a file that does not load: {type(e).__name__}: {e}")
            ctx.check(got in want, "saved-model-mixed", lambda: f"{why}: path {p} loads as {got}, allowed {sorted(map(str, want))}")
            allowed[p] = {got}
            return m

        for op in case["ops"]:
            kind = op[0]
            ctx.advance(1)
            if kind == "fit":
                m = make_model(cls, {"dseed": op[2], "n": op[3]})
                slots[op[1]] = (m, W.digest(m.idata))
                ctx.log("fit", op[1], op[2])
            elif kind == "save_unfitted":
                p = op[1]
                m = W.CLASSES[cls]()
                if op[2] == "prior":
                    m.sample_prior_predictive(pd.DataFrame({"input": [0.0, 1.0]}), samples=2, extend_idata=True, random_seed=1)
                elif op[2] == "failed":
                    def fail(**kw):
                        raise MemoryError("injected by the simulator")

                    m.sample_model = fail
                    try:
                        m.fit(pd.DataFrame({"input": [0.0, 1.0]}), np.array([1.0, 2.0]), progressbar=False)
                    except MemoryError:
                        ctx.fault("sampler-failed")
                try:
                    m.save(path(p))
                    ctx.check(False, "unfitted-save-accepted", "save() of a model that was never fit did not raise")
                except RuntimeError:
                    pass
                verify(p, "after refused save of an unfitted model")
                ctx.log("save_unfitted", p)
            elif kind == "save":
                s, p, fault = op[1], op[2], op[3]
                if s not in slots:
                    continue
                m, dg = slots[s]
                f = path(p)
                old = allowed.get(p, {None})
                if fault is None:
                    m.save(f)
                    allowed[p] = {dg}
                    out = "ok"
                elif fault[0] == "crash":
                    def dry():
                        with W.CrashCounter() as c:
                            m.save(f + ".dry")
                        return c.n
                    code, txt = W.in_child(dry)
                    total = int(txt) if code == 0 else 1
                    for x in os.listdir(d):
                        if ".dry" in x:
                            os.unlink(os.path.join(d, x))
                    k = max(1, int(fault[1] * total))

                    def go():
                        with W.CrashCounter(k):
                            m.save(f)
                        return "completed"
                    code, txt = W.in_child(go)
                    if code == 9:
                        ctx.fault("crash")
                        allowed[p] = old | {dg}
                        out = "crashed"
                    else:
                        ctx.check(code == 0, "save-failed", txt)
                        allowed[p] = {dg}
                        out = "completed"
                    ctx.state("crash", int(10 * fault[1]), len(old), out)
                elif fault[0] == "interrupt":
                    with InterruptAt(fault[1], KeyboardInterrupt, only=("model_builder",)) as it:
                        try:
                            m.save(f)
                            out = "ok"
                        except KeyboardInterrupt:
                            out = "interrupted"
                    if it.fired:
                        ctx.fault("interrupt")
                    allowed[p] = {dg} if out == "ok" and not it.fired else old | {dg}
                else:
                    exc = W.SimENOSPC() if fault[0] == "enospc" else OSError(5, "I/O error (simulated)")
                    with W.DiskFault(fault[1], fault[2], exc) as df:
                        try:
                            m.save(f)
                            out = "ok"
                        except OSError:
                            out = "oserror"
                    if df.fired:
                        ctx.fault(fault[0])
                        ctx.check(out != "ok", "write-error-swallowed", "save() returned normally although a write failed")
                        allowed[p] = old | {dg}
                    else:
                        allowed[p] = {dg}
                verify(p, f"after save with fault {fault}")
                after = W.digest(m.idata)
                ctx.check(after == dg, "save-changed-the-model", "the in-memory model differs after save()")
                ctx.state("save", fault[0] if fault else "none", out, len(old), next(iter(allowed[p])) == dg)
                ctx.log("save", s, p, fault, out)
            elif kind == "load":
                s, p = op[1], op[2]
                m = verify(p, "load")
                if m is not None:
                    # a second instance whose values nobody has looked at yet: later saves to the same
                    # path must not be able to change what it will show
                    m = W.CLASSES[cls].load(path(p))
                    slots[s] = (m, next(iter(allowed[p])))
                ctx.log("load", s, p, m is not None)
        for s, (m, dg) in sorted(slots.items()):
            ctx.check(W.digest(m.idata) == dg, "loaded-model-changed", f"model in slot {s} no longer shows the data it was fitted or loaded with")
        for p in list(allowed):
            verify(p, "end of history")

    def simpler(self, case):
        if case["cls"] != "Lin":
            yield {**case, "cls": "Lin"}
        if case["name"] != "m.nc":
            yield {**case, "name": "m.nc"}
        for i, op in enumerate(case["ops"]):
            if op[0] == "save" and op[3]:
                yield {**case, "ops": case["ops"][:i] + [[*op[:3], None]] + case["ops"][i + 1:]}


class SaveRace(Scenario):
    name = "save-race"

    def generate(self, rng, tier):
        return {"nsave": rng.randint(2, 3), "nload": rng.randint(0, 2), "pre": rng.random() < 0.6,
                "switch": rng.choice([0.1, 0.3, 0.6]), "sched": rng.randrange(10**9),
                "ops": []}

    def execute(self, case, ctx):
        d = tempfile.mkdtemp(prefix="dst-b01r-")
        try:
            with quiet():
                f = os.path.join(d, "m.nc")
                ms = [make_model("Lin", {"dseed": case["seed"] % 1000 + i, "n": 2}) for i in range(case["nsave"])]
                ok = {W.digest(m.idata) for m in ms}
                if case["pre"]:
                    m0 = make_model("Lin", {"dseed": 77, "n": 3})
                    m0.save(f)
                    pre = {W.digest(m0.idata)}
                else:
                    pre = set()
                sched = ThreadSched(random.Random(case["sched"]), case["switch"], match="model_builder")
                tasks = {f"save{i}": (lambda m=m: m.save(f)) for i, m in enumerate(ms)}
                for i in range(case["nload"] if case["pre"] else 0):
                    tasks[f"load{i}"] = lambda: load_digest("Lin", f)[1]
                res, err = sched.run(tasks)
                ctx.fault("thread-switch", sched.switches)
                ctx.log("schedule", sched.trace)
                for n, e in sorted(err.items()):
                    ctx.check(False, "concurrent-call-failed", f"{n} failed: {type(e).__name__}: {e}")
                for n, r in sorted(res.items()):
                    if n.startswith("load"):
                        ctx.check(r in ok | pre, "race-mixed-load", f"{n} returned {r}")
                _, got = load_digest("Lin", f)
                ctx.check(got in ok, "race-mixed-file", f"file holds {got}, saved were {sorted(ok)}")
                left = sorted(x for x in os.listdir(d) if x != "m.nc")
                ctx.check(not left, "temporary-files-left", f"{left}")
                ctx.state("race", case["nsave"], len(sched.trace) // 5, case["pre"])
                ctx.log("done", len(sched.trace))
        finally:
            shutil.rmtree(d, ignore_errors=True)


SCENARIOS = [SaveHistory(), SaveRace()]
