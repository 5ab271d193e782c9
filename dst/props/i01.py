"""I01: find_MAP returns the posterior mode, whatever optimiser, start, seed, backend and declaration order."""
import numpy as np

from ..core import Scenario
from ..seams import quiet

PLAN = {
    "quick": [("map", 110)],
    "thorough": [("map", 12000)],
}
GRAD = ["CG", "BFGS", "L-BFGS-B", "Newton-CG", "TNC", "SLSQP", "trust-ncg", "trust-krylov", "trust-exact", "dogleg", "trust-constr"]
FREE = ["nelder-mead", "powell", "COBYLA"]
META = {
    "level": "exploration",
    "min_events": 2,
    "rule": "One run builds a model of seeded blocks with closed-form posterior modes (declared in seeded order, with or without dims and transforms), and searches "
            "its MAP with a seeded optimiser, gradient backend, start point, jitter stream and set iteration order, possibly after a search that was interrupted at a "
            "seeded evaluation; the point returned, its transformed values and deterministics are compared with the closed form.",
    "states": "distinct (optimiser, backend, block kinds, options) reached",
    "real": ["pymc_extras.inference.find_map", "better_optimize", "scipy.optimize", "jax gradients"],
    "stub": [],
    "assumptions": ["all generated posteriors are unimodal and well scaled, so every optimiser converges"],
}


def setup():
    from .. import infworld

    import pymc as pm
    from pymc_extras.inference import find_map as fm

    globals().update(W=infworld, pm=pm, fm=fm)


class Stop(KeyboardInterrupt):
    pass


class SpyMinimize:
    """Records what the optimiser was given; can interrupt it at evaluation k."""

    def __init__(self, k=None):
        self.k = k
        self.n = 0
        self.x0 = None

    def __enter__(self):
        self.orig = fm.minimize

        def minimize(f, x0, *a, **kw):
            self.x0 = np.array(x0)

            def g(*args):
                self.n += 1
                if self.k is not None and self.n >= self.k:
                    raise Stop("injected by the simulator")
                return f(*args)

            return self.orig(g if self.k is not None else f, x0, *a, **kw)

        fm.minimize = minimize
        return self

    def __exit__(self, *a):
        fm.minimize = self.orig
        return False


class Map(Scenario):
    name = "map"

    def generate(self, rng, tier):
        spec = W.gen_spec(rng, kinds=("normal", "normal", "gamma", "beta", "mvn", "regress", "uniform", "dirichlet"), hi=4)
        method = rng.choice(GRAD + GRAD + FREE)
        size = sum(int(np.prod(b["shape"])) if b["shape"] else 1 for b in spec["blocks"])
        if method in FREE and size > 4:
            method = rng.choice(GRAD)
        c = dict(spec=spec, method=method, backend=rng.choice(["pytensor", "pytensor", "jax"]), seed_arg=rng.choice([None, rng.randrange(10**6)]),
                 jitter=rng.choice(["none", "none", "some", "all"]), initvals=rng.choice([None, None, "some", "all"]), include=rng.random() < 0.6,
                 raw=rng.random() < 0.5, context=rng.random() < 0.5, kw=rng.choice([None, {}, {"mode": "FAST_COMPILE"}]), hash_seed=rng.randrange(10**6),
                 interrupt=rng.choice([None, None, rng.randint(1, 12)]), hess=rng.choice(["default", "default", "hess", "hessp", "both"]), iseed=rng.randrange(10**6), ops=[])
        if c["backend"] == "jax":
            c["kw"] = rng.choice([None, {}, {"mode": "JAX"}])
        c["before"] = any(b.get("data") for b in spec["blocks"]) and rng.random() < 0.4
        if method not in ("Newton-CG", "trust-constr"):
            c["hess"] = "default"
        return c

    def execute(self, case, ctx):
        with quiet():
            self._run(case, ctx)

    def _run(self, case, ctx):
        world = W.World(case["spec"])
        m = world.model
        fp = world.fingerprint()
        r = np.random.default_rng(case["iseed"])
        method, backend = case["method"], case["backend"]
        init = None
        if case["initvals"]:
            init = {}
            for n in world.names:
                if case["initvals"] == "some" and r.random() < 0.5:
                    continue
                mode = world.mode[n]
                if world.transform[n] == "simplex":
                    v = mode + 0.3 / mode.size
                    v = v / v.sum()
                elif n in world.support:
                    v = mode * (0.85 + 0.1 * r.random(mode.shape))
                    lo, hi = world.support[n]
                    v = np.clip(v, lo + 0.02 if np.isfinite(lo) else lo, hi - 0.02)
                else:
                    v = mode + r.normal(size=mode.shape)
                init[n] = v
        init0 = None if init is None else {k: v.copy() for k, v in init.items()}
        jit = {"none": None, "all": list(m.free_RVs), "some": [v for v in m.free_RVs if r.random() < 0.5]}[case["jitter"]]
        kw = None if case["kw"] is None else dict(case["kw"])
        opts = {}
        if case["hess"] in ("hess", "both"):
            opts["use_hess"] = True
            opts["use_hessp"] = case["hess"] == "both"
        elif case["hess"] == "hessp":
            opts["use_hessp"], opts["use_hess"] = True, False

        def call(spy, seed):
            args = dict(initvals=init, random_seed=seed, return_raw=case["raw"], jitter_rvs=jit, progressbar=False,
                        include_transformed=case["include"], gradient_backend=backend, compile_kwargs=kw, **opts)
            with spy:
                if case["context"]:
                    with m:
                        return fm.find_MAP(method, **args)
                return fm.find_MAP(method, model=m, **args)

        seed = case["seed_arg"]
        if seed is None and case["jitter"] != "none":
            seed = 5
        if case.get("before"):
            call(SpyMinimize(), seed)
            world.redata(case["iseed"])
            fp = world.fingerprint()
            ctx.fault("data-replaced")
        if case["interrupt"]:
            try:
                call(SpyMinimize(case["interrupt"]), seed)
            except KeyboardInterrupt:
                ctx.fault("interrupt")
            ctx.check(world.fingerprint() == fp, "model-changed", "by an interrupted find_MAP")
            ctx.check(pm.Model.get_context(error_if_none=False) is None, "context-leaked", "")
        g0 = np.random.get_state()[1].copy()
        spy = SpyMinimize()
        res = call(spy, seed)
        ctx.fault("generator-stream")
        ctx.check(np.array_equal(np.random.get_state()[1], g0), "global-rng-used", "find_MAP drew from numpy's global generator")
        point = res[0] if case["raw"] else res
        ctx.check(isinstance(res, tuple) == case["raw"], "return-raw", f"{type(res)}")
        if case["raw"]:
            ctx.check(hasattr(res[1], "x") and np.allclose(res[1].x.size, spy.x0.size), "return-raw", "")
        want_keys = set(world.names) | set(world.dets) | ({world.value_name(n) for n in world.names} if case["include"] else set())
        ctx.check(set(point) == want_keys, "returned-variables", f"{sorted(point)} vs {sorted(want_keys)}")
        tol = 0.06 if method in FREE else 0.01
        for n in world.names:
            x = np.asarray(point[n])
            ctx.check(x.shape == world.mode[n].shape, "returned-shape", f"{n}: {x.shape}")
            ctx.check(np.allclose(x, world.mode[n], rtol=tol, atol=tol), "not-the-mode", lambda: f"{method}/{backend}: {n} = {x.tolist()} but the posterior mode is {world.mode[n].tolist()}")
            if case["include"] and world.transform[n] is not None:
                u = np.asarray(point[world.value_name(n)])
                ctx.check(np.allclose(u, world.forward(n, x), rtol=1e-5, atol=1e-5), "inconsistent-point", lambda: f"{n}: value {u.tolist()} vs transform of {x.tolist()}")
        for d, n in world.dets.items():
            ctx.check(np.allclose(point[d], 2 * np.asarray(point[n]) + 1), "inconsistent-point", f"{d}")
        # the search starts where it was told to
        start = {}
        ip = m.initial_point()
        for n in world.names:
            vn = world.value_name(n)
            start[n] = np.ravel(world.forward(n, init0[n]) if init0 and n in init0 else ip[vn])
        jn = {v.name for v in jit or []}
        want0 = [start[n] for n in world.names]
        got0 = np.split(spy.x0, np.cumsum([len(w) for w in want0])[:-1])
        for n, a, b in zip(world.names, got0, want0):
            if n in jn:
                ctx.check(bool(np.all(np.abs(a - b) <= 1 + 1e-9)) and (np.any(a != b)), "start-point", lambda: f"jittered {n}: {a} vs {b}")
            else:
                ctx.check(np.allclose(a, b, atol=1e-6), "start-point", lambda: f"{n} starts at {a}, asked for {b}")
        ctx.check(world.fingerprint() == fp, "model-changed", "by find_MAP")
        ctx.check(kw == (None if case["kw"] is None else dict(case["kw"])), "arguments-changed", f"compile_kwargs became {kw}")
        ctx.check(init is None or (set(init) == set(init0) and all(np.array_equal(init[k], init0[k]) for k in init)), "arguments-changed", "initvals")
        spy2 = SpyMinimize()
        again = call(spy2, seed)
        again = again[0] if case["raw"] else again
        ctx.check(np.array_equal(spy.x0, spy2.x0), "seed-not-reproducible", "start point differs between two calls with the same seed")
        ctx.check(all(np.allclose(again[k], point[k], rtol=1e-8, atol=1e-8) for k in point), "seed-not-reproducible", "")
        ctx.state(method, backend, tuple(sorted(b["k"] for b in case["spec"]["blocks"])), case["jitter"], case["initvals"])
        ctx.log(method, backend, {k: np.round(v, 4).tolist() for k, v in sorted(point.items())})

    def simpler(self, case):
        for k, v in (("interrupt", None), ("before", False), ("jitter", "none"), ("initvals", None), ("raw", False), ("context", False), ("hess", "default"), ("backend", "pytensor"), ("kw", None)):
            if case[k] != v:
                yield {**case, k: v}
        s = case["spec"]
        for i in range(len(s["blocks"])):
            if len(s["blocks"]) > 1:
                order = [[a - (a > i), j] for a, j in s["order"] if a != i]
                yield {**case, "spec": {"blocks": s["blocks"][:i] + s["blocks"][i + 1:], "order": order}}


SCENARIOS = [Map()]
