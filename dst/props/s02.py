"""S02: simulated and forecast trajectories follow the documented state-space law."""
import numpy as np

from ..core import Scenario, Violation
from ..seams import quiet
from ..ssoracle import Dense
from .s01 import NAMES, SIZES, system

PLAN = {
    "quick": [("trajectory-law", 32), ("unconditional-law", 12), ("forecast-history", 32)],
    "thorough": [("trajectory-law", 1200), ("unconditional-law", 400), ("forecast-history", 1200)],
}
META = {
    "level": "exploration",
    "min_events": 2,
    "rule": "One run builds a system (raw LinearGaussianStateSpace, or a PyMCStateSpace model conditioned on data with lost "
            "observations), draws trajectories from seeded generators -- independent calls, or a history of forecast calls "
            "with seeded origins, horizons, scenario containers, column orders and index types, some of which must be "
            "refused -- and compares mean and covariance of the whole trajectory with the joint Gaussian (|z| <= 7 per "
            "entry), the index labels with the calendar, and repeated seeds with each other.",
    "states": "distinct (model kind, filter, time-varying set, call shape) reached",
    "real": ["LinearGaussianStateSpace", "PyMCStateSpace.sample_unconditional_posterior / forecast / sample_statespace_matrices / impulse_response_function"],
    "stub": ["posterior draws (fixed parameter values instead of MCMC)"],
    "assumptions": ["sampling error bounds at 7 standard errors; a bias below that is not seen"],
}
_cache = {}


def setup():
    import pandas as pd
    import pymc as pm
    import pytensor
    import pytensor.tensor as pt

    from pymc_extras.statespace.filters.distributions import LinearGaussianStateSpace
    from .. import sscommon as S

    globals().update(pm=pm, pt=pt, pytensor=pytensor, pd=pd, LGSS=LinearGaussianStateSpace, S=S)


def joint(ctx, draws, mean, cov, key, z=7.0):
    """draws (N, k) against N(mean, cov): every mean and every covariance entry."""
    N = len(draws)
    v = np.diag(cov)
    se = np.sqrt(np.maximum(v, 1e-8) / N)
    dm = np.abs(draws.mean(0) - mean)
    ctx.check(bool(np.all(np.isfinite(draws))), key + "-not-finite", "")
    ctx.check(bool(np.all(dm <= z * se + 1e-3)), key + "-mean",
              lambda: f"entry {int(np.argmax(dm / se))} is {np.max(dm / se):.1f} standard errors off over {N} draws")
    C = (draws - mean).T @ (draws - mean) / N
    sc = np.sqrt((np.outer(v, v) + cov**2) / N)
    dc = np.abs(C - cov)
    ctx.check(bool(np.all(dc <= z * sc + 3e-3 * (1 + np.sqrt(np.outer(v, v))))), key + "-covariance",
              lambda: f"entry {np.unravel_index(np.argmax(dc / (sc + 1e-9)), dc.shape)} is {np.max(dc / (sc + 1e-9)):.1f} standard "
                      f"errors off over {N} draws: {C.ravel()[np.argmax(dc / (sc + 1e-9))]:.3f} vs {cov.ravel()[np.argmax(dc / (sc + 1e-9))]:.3f}")


def stack(D):
    n = D.n
    mean = np.concatenate([D.mu.ravel(), D.my])
    C = np.block([[D.Cxx, D.Cyx.T], [D.Cyx, D.Cyy]])
    return mean, C


class TrajectoryLaw(Scenario):
    name = "trajectory-law"

    def generate(self, rng, tier):
        p, m, r = rng.choice(SIZES[:5])
        tv = sorted(k for k in NAMES if rng.random() < rng.choice([0.0, 0.2, 0.5]))
        return dict(p=p, m=m, r=r, tv=tv, n=rng.choice([2, 3, 5]), append=rng.random() < 0.7, dseed=rng.randrange(10**9),
                    rseed=rng.randrange(10**6), extra=rng.choice([0, 0, 2]), ops=[])

    def execute(self, case, ctx):
        p, m, r, tv, n = (case[k] for k in ("p", "m", "r", "tv", "n"))
        rng = np.random.default_rng(case["dseed"])
        s = system(rng, n + 1 + case["extra"], p, m, r, tv, True, "plain")
        order = [k for k in NAMES if k in tv]
        mats = [pt.as_tensor(s[k]) for k in ("a0", "P0", *NAMES)]
        with quiet():
            x, y = LGSS.dist(*mats, steps=n, sequence_names=order, append_x0=case["append"], mode="FAST_COMPILE")
            f = pm.compile_pymc([], [x, y], random_seed=case["rseed"], mode="FAST_COMPILE")
            N = 400
            dr = [f() for _ in range(N)]
            g = pm.compile_pymc([], [x, y], random_seed=case["rseed"], mode="FAST_COMPILE")
            again = [g() for _ in range(3)]
        X, Y = np.array([a for a, _ in dr]), np.array([b for _, b in dr])
        ctx.log("draws", X.shape, Y.shape, round(float(X.sum()), 6), round(float(Y.sum()), 6))
        ctx.state(tuple(tv), case["append"], p, m, r, n)
        ctx.fault("generator-stream", N)
        rows = n + 1 if case["append"] else n
        ctx.check(X.shape == (N, rows, m) and Y.shape == (N, rows, p), "trajectory-shape", f"{X.shape} {Y.shape}")
        for (a, b), (c, d) in zip(again, dr):
            ctx.check(np.array_equal(a, c) and np.array_equal(b, d), "seed-not-reproducible", "same seed, different draws")
        a = {k: (s[k][:n + 1] if k in tv else s[k]) for k in NAMES}
        if not case["append"]:
            # the initial state is not reported; step k makes y[k+1] with the matrices given for step k
            for k in ("d", "Z", "H"):
                if k in tv:
                    a[k] = np.concatenate([s[k][:1], s[k][:n]])
        D = Dense(n + 1, s["a0"], s["P0"], **a)
        mean, C = stack(D)
        if not case["append"]:
            keep = np.r_[m:(n + 1) * m, (n + 1) * m + p:(n + 1) * (m + p)]
            mean, C = mean[keep], C[np.ix_(keep, keep)]
        joint(ctx, np.concatenate([X.reshape(N, -1), Y.reshape(N, -1)], 1), mean, C, "trajectory")

    def simpler(self, case):
        for k in case["tv"]:
            yield {**case, "tv": [x for x in case["tv"] if x != k]}
        if case["n"] > 2:
            yield {**case, "n": 2}


class UnconditionalLaw(Scenario):
    name = "unconditional-law"
    hang_s = 400

    def generate(self, rng, tier):
        kind = rng.choice(["generic1", "generic2", "structural", "structural", "varmax", "sarimax", "ets"])
        return dict(kind=kind, filter=rng.choice(["standard", "cholesky", "univariate"]), n=rng.choice([3, 5]), dseed=rng.randrange(10**9),
                    rseed=rng.randrange(10**6), how=rng.choice(["default", "steps", "data-dim"]), extra=rng.randint(0, 2), ops=[])

    def execute(self, case, ctx):
        with quiet():
            rng = np.random.default_rng(case["dseed"])
            n = case["n"]
            w = S.build(case["kind"], case["filter"], n, rng)
            model = w.make_model(w.container(w.draw_data(rng), "frame"), mode="FAST_COMPILE")
            mats = w.matrices(model)
            N = 250
            kw = dict(random_seed=case["rseed"], progressbar=False)
            rows = n
            if case["how"] == "steps":
                steps = n - 1 if w.exog else n - 1 + case["extra"]
                kw["steps"] = steps
                rows = steps + 1
            elif case["how"] == "data-dim":
                kw.update(steps=n, use_data_time_dim=True)
            out = w.ss.sample_unconditional_posterior(w.idata(N), **kw)
            again = w.ss.sample_unconditional_posterior(w.idata(N), **kw)
            mat_idata = w.ss.sample_statespace_matrices(w.idata(2), case["dseed"] % 2 and "Z" or ["Z", "T", "d"])
        X = out["posterior_latent"].values[0]
        Y = out["posterior_observed"].values[0]
        ctx.log(case["kind"], case["how"], X.shape, round(float(X.sum()), 6))
        ctx.state(case["kind"], case["filter"], case["how"], rows)
        ctx.fault("generator-stream", N)
        ctx.check(X.shape[1] == rows and Y.shape[1] == rows, "trajectory-shape", f"{X.shape} {Y.shape}, expected {rows} rows")
        ctx.check(np.array_equal(X, again["posterior_latent"].values[0]), "seed-not-reproducible", "same seed, different draws")
        Z = mat_idata["posterior_predictive"]["Z"].values
        ctx.check(np.allclose(Z, mats["Z"][None, None]), "sampled-matrix", "sample_statespace_matrices differs from the model's matrix")
        D = Dense(rows, **mats)
        mean, C = stack(D)
        joint(ctx, np.concatenate([X.reshape(N, -1), Y.reshape(N, -1)], 1), mean, C, "unconditional")


class ForecastHistory(Scenario):
    name = "forecast-history"
    hang_s = 400

    def generate(self, rng, tier):
        kind = rng.choice(["structural", "structural", "generic1", "generic2", "varmax", "ets"])
        n = rng.choice([4, 6])
        ops = []
        for _ in range(rng.randint(1, 2) if tier == "quick" else rng.randint(2, 5)):
            ops.append(dict(start=rng.choice(["none", "none-quiet", "neg", "pos", "label"]), k=rng.randrange(n), h=rng.choice([1, 2, 3]),
                            how=rng.choice(["periods", "periods", "end", "scenario-index"]),
                            scen=rng.choice(["frame", "frame-reordered", "frame-reordered", "array", "dict-frame", "dict-array", "int-frame"]),
                            out=rng.choice(["smoothed", "filtered", "predicted"]), quiet=rng.random() < 0.5,
                            dseed=rng.randrange(10**9), rseed=rng.randrange(10**6)))
        return dict(kind=kind, filter=rng.choice(["standard", "cholesky", "univariate"]), n=n, dseed=rng.randrange(10**9),
                    container=rng.choice(["frame", "dates"]), lost=[[rng.randrange(n), rng.randrange(2)] for _ in range(rng.randint(0, 3))],
                    ops=ops)

    def execute(self, case, ctx):
        with quiet():
            self._run(case, ctx)

    def _run(self, case, ctx):
        rng = np.random.default_rng(case["dseed"])
        n = case["n"]
        w = S.build(case["kind"], case["filter"], n, rng)
        y = w.draw_data(rng)
        for t, j in case["lost"]:
            y[t, j % w.p] = np.nan
            ctx.fault("loss:element")
        data = w.container(y, case["container"])
        model = w.make_model(data, mode="FAST_COMPILE")
        mats = w.matrices(model)
        ref = Dense(n, **mats).run(y)
        index = data.index if case["container"] == "dates" else pd.RangeIndex(n)
        freq = pd.tseries.frequencies.to_offset("D")
        N = 150
        for op in case["ops"]:
            h = op["h"]
            start_pos = n - 1 if op["start"].startswith("none") else op["k"]
            kw = dict(filter_output=op["out"], random_seed=op["rseed"], progressbar=False)
            kw["verbose"] = not (op["quiet"] or op["start"] == "none-quiet")
            how = op["how"]
            if how == "scenario-index" and (not w.exog or op["scen"] in ("array", "dict-array")):
                how = "periods"
            if op["start"] == "neg":
                kw["start"] = start_pos - n
            elif op["start"] == "pos":
                kw["start"] = start_pos
            elif op["start"] == "label":
                kw["start"] = index[start_pos] if case["container"] == "dates" else int(start_pos)
            if case["container"] == "dates":
                fidx = pd.date_range(index[start_pos], periods=h + 1, freq=freq)[1:]
            else:
                fidx = pd.RangeIndex(start_pos + 1, start_pos + h + 1)
            if how == "periods":
                kw["periods"] = h
            elif how == "end":
                kw["end"] = fidx[-1] if case["container"] == "dates" else int(fidx[-1]) + 1
            else:
                kw["use_scenario_index"] = True
                kw.pop("start", None)
            scen = None
            if w.exog:
                r = np.random.default_rng(op["dseed"])
                vals = r.normal(size=(h, 2))
                if op["scen"] == "int-frame":
                    vals = r.integers(0, 2, size=(h, 2)).astype(float)
                frame = pd.DataFrame(vals, columns=["a", "b"], index=fidx)
                kind = op["scen"]
                if kind == "frame":
                    scen = frame
                elif kind == "frame-reordered":
                    scen = frame[["b", "a"]]
                elif kind == "array":
                    scen = vals
                elif kind == "dict-frame":
                    scen = {"data_exog": frame}
                elif kind == "dict-array":
                    scen = {"data_exog": vals}
                else:
                    scen = frame.astype("int64")
                kw["scenario"] = scen
            before = None
            if isinstance(scen, dict):
                before = {k: v for k, v in scen.items()}
            call = lambda: w.ss.forecast(w.idata(N), **kw)
            out = call()
            if before is not None:
                ctx.check(all(scen[k] is before[k] for k in before) and len(scen) == len(before), "scenario-mutated",
                          "forecast replaced entries of the dictionary it was given")
            X, Y = out["forecast_latent"].values[0], out["forecast_observed"].values[0]
            got = list(out["forecast_latent"].coords["time"].values)
            want = list(np.asarray(fidx))
            ctx.log(case["kind"], op["start"], how, op["scen"], [str(g) for g in got], round(float(X.sum()), 5))
            ctx.state(case["kind"], case["filter"], op["start"], how, op["scen"] if w.exog else "", op["out"], case["container"])
            ctx.fault("forecast-call")
            ctx.check(got == want, "forecast-index", f"forecast covers {got}, expected {want}")
            M = ref[{"smoothed": "smooth", "filtered": "filt", "predicted": "pred"}[op["out"]] + "_m"][start_pos]
            P = ref[{"smoothed": "smooth", "filtered": "filt", "predicted": "pred"}[op["out"]] + "_P"][start_pos]
            a = dict(mats)
            a["a0"], a["P0"] = M, P
            if w.exog:
                Zrow = mats["Z"][0].copy()
                Zs = np.repeat(Zrow[None], h + 1, axis=0)
                # the regression columns of Z hold the exogenous data
                cols = [i for i, nme in enumerate(w.ss.state_names) if nme in ("a", "b") or "beta" in nme or nme.startswith("exog")]
                Zs[1:, 0, cols] = frame[["a", "b"]].to_numpy()
                a["Z"] = Zs
            D = Dense(h + 1, **a)
            mean, C = stack(D)
            m, p = D.m, D.p
            keep = np.r_[m:(h + 1) * m, (h + 1) * m + p:(h + 1) * (m + p)]
            joint(ctx, np.concatenate([X.reshape(N, -1), Y.reshape(N, -1)], 1), mean[keep], C[np.ix_(keep, keep)], "forecast")
            out2 = call()
            ctx.check(np.array_equal(out2["forecast_latent"].values[0], X), "seed-not-reproducible",
                      "the same forecast call with the same seed gave other draws")


SCENARIOS = [TrajectoryLaw(), UnconditionalLaw(), ForecastHistory()]
