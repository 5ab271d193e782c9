"""S01: filter, smoother and likelihood are exact whatever observations are lost and wherever the run is cut."""
import numpy as np

from ..core import Scenario, derive
from ..seams import quiet
from ..ssoracle import Dense

PLAN = {
    "quick": [("filter-loss", 72), ("model-loss", 24)],
    "thorough": [("filter-loss", 4000), ("model-loss", 800)],
}
META = {
    "level": "exploration",
    "min_events": 3,
    "rule": "One run fixes a filter (standard, Cholesky, univariate), the set of time-varying matrices and the sizes, then "
            "feeds it a history of episodes: each draws a system and an observation record, loses observations by a "
            "seeded fault plan (single elements, whole steps, bursts, one sensor dead, everything) encoded as NaN or as "
            "the missing-fill value, and stops and restarts the filter from its one-step-ahead state at seeded "
            "steps.  model-loss does the same through PyMCStateSpace.build_statespace_graph for library models and "
            "draws conditional trajectories.",
    "states": "distinct (filter, time-varying set, per-step loss masks) reached",
    "real": ["pymc_extras.statespace filters and smoother", "PyMCStateSpace model graph", "pytensor compiled graph (Python linker)"],
    "stub": ["posterior draws (fixed parameter values instead of MCMC)"],
    "assumptions": ["moderately conditioned systems; agreement to 1e-5 relative (jitter 1e-8 is part of the filters)"],
}

FILTERS = ["standard", "cholesky", "univariate"]
SIZES = [(1, 1, 1), (1, 2, 2), (2, 2, 2), (2, 3, 2), (3, 2, 2), (3, 4, 3)]
NAMES = ["c", "d", "T", "Z", "R", "H", "Q"]
_cache = {}


def setup():
    import pytensor
    import pytensor.tensor as pt

    from pymc_extras.statespace.filters import (KalmanSmoother, SquareRootFilter, StandardFilter, UnivariateFilter)

    globals().update(pytensor=pytensor, pt=pt, KalmanSmoother=KalmanSmoother,
                     KF={"standard": StandardFilter, "cholesky": SquareRootFilter, "univariate": UnivariateFilter})


def compiled(filt, p, m, r, tv, fill):
    key = (filt, p, m, r, tuple(tv), fill)
    if key in _cache:
        return _cache[key]

    def T_(name, shp):
        return pt.tensor(name=name + "_in", shape=((None, *shp) if name in tv else shp), dtype="float64")

    data = pt.tensor(name="data", shape=(None, p), dtype="float64")
    a0 = pt.tensor(name="init_m", shape=(m,), dtype="float64")
    P0 = pt.tensor(name="init_P", shape=(m, m), dtype="float64")
    shapes = dict(c=(m,), d=(p,), T=(m, m), Z=(p, m), R=(m, r), H=(p, p), Q=(r, r))
    mats = [T_(k, shapes[k]) for k in NAMES]
    kw = {} if fill is None else {"missing_fill_value": fill}
    outs = KF[filt]().build_graph(data, a0, P0, *mats, **kw)
    fs, ps, os_, fc, pc, oc, ll = outs
    c, d, T, Z, R, H, Q = mats
    ss, sc = KalmanSmoother().build_graph(T, R, Q, fs, fc, c=c)
    f = pytensor.function([data, a0, P0, *mats], [ll, fs, fc, ps, pc, os_, oc, ss, sc], on_unused_input="ignore")
    _cache[key] = f
    return f


OUT = ["ll", "filt_m", "filt_P", "pred_m", "pred_P", "yhat", "F", "smooth_m", "smooth_P"]


def spd(rng, k, lo=0.3):
    A = rng.normal(size=(k, k))
    return A @ A.T / k + lo * np.eye(k)


def system(rng, n, p, m, r, tv, Hfull, regime):
    def g(name, f):
        return np.array([f() for _ in range(n)]) if name in tv else f()

    def Tm():
        A = rng.normal(size=(m, m))
        return A / max(1.0, 1.15 * np.max(np.abs(np.linalg.eigvals(A))))

    def Rm():
        A = np.zeros((m, r))
        A[:r, :r] = np.eye(r)
        return A + 0.3 * rng.normal(size=(m, r))

    def Zm():
        # singular values in [0.7, 1.5], so that exact sensors give well-conditioned innovations
        U, _, V = np.linalg.svd(rng.normal(size=(p, m)), full_matrices=False)
        return U @ np.diag(rng.uniform(0.7, 1.5, min(p, m))) @ V

    def Hm():
        if regime == "exact":
            return np.zeros((p, p))
        if regime == "half-exact":
            h = rng.uniform(0.2, 1.0, p)
            h[rng.integers(p)] = 0.0
            return np.diag(h)
        if Hfull and p > 1:
            return spd(rng, p)
        return np.diag(rng.uniform(0.2, 1.0, p))

    P0 = spd(rng, m) * (1e3 if regime == "diffuse" else 1.0)
    return dict(a0=rng.normal(size=m), P0=P0, c=g("c", lambda: rng.normal(size=m)), d=g("d", lambda: 3 * rng.normal(size=p)),
                T=g("T", Tm), Z=g("Z", Zm), R=g("R", Rm), H=g("H", Hm),
                Q=g("Q", lambda: spd(rng, r)))


def loss_plan(rng, n, p):
    """A list of loss faults; each is [kind, step, sensor, length, code]."""
    ops = []
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        kind = rng.choice(["element", "element", "element", "step", "burst", "sensor", "all-but-one"])
        ops.append([kind, rng.randrange(n), rng.randrange(p), rng.randint(1, max(1, n // 2)), rng.choice(["nan", "fill"])])
    if rng.random() < 0.05:
        ops.append(["everything", 0, 0, n, rng.choice(["nan", "fill"])])
    return ops


def apply_loss(y, plan, fill, ctx):
    y = y.copy()
    lost = np.zeros(y.shape, bool)
    n, p = y.shape
    for kind, t, j, k, code in plan:
        t, j = t % n, j % p
        v = np.nan if code == "nan" else fill
        if kind == "element":
            sel = (slice(t, t + 1), slice(j, j + 1))
        elif kind == "step":
            sel = (slice(t, t + 1), slice(None))
        elif kind == "burst":
            sel = (slice(t, t + k), slice(j, j + 1))
        elif kind == "sensor":
            sel = (slice(None), slice(j, j + 1))
        elif kind == "all-but-one":
            keep = y[t, j]
            keeplost = lost[t, j]
            y[t, :] = v
            lost[t, :] = True
            y[t, j] = keep
            lost[t, j] = keeplost
            ctx.fault("loss:" + kind)
            continue
        else:
            sel = (slice(None), slice(None))
        y[sel] = v
        lost[sel] = True
        ctx.fault("loss:" + kind)
    return y, lost


def segments(rng, n):
    """Restart points leaving at least two steps each (pytensor's scan refuses the empty backward pass of one)."""
    cuts = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        k = rng.randrange(2, n - 1) if n > 3 else None
        if k is not None and all(abs(k - c) > 1 for c in cuts):
            cuts.append(k)
    return sorted(cuts)


def close(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape or not np.all(np.isfinite(a)):
        return False
    s = max(1.0, float(np.max(np.abs(b)))) if b.size else 1.0
    return bool(np.max(np.abs(a - b), initial=0.0) <= tol * s)


def call(f, filt, y, s, lo=0, hi=None, init=None):
    n = len(y)
    hi = n if hi is None else hi
    a0, P0 = init if init is not None else (s["a0"], s["P0"])
    if filt == "cholesky":
        P0 = np.linalg.cholesky(P0)
    args = []
    for k in NAMES:
        M = s[k]
        nd = 1 if k in ("c", "d") else 2
        args.append(M[lo:hi] if M.ndim == nd + 1 else M)
    with quiet():
        out = f(y[lo:hi], a0, P0, *args)
    return dict(zip(OUT, out))


class FilterLoss(Scenario):
    name = "filter-loss"

    def generate(self, rng, tier):
        p, m, r = rng.choice(SIZES)
        filt = rng.choice(FILTERS)
        if filt == "cholesky" and m == 1:
            p, m, r = 1, 2, 2  # pytensor cannot rewrite the scan of one state with time-varying R
        tv = sorted(k for k in NAMES if rng.random() < rng.choice([0.0, 0.15, 0.5]))
        Hfull = rng.random() < 0.5 if filt != "univariate" else (rng.random() < 0.2 and p > 1)
        fill = rng.choice([None, None, -9999.0, 12345.0, 0.0])
        ops = []
        for _ in range(10 if tier == "quick" else 25):
            n = rng.choice([2, 3, 5, 8, 12])
            regime = rng.choice(["plain", "plain", "plain", "exact", "half-exact", "diffuse"])
            ops.append(dict(dseed=rng.randrange(10**9), n=n, regime=regime, loss=loss_plan(rng, n, p),
                            restart=segments(rng, n)))
        return dict(filter=filt, p=p, m=m, r=r, tv=tv, Hfull=bool(Hfull), fill=fill, ops=ops)

    def execute(self, case, ctx):
        filt, p, m, r, tv = case["filter"], case["p"], case["m"], case["r"], case["tv"]
        f = compiled(filt, p, m, r, tv, case["fill"])
        fill = -9999.0 if case["fill"] is None else case["fill"]
        for op in case["ops"]:
            rng = np.random.default_rng(op["dseed"])
            n, regime = op["n"], op["regime"]
            if regime in ("exact", "half-exact") and p > m:
                regime = "plain"  # several exact sensors of fewer states: F is singular by construction
            s = system(rng, n, p, m, r, tv, case["Hfull"], regime)
            y = 2.0 * rng.normal(size=(n, p)) + 1.0
            y, lost = apply_loss(y, op["loss"], fill, ctx)
            ref_y = np.where(lost, np.nan, y)
            dense = Dense(n, **{k: s[k] for k in ("a0", "P0", *NAMES)})
            ref = dense.run(ref_y)
            cond = np.linalg.cond(dense.Cyy)
            got = call(f, filt, y, s)
            ctx.log(filt, n, p, m, tv, regime, lost.astype(int).tolist(), [round(float(v), 4) for v in np.ravel(got["ll"])])
            ctx.state(filt, tuple(tv), regime, lost.tobytes(), n)
            tol = {"plain": 2e-5, "diffuse": 2e-4, "exact": 1e-3, "half-exact": 1e-3}[regime] * max(1.0, cond / 1e4)
            for k in OUT:
                if regime in ("exact", "half-exact") and k.startswith("smooth"):
                    continue  # the smoother inverts a singular covariance here: only the forward pass is exact
                t = tol * (20 if k.startswith("smooth") else 1)
                ctx.check(close(got[k], ref[k], t), "mismatch-" + k,
                          lambda: f"{filt} n={n} tv={tv} regime={regime} lost={lost.astype(int).tolist()}: {k} differs from the "
                                  f"joint Gaussian by {np.max(np.abs(np.asarray(got[k]) - ref[k])):.3g}")
            for k in ("filt_P", "pred_P", "smooth_P", "F"):
                A = np.asarray(got[k])
                if regime in ("exact", "half-exact") and k == "smooth_P":
                    continue
                sc = max(1.0, np.max(np.abs(A)))
                ctx.check(np.max(np.abs(A - np.swapaxes(A, 1, 2))) <= 1e-8 * sc, "asymmetric-" + k, "")
                ctx.check(np.min(np.linalg.eigvalsh((A + np.swapaxes(A, 1, 2)) / 2)) > -1e-6 * sc, "indefinite-" + k, "")
            # crash and restart: only the one-step-ahead state computed from data so far survives
            lo, init = 0, None
            parts = {k: [] for k in OUT}
            for cut in [*op["restart"], n]:
                seg = call(f, filt, y, s, lo, cut, init)
                if cut < n:
                    y2 = y[lo:cut + 1].copy()
                    y2[-1] = np.nan
                    yy = y.copy()
                    yy[lo:cut + 1] = y2
                    pre = call(f, filt, yy, s, lo, cut + 1, init)
                    init = (np.asarray(pre["pred_m"])[-1], np.asarray(pre["pred_P"])[-1])
                    ctx.fault("restart")
                for k in OUT:
                    parts[k].append(np.asarray(seg[k]))
                lo = cut
            if op["restart"] and regime in ("plain", "diffuse"):
                for k in OUT[:-2]:
                    whole = np.concatenate(parts[k])
                    ctx.check(close(whole, got[k], 1e-6 * max(1.0, cond / 1e4)), "restart-" + k,
                              lambda: f"{filt}: {k} of the restarted filter differs by {np.max(np.abs(whole - got[k])):.3g}")

    def simpler(self, case):
        for i, op in enumerate(case["ops"]):
            for field in ("loss", "restart"):
                for j in range(len(op[field])):
                    yield {**case, "ops": case["ops"][:i] + [{**op, field: op[field][:j] + op[field][j + 1:]}] + case["ops"][i + 1:]}
            if op["n"] > 2:
                yield {**case, "ops": case["ops"][:i] + [{**op, "n": op["n"] - 1, "restart": [x for x in op["restart"] if x < op["n"] - 2]}] + case["ops"][i + 1:]}
        for k in case["tv"]:
            yield {**case, "tv": [x for x in case["tv"] if x != k]}
        if case["fill"] is not None:
            yield {**case, "fill": None}


# ------------------------------------------------------------------------------------------- model level
class ModelLoss(Scenario):
    name = "model-loss"
    hang_s = 400

    def generate(self, rng, tier):
        from .. import sscommon

        kind = rng.choice(sscommon.KINDS)
        filt = rng.choice(["standard", "standard", "cholesky", "univariate"])
        sample = rng.random() < (0.45 if tier == "quick" else 0.6)
        n = rng.choice([4, 5]) if sample else rng.choice([5, 8, 12])
        return dict(kind=kind, filter=filt, n=n, dseed=rng.randrange(10**9), container=rng.choice(["numpy", "frame", "dates"]),
                    loss=loss_plan(rng, n, 3), fill=rng.choice([None, None, -77.0]), collide=rng.random() < 0.3,
                    sample=sample, jitter=rng.choice([None, None, 1e-7]),
                    mode=rng.choice(["FAST_COMPILE"] * 5 + [None]), ops=[])

    def execute(self, case, ctx):
        from .. import sscommon as S

        with quiet():
            self._run(case, ctx, S)

    def _run(self, case, ctx, S):
        rng = np.random.default_rng(case["dseed"])
        n = case["n"]
        w = S.build(case["kind"], case["filter"], n, rng)
        p = w.p
        y = w.draw_data(rng)
        fill = case["fill"]
        if fill is not None and case["collide"]:
            y[rng.integers(n), rng.integers(p)] = -9999.0  # a legitimate value, which is why the user changed the fill
            ctx.fault("data-equals-default-fill")
        plan = [[k, t, j, ln, "nan"] for k, t, j, ln, _ in case["loss"]]
        ylost, lost = apply_loss(y, plan, -9999.0, ctx)
        data = w.container(ylost, case["container"])
        before = data.copy()
        kw = {}
        if fill is not None:
            kw["missing_fill_value"] = fill
        if case["jitter"] is not None:
            kw["cov_jitter"] = case["jitter"]
        model = w.make_model(data, mode=case["mode"], **kw)
        same = before.equals(data) if hasattr(before, "equals") else np.array_equal(before, data, equal_nan=True)
        ctx.check(same, "data-mutated", "build_statespace_graph changed the data it was given")
        mats = w.matrices(model)
        ref = Dense(n, **mats).run(np.where(lost, np.nan, y))
        ll = w.obs_logp(model)
        tol = 1e-4 if not (case["collide"] and fill is not None) else 1e-3
        ctx.log(case["kind"], case["filter"], n, lost.astype(int).tolist(), round(float(np.sum(ll)), 3))
        ctx.state(case["kind"], case["filter"], lost.tobytes(), n)
        ctx.check(close(np.ravel(ll), ref["ll"], tol), "model-ll",
                  lambda: f"{case['kind']}/{case['filter']}: logp {np.ravel(ll)} vs joint Gaussian {ref['ll']}")
        if case["sample"]:
            draws = w.conditional(model, 150, case["dseed"] % 10000)
            for out, key in (("filtered", "filt"), ("predicted", "pred"), ("smoothed", "smooth")):
                M, P = ref[key + "_m"], ref[key + "_P"]
                S.moments(ctx, draws[out + "_posterior"], M, P, "conditional-" + out)
                Z, d, H = mats["Z"], mats["d"], mats["H"]
                Zt = Z if Z.ndim == 3 else np.broadcast_to(Z, (n, *Z.shape))
                dt = d if d.ndim == 2 else np.broadcast_to(d, (n, *d.shape))
                oM = dt + np.einsum("tij,tj->ti", Zt, M)
                oP = np.einsum("tij,tjk,tlk->til", Zt, P, Zt) + H
                S.moments(ctx, draws[out + "_posterior_observed"], oM, oP, "conditional-observed-" + out)
            ctx.probe("conditional-sampled")


SCENARIOS = [FilterLoss(), ModelLoss()]
