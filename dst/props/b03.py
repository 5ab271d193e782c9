"""B03: a fitted model keeps predicting from its last completed fit, whatever happens in between."""
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from ..core import Scenario
from ..seams import InterruptAt, quiet

PLAN = {
    "quick": [("lifecycle", 220)],
    "thorough": [("lifecycle", 12000)],
}
META = {
    "level": "fault_enumeration",
    "min_events": 3,
    "rule": "One run drives one or two models through a seeded history of fits, predictions (point, full posterior, prior), saves, loads and parameter changes, with "
            "refused data, failing samplers and interrupts at seeded lines of the library in between; every prediction is compared with the closed form of the last "
            "completed fit and with a fresh replica holding only that fit, and the stored results with those of that fit.",
    "states": "distinct (model class, previous operation, operation, outcome) transitions",
    "real": ["pymc_extras.model_builder", "pymc_extras.linearmodel", "pm.sample_prior_predictive", "pm.sample_posterior_predictive", "netCDF save and load"],
    "stub": ["pm.sample (synthetic posterior)"],
    "assumptions": [],
}


def setup():
    from .. import mbworld

    import arviz as az

    globals().update(W=mbworld, az=az)


class Boom(RuntimeError):
    pass


class Ref:
    """What the user may rely on: the last completed fit."""

    def __init__(self):
        self.post = None
        self.X = self.y = self.cfg = None


def posterior_of(idata):
    return {k: idata.posterior[k].values.copy() for k in idata.posterior.data_vars}


class Lifecycle(Scenario):
    name = "lifecycle"

    def generate(self, rng, tier):
        cls = rng.choice(["Sharp", "MultiSharp"])
        noise = rng.choice([1e-9, 1e-9, 0.7])
        rate = rng.choice([0, 0.3, 0.6])
        nm = rng.choice([1, 1, 2])
        reuse = rng.random() < 0.5
        ops = []
        for _ in range(rng.randint(3, 9)):
            s = rng.randrange(nm)
            k = rng.choice(["fit", "fit", "predict", "predict", "posterior", "posterior", "proba", "prior", "prior", "save_load", "set_params", "bad_predict"])
            f = None
            if rng.random() < rate and k not in ("set_params", "bad_predict", "save_load"):
                f = ["interrupt", rng.randint(1, 45)] if rng.random() < 0.6 or k != "fit" else [rng.choice(["sampler", "data"])]
            n = rng.choice([1, 2, 3, 4, 6])
            if reuse and k != "fit":
                k, n = rng.choice([k, "predict"]), rng.choice([n, 4, 4])
            if k == "fit":
                ops.append([k, s, rng.randrange(10**6), n, rng.choice(["y", "y", "y", "none"]), f])
            elif k in ("predict", "posterior", "proba", "prior"):
                ops.append([k, s, rng.randrange(10**6), n, rng.random() < 0.5, rng.random() < 0.5, rng.choice(["frame", "frame", "array"]), f])
            else:
                ops.append([k, s, rng.randrange(10**6)])
        return dict(cls=cls, noise=noise, reuse=reuse, ncol=rng.choice([1, 2, 3]) if cls == "MultiSharp" else 1, ops=[["fit", 0, rng.randrange(10**6), 4, "y", None]] * (rng.random() < 0.8) + ops,
                    hash_seed=rng.randrange(1000))

    def execute(self, case, ctx):
        d = tempfile.mkdtemp(prefix="dst-b03-")
        try:
            with quiet(), W.StubMCMC(case["noise"]) as st:
                self.run(case, ctx, d, st)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    # closed forms -------------------------------------------------------------------------
    @staticmethod
    def mean_law(cls, par, X):
        """Noise-free output for every draw: array (*draws, n)."""
        x = np.asarray(X, float)
        if cls == "Sharp":
            return par["intercept"][..., None] + par["slope"][..., None] * x.ravel()
        return par["w"] @ x.T

    def xdata(self, case, seed, n):
        r = np.random.default_rng(seed)
        cols = ["input"] if case["cls"] == "Sharp" else ["c", "a", "b"][:case["ncol"]]
        return pd.DataFrame({c: r.normal(size=n) for c in cols}), r.normal(size=n)

    def replica(self, cls, ref):
        q = W.CLASSES[cls](model_config=ref.cfg)
        q.build_model(ref.X, ref.y)
        q.idata = az.from_dict(posterior=ref.post)
        return q

    def run(self, case, ctx, d, st):
        cls, noise = case["cls"], case["noise"]
        C = W.CLASSES[cls]
        out_name = C().output_var
        models, refs, prev, frames = {}, {}, {}, {}
        tol = dict(rtol=1e-5, atol=1e-5)

        def verify(s, why):
            m, ref = models[s], refs[s]
            if ref.post is None:
                ctx.check(m.idata is None or "posterior" not in m.idata, "results-without-fit", why)
                return
            got = posterior_of(m.idata)
            ctx.check(set(got) == set(ref.post) and all(np.array_equal(got[k], ref.post[k]) for k in got), "posterior-changed", why)
            fd = m.idata.fit_data.to_dataframe()
            ctx.check(np.array_equal(fd[out_name].values, ref.y) and np.array_equal(fd.drop(columns=[out_name])[list(ref.X.columns)].values, ref.X.values), "fit-data-changed", why)
            od = m.idata.observed_data[out_name].values
            ctx.check(np.array_equal(od, ref.y), "observed-data-changed", lambda: f"{why}: {od.tolist()} instead of {ref.y.tolist()}")

        def snapshot(m):
            return None if m.idata is None else W.digest(m.idata)

        for op in case["ops"]:
            kind, s, seed = op[:3]
            if s not in models:
                models[s], refs[s] = C(), Ref()
            m, ref = models[s], refs[s]
            others = {o: snapshot(q) for o, q in models.items() if o != s}
            fault = op[-1] if isinstance(op[-1], list) else None
            out = "ok"
            before = snapshot(m)
            it = InterruptAt(fault[1] if fault and fault[0] == "interrupt" else 10**9, KeyboardInterrupt, only=("model_builder", "linearmodel"))
            if kind == "fit":
                X, y = self.xdata(case, seed, op[3])
                if op[4] == "none":
                    y = None
                if fault and fault[0] == "sampler":
                    st.fail = Boom("sampler failed (injected)")
                    ctx.fault("sampler-failure")
                Xa = X.copy()
                if fault and fault[0] == "data":
                    y = np.zeros(len(X) + 1)
                    ctx.fault("refused-data")
                yw = np.zeros(len(X)) if y is None else y
                try:
                    if fault and fault[0] == "interrupt":
                        with it:
                            res = m.fit(X, y, progressbar=False, random_seed=seed)
                    else:
                        res = m.fit(X, y, progressbar=False, random_seed=seed)
                    ctx.check(not fault or fault[0] == "interrupt", "failed-fit-accepted", f"{fault}")
                    new = Ref()
                    new.post, new.X, new.y, new.cfg = posterior_of(res), X, yw, m.model_config
                    refs[s] = new
                except (KeyboardInterrupt, Boom, ValueError) as e:
                    if not fault:
                        raise
                    out = type(e).__name__
                finally:
                    st.fail = None
                ctx.check(X.equals(Xa), "data-modified", "fit")
                if it.fired:
                    ctx.fault("interrupt")
                    if out == "ok":
                        out = "interrupt-late"
                # an interrupt in the last line may hit after everything is in place: then the new fit counts, whole
                if out == "KeyboardInterrupt" and snapshot(m) != before:
                    X_, y_ = X, yw
                    new = Ref()
                    ctx.check("fit_data" in m.idata.groups() and "posterior" in m.idata.groups(), "half-finished-fit", f"interrupted at {it.fired}: groups {m.idata.groups()}")
                    new.post, new.X, new.y, new.cfg = posterior_of(m.idata), X_, y_, m.model_config
                    refs[s] = new
                if out == "ok" and not fault:
                    q = C(model_config=m.model_config)
                    q.fit(X, y, progressbar=False, random_seed=seed)
                    ctx.check(W.digest(q.idata) == W.digest(m.idata), "fit-depends-on-history", lambda: f"same data and seed, other results in groups "
                              f"{[g for g in q.idata.groups() if not q.idata[g].equals(m.idata[g])]}")
            elif kind in ("predict", "posterior", "proba"):
                X, _ = self.xdata(case, seed, op[3])
                if case.get("reuse") and seed % 3:  # the caller keeps one frame per size and predicts for it again, sometimes with new numbers in it
                    old = frames.setdefault(len(X), X)
                    if seed % 3 == 2:
                        old.iloc[:, :] = X.values
                    X = old
                extend, combined = op[4], op[5]
                arg = X if op[6] == "frame" else X.values
                Xa = X.copy()
                call = {"predict": lambda q, ext: q.predict(arg, extend_idata=ext, random_seed=seed, progressbar=False),
                        "posterior": lambda q, ext: q.predict_posterior(arg, extend_idata=ext, combined=combined, random_seed=seed, progressbar=False),
                        "proba": lambda q, ext: q.predict_proba(arg, extend_idata=ext, combined=combined, random_seed=seed, progressbar=False)}[kind]
                try:
                    if fault:
                        with it:
                            res = call(m, extend)
                    else:
                        res = call(m, extend)
                except KeyboardInterrupt:
                    out = "interrupted"
                except Exception:
                    if ref.post is not None:
                        raise
                    out = "unfitted"
                if it.fired:
                    ctx.fault("interrupt")
                ctx.check(X.equals(Xa), "data-modified", kind)
                if out == "ok":
                    ctx.check(ref.post is not None, "prediction-without-fit", "")
                    v = np.asarray(res)
                    law = self.mean_law(cls, ref.post, X)
                    ch, dr = law.shape[:2]
                    want = law.mean((0, 1)) if kind == "predict" else law.reshape(ch * dr, -1).T if combined else law
                    ctx.check(v.shape == want.shape, "prediction-shape", f"{kind} {v.shape} vs {want.shape}")
                    if kind != "predict" and combined:
                        order = np.lexsort((res["draw"].values, res["chain"].values))
                        v = v[:, order] if v.shape[1] == len(order) else v
                    if noise < 1e-6:
                        ctx.check(np.allclose(v, want, **tol), "wrong-prediction", lambda: f"{kind}: {v.tolist()} vs closed form {want.tolist()}")
                    else:
                        sd = np.abs(ref.post["σ_model_fmc" if cls == "Sharp" else "s"])
                        ctx.check(bool(np.all(np.abs(v - want) < 8 * max(sd.max(), 1e-6))), "wrong-prediction", lambda: f"{kind}: {v.tolist()} vs {want.tolist()}")
                    fresh = np.asarray(call(self.replica(cls, ref), False))
                    ctx.check(np.array_equal(np.asarray(res), fresh), "prediction-depends-on-history",
                              lambda: f"{kind} gives {np.asarray(res).tolist()}; a fresh model with the same fit and seed gives {fresh.tolist()}")
                    if extend:
                        pp = m.idata.posterior_predictive[out_name].values
                        ctx.check(pp.shape[2] == len(X) and np.allclose(pp.mean((0, 1)) if kind == "predict" else np.sort(pp.ravel()), v if kind == "predict" else np.sort(v.ravel())),
                                  "stored-prediction-differs", kind)
                    else:
                        ctx.check(snapshot(m) == before, "results-changed-without-extend", kind)
                    ctx.log(kind, np.round(np.asarray(res, float), 6).tolist())
                elif not extend:
                    ctx.check(snapshot(m) == before, "results-changed-by-failed-call", f"{kind} {out}")
            elif kind == "prior":
                X, y = self.xdata(case, seed, op[3])
                extend, combined = op[4], op[5]
                call = lambda q, ext: q.sample_prior_predictive(X, samples=5, extend_idata=ext, combined=combined, random_seed=seed)
                try:
                    if fault:
                        with it:
                            res = call(m, extend)
                    else:
                        res = call(m, extend)
                except KeyboardInterrupt:
                    out = "interrupted"
                if it.fired:
                    ctx.fault("interrupt")
                if out == "ok":
                    v = np.asarray(res[out_name])
                    cfg = m.model_config if m.model is None or ref.cfg is None else ref.cfg
                    x = np.asarray(X, float)
                    law = cfg["intercept"]["loc"] + cfg["slope"]["loc"] * x.ravel() if cls == "Sharp" else cfg["w"]["loc"] * x.sum(1)
                    v2 = v.T if combined else v.reshape(-1, v.shape[-1])
                    ctx.check(v2.shape == (5, len(X)), "prediction-shape", f"prior {v.shape}")
                    if not getattr(m, "_stale_cfg", False):
                        ctx.check(np.allclose(v2, law, **tol), "wrong-prior-prediction", lambda: f"{v2.tolist()} vs {law.tolist()}")
                    if extend:
                        ctx.check(m.idata.prior_predictive[out_name].shape == (1, 5, len(X)), "stored-prediction-differs", "prior")
                    else:
                        ctx.check(snapshot(m) == before, "results-changed-without-extend", kind)
                    ctx.log(kind, np.round(v, 6).tolist())
                elif not extend:
                    ctx.check(snapshot(m) == before, "results-changed-by-failed-call", f"{kind} {out}")
            elif kind == "bad_predict":
                X, _ = self.xdata(case, seed, 3)
                bad = X.copy()
                bad.iloc[1, 0] = np.nan
                ctx.fault("refused-data")
                for call in (lambda: m.predict_posterior(bad, extend_idata=True), lambda: m.predict_posterior(X.iloc[:0], extend_idata=True),
                             lambda: m.predict(X.astype(str) + "x", extend_idata=True)):
                    try:
                        call()
                        ctx.check(False, "bad-data-accepted", f"{kind}")
                    except (ValueError, TypeError, AttributeError, AssertionError):
                        pass
                ctx.check(snapshot(m) == before, "results-changed-by-failed-call", kind)
                out = "refused"
            elif kind == "set_params":
                if ref.post is None and m.model is None:
                    r = np.random.default_rng(seed)
                    cfg = C.get_default_model_config()
                    for k in cfg:
                        if isinstance(cfg[k], dict):
                            cfg[k]["loc"] = float(np.round(r.normal(), 3))
                    p = m.get_params()
                    m.set_params(**{**p, "model_config": cfg})
                    ctx.check(m.get_params()["model_config"] == cfg and m.get_params()["sampler_config"] == p["sampler_config"], "set-params", "")
                else:
                    p = m.get_params()
                    m.set_params(**p)
                    ctx.check(snapshot(m) == before, "results-changed-by-failed-call", kind)
            elif kind == "save_load":
                f = os.path.join(d, f"m{s}.nc")
                try:
                    m.save(f)
                    l = C.load(f)
                    ctx.check(W.digest(l.idata) == before, "loaded-results-differ", "")
                    ctx.check(ref.post is not None, "unfitted-save-accepted", "")
                    models[s] = l
                except RuntimeError:
                    ctx.check(ref.post is None, "fitted-model-not-saved", "")
                    out = "refused"
            verify(s, f"after {op} ({out})")
            for o, dg in others.items():
                ctx.check(snapshot(models[o]) == dg, "other-model-changed", f"{op} on model {s} changed model {o}")
            ctx.state(cls, prev.get(s), kind, out, bool(fault))
            prev[s] = kind
            ctx.log(op, out, it.fired)
        for s, ref in refs.items():
            if ref.post is not None:
                X, _ = self.xdata(case, 1, 3)
                v = models[s].predict(X, extend_idata=False, random_seed=1, progressbar=False)
                fresh = self.replica(cls, ref).predict(X, extend_idata=False, random_seed=1, progressbar=False)
                ctx.check(np.array_equal(v, fresh), "prediction-depends-on-history", f"at the end: {v} vs {fresh}")
                verify(s, "end")

    def simpler(self, case):
        for i, op in enumerate(case["ops"]):
            if isinstance(op[-1], list):
                yield {**case, "ops": case["ops"][:i] + [[*op[:-1], None]] + case["ops"][i + 1:]}
        if case.get("reuse"):
            yield {**case, "reuse": False}
        if case["noise"] > 1e-6:
            yield {**case, "noise": 1e-9}
        if case["ncol"] > 1:
            yield {**case, "ncol": 1}


SCENARIOS = [Lifecycle()]
