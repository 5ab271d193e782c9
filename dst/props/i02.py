"""I02: the Laplace approximation is the Gaussian at the mode, and its draws follow it."""
import numpy as np

from ..core import Scenario
from ..seams import quiet

PLAN = {
    "quick": [("laplace", 72), ("bad-curvature", 40)],
    "thorough": [("laplace", 9000), ("bad-curvature", 4000)],
}
META = {
    "level": "exploration",
    "min_events": 2,
    "rule": "One run fits a Laplace approximation to a model of seeded blocks with closed-form mode and curvature (any declaration order, shapes, dims, transforms, "
            "chains, draws, space, backend, set iteration order, random stream), or asks for one at a point where the curvature is degenerate or has the wrong sign.",
    "states": "distinct (block kinds, space, options) reached",
    "real": ["pymc_extras.inference.laplace", "pymc_extras.inference.find_map", "better_optimize", "pm.compute_deterministics"],
    "stub": [],
    "assumptions": [],
}


def setup():
    from .. import infworld

    import pymc as pm
    import pymc_extras as pmx
    from pymc.blocking import DictToArrayBijection
    from pymc_extras.inference import laplace as lp

    globals().update(W=infworld, pm=pm, lp=lp, pmx=pmx, Bij=DictToArrayBijection)


class Laplace(Scenario):
    name = "laplace"

    def generate(self, rng, tier):
        un = rng.random() < 0.4
        entry = rng.choice(["fit_laplace", "fit", "parts"])
        if entry == "parts" and rng.random() < 0.6:  # nothing to search for: parameters may differ in size by orders of magnitude
            spec = W.gen_spec(rng, ("normal", "normal", "normal", "gamma", "regress"), 2, 3)
            units = rng.sample([0.003, 1000.0, 1.0], 3)
            for b in spec["blocks"]:
                if b["k"] == "normal":
                    b["unit"] = units.pop()
        else:
            spec = W.gen_spec(rng, hi=3)
        return dict(spec=spec, un=un, before=any(b.get("data") for b in spec["blocks"]) and rng.random() < 0.3, chains=rng.choice([1, 2, 2, 3]), draws=rng.choice([1, 7, 300, 300, 300]), backend=rng.choice(["pytensor", "pytensor", "jax"]),
                    method=rng.choice(["BFGS", "trust-ncg", "L-BFGS-B", "trust-exact"]), context=rng.random() < 0.5, entry=entry,
                    raw=rng.random() < 0.25, include=rng.random() < 0.6, kw=rng.choice([None, {}]), rseed=rng.randrange(10**6), hash_seed=rng.randrange(10**6), ops=[])

    def execute(self, case, ctx):
        with quiet():
            self._run(case, ctx)

    def _run(self, case, ctx):
        world = W.World(case["spec"])
        m = world.model
        fp = world.fingerprint()
        un = case["un"]
        kw = None if case["kw"] is None else dict(case["kw"])
        C, D = case["chains"], case["draws"]

        def call(seed, draws=D):
            args = dict(chains=C, draws=draws, random_seed=seed, progressbar=False, gradient_backend=case["backend"], compile_kwargs=kw,
                        fit_in_unconstrained_space=un, include_transformed=case["include"], return_raw=case["raw"])
            import contextlib

            with m if case["context"] else contextlib.nullcontext():
                mm = {} if case["context"] else {"model": m}
                if case["entry"] == "parts":
                    pt_ = {n: world.mode[n] for n in world.names}
                    pt_.update({world.value_name(n): world.umode[n] for n in world.names})
                    mu, H = lp.fit_mvn_to_MAP(pt_, transform_samples=un, gradient_backend=case["backend"], compile_kwargs=kw, **mm)
                    return lp.sample_laplace_posterior(mu, H, chains=C, draws=draws, transform_samples=un, progressbar=False, random_seed=seed, compile_kwargs=kw, **mm)
                if case["entry"] == "fit":
                    return pmx.fit("laplace", optimize_method=case["method"], **args, **mm)
                return lp.fit_laplace(case["method"], **args, **mm)

        if case.get("before"):
            call(case["rseed"])
            world.redata(case["rseed"])
            ctx.fault("data-replaced")
        g0 = np.random.get_state()[1].copy()
        res = call(case["rseed"])
        ctx.check(np.array_equal(np.random.get_state()[1], g0), "global-rng-used", "")
        ctx.fault("generator-stream")
        raw = case["raw"] and case["entry"] != "parts"
        ctx.check(isinstance(res, tuple) == raw, "return-raw", f"{type(res)}")
        idata = res[0] if raw else res
        ctx.check(world.fingerprint() == fp, "model-changed", "")
        ctx.check(kw == case["kw"], "arguments-changed", f"compile_kwargs {kw}")
        # the Gaussian
        mean, cov, labels = world.full(un)
        rows = [str(x) for x in idata.fit.rows.values]
        ctx.check(sorted(rows) == sorted(labels) and [str(x) for x in idata.fit.columns.values] == rows, "fit-labels", lambda: f"{rows} vs {labels}")
        perm = [labels.index(x) for x in rows]
        gm, gc = idata.fit.mean_vector.values, idata.fit.covariance_matrix.values
        sc = np.sqrt(np.diag(cov))[perm]
        ctx.check(np.allclose(gm / sc, mean[perm] / sc, rtol=0.01, atol=0.02), "fit-mean", lambda: f"{dict(zip(rows, gm.round(4)))} vs {mean[perm].round(4)}")
        ctx.check(np.allclose(gc / np.outer(sc, sc), cov[np.ix_(perm, perm)] / np.outer(sc, sc), rtol=0.03, atol=0.03), "fit-covariance",
                  lambda: f"rows {rows}: {gc.round(4).tolist()} vs closed form {cov[np.ix_(perm, perm)].round(4).tolist()}")
        # the draws
        want_vars = set(world.names) | set(world.dets)
        ctx.check(set(idata.posterior.data_vars) == want_vars, "posterior-variables", f"{sorted(idata.posterior.data_vars)} vs {sorted(want_vars)}")
        cols = []
        for n in world.names:
            v = idata.posterior[n]
            sh = world.mode[n].shape
            ctx.check(v.shape == (C, D, *sh) and v.dims[:2] == ("chain", "draw"), "posterior-shape", f"{n}: {v.dims} {v.shape}")
            if n in world.dims:
                ctx.check(v.dims[2:] == world.dims[n] and all(list(v[d].values) == world.coords[d] for d in world.dims[n]), "posterior-dims", f"{n}: {v.dims}")
            x = v.values
            if un and n in world.support:
                lo, hi = world.support[n]
                ctx.check(bool(np.all((x >= lo) & (x <= hi))), "posterior-support", f"{n}")
            with np.errstate(all="ignore"):
                cols.append((world.forward(n, x) if un else x).reshape(C, D, -1))
        for d, n in world.dets.items():
            ctx.check(np.allclose(idata.posterior[d].values, 2 * idata.posterior[n].values + 1), "deterministic-mismatch", f"{d}")
        for b in case["spec"]["blocks"]:
            if b["k"] in ("normal", "gamma", "beta", "uniform", "regress"):
                p = next(q for q in world.P if q["blk"] is b)
                ctx.check(np.array_equal(idata.observed_data["y_" + b["name"]].values, p["y"]), "observed-data", "")
            if b["k"] == "regress":
                p = next(q for q in world.P if q["blk"] is b)
                ctx.check(np.array_equal(idata.constant_data["x_" + b["name"]].values, p["x"]), "constant-data", "")
        Z = np.concatenate(cols, -1)
        ctx.log(labels, np.round(gm, 4).tolist(), np.round(Z[:, :2], 5).tolist())
        # whiten with the closed form: standard normal if the draws follow the approximation
        L = np.linalg.cholesky(cov)
        S = np.linalg.solve(L, (Z.reshape(C * D, -1) - mean).T).T
        ok = np.isfinite(S).all()
        ctx.check(bool(ok), "posterior-not-finite", "")
        N = C * D
        bias = 0.02 * np.sqrt(np.diag(np.linalg.inv(cov))).max()
        if N >= 200:
            ctx.check(bool(np.all(np.abs(S.mean(0)) < 7 / np.sqrt(N) + bias)), "posterior-mean", lambda: f"whitened means {S.mean(0).round(3).tolist()} over {N} draws")
            E = S.T @ S / N - np.eye(S.shape[1])
            ctx.check(bool(np.all(np.abs(E) < 7 * np.sqrt(2 / N) + 0.05 + bias)), "posterior-covariance", lambda: f"whitened second moments off by {np.abs(E).max():.3f} over {N} draws; rows {labels}")
            # each draw and each chain is drawn on its own
            S3 = S.reshape(C, D, -1)
            lag = np.abs((S3[:, 1:] * S3[:, :-1]).mean((0, 1))).max()
            ctx.check(lag < 7 / np.sqrt(N) + bias, "draws-dependent", f"lag-1 correlation {lag:.2f}")
            if C > 1:
                x = np.abs((S3[0] * S3[1]).mean(0)).max()
                ctx.check(x < 7 / np.sqrt(D) + bias, "chains-dependent", f"correlation between chains {x:.2f}")
        else:
            ctx.check(bool(np.all(np.abs(S) < 9 + bias)), "posterior-mean", lambda: f"draws {S.tolist()} standard deviations from the mode")
        ctx.state(tuple(sorted((b["k"], len(b["shape"])) for b in case["spec"]["blocks"])), un, case["entry"], case["backend"], C > 1, D > 1)
        if case["rseed"] % 3 == 0:
            again = call(case["rseed"])
            again = again[0] if raw else again
            ctx.check(all(np.allclose(again.posterior[n].values, idata.posterior[n].values, rtol=1e-6, atol=1e-8) for n in world.names), "seed-not-reproducible", "")
            other = call(case["rseed"] + 1)
            other = other[0] if raw else other
            ctx.check(any(not np.allclose(other.posterior[n].values, idata.posterior[n].values) for n in world.names), "seed-ignored", "two seeds give the same draws")

    def simpler(self, case):
        for k, v in (("raw", False), ("before", False), ("context", True), ("backend", "pytensor"), ("kw", None), ("un", False), ("chains", 2), ("draws", 300), ("entry", "fit_laplace"), ("include", True)):
            if case[k] != v:
                yield {**case, k: v}
        s = case["spec"]
        for i in range(len(s["blocks"])):
            if len(s["blocks"]) > 1:
                order = [[a - (a > i), j] for a, j in s["order"] if a != i]
                yield {**case, "spec": {"blocks": s["blocks"][:i] + s["blocks"][i + 1:], "order": order}}


class BadCurvature(Scenario):
    name = "bad-curvature"

    def generate(self, rng, tier):
        d = rng.randint(1, 4)
        # at least some curvature: a flat density has no Hessian to speak of
        eig = [rng.choice([-2.0, -0.5, 0.5, 1.0])] + [rng.choice([-2.0, -0.5, 0.0, 0.5, 1.0, 1.0, 3.0]) for _ in range(d - 1)]
        return dict(eig=eig, rot=rng.randrange(10**6) if rng.random() < 0.7 else None, split=rng.randint(0, d - 1),
                    mode=rng.choice(["ignore", "warn", "error"]), jitter=rng.choice([None, 1e-8, 1e-3]), rseed=rng.randrange(10**6), hash_seed=rng.randrange(10**6), ops=[])

    def execute(self, case, ctx):
        with quiet():
            self._run(case, ctx)

    def _run(self, case, ctx):
        w = np.array(case["eig"])
        d = len(w)
        r = np.random.default_rng(case["rot"])
        Q = np.linalg.qr(r.normal(size=(d, d)))[0] if case["rot"] is not None else np.eye(d)
        A = Q @ np.diag(w) @ Q.T
        A = (A + A.T) / 2
        k = case["split"]
        import pytensor.tensor as pt

        with pm.Model() as m:
            xs = []
            if k:
                xs.append(pm.Flat("p", shape=(k,)))
            xs.append(pm.Flat("q", shape=(d - k,)))
            x = pt.concatenate(xs)
            pm.Potential("pot", -0.5 * x @ pt.as_tensor(A) @ x)
        x0 = r.normal(size=d) * 0.3
        point = {"q": x0[k:]}
        if k:
            point["p"] = x0[:k]
        # reference: pseudo-inverse, jitter, clip negative eigenvalues
        inv = Q @ np.diag([1 / e if abs(e) > 1e-6 else 0.0 for e in w]) @ Q.T
        if case["jitter"] is not None:
            inv = inv + np.eye(d) * case["jitter"]
        ev = np.linalg.eigvalsh(inv)
        bad = ev.min() < -1e-6
        semi = abs(ev.min()) <= 1e-6 and case["jitter"] != 1e-3
        ctx.fault("wrong-sign-curvature" if bad else "flat-curvature" if semi else "none")
        try:
            mu, H = lp.fit_mvn_to_MAP(point, model=m, on_bad_cov=case["mode"], diag_jitter=case["jitter"], zero_tol=1e-12)
            out = "ok"
        except np.linalg.LinAlgError:
            out = "error"
        if case["mode"] == "error":
            ctx.check(out == "error" if bad else (semi or out == "ok"), "bad-covariance-accepted", f"eigenvalues {ev.tolist()}: {out}")
        else:
            ctx.check(out == "ok", "bad-covariance-raised", f"on_bad_cov={case['mode']}")
        ctx.state(tuple(sorted(case["eig"])), case["mode"], out)
        ctx.log(out, case["eig"])
        if out == "error":
            return
        ctx.check(np.allclose(mu.data, x0), "fit-mean", "")
        e, V = np.linalg.eigh(inv)
        ref = V @ np.diag(np.clip(e, 0, None)) @ V.T
        ctx.check(np.allclose(H, ref, rtol=1e-5, atol=1e-6), "fit-covariance", lambda: f"{H.tolist()} vs nearest positive semi-definite {ref.tolist()}; eigenvalues of the curvature {w.tolist()}")
        R = 300
        idata = lp.sample_laplace_posterior(mu, H, model=m, chains=2, draws=R // 2, progressbar=False, random_seed=case["rseed"])
        Z = np.concatenate(([idata.posterior["p"].values] if k else []) + [idata.posterior["q"].values], -1).reshape(R, d) - x0
        sd = np.sqrt(np.diag(ref)) + 1e-4
        E = np.abs(Z.T @ Z / R - ref) / np.outer(sd, sd)
        ctx.check(bool(np.all(E < 7 * np.sqrt(2 / R) + 0.02)), "posterior-covariance", lambda: f"{(Z.T @ Z / R).tolist()} vs {ref.tolist()}")
        ctx.log(np.round(Z[:2], 5).tolist())


SCENARIOS = [Laplace(), BadCurvature()]
