"""M02: recovered marginals are the exact conditional distribution, for every posterior draw."""
import numpy as np

from ..core import Scenario
from ..seams import quiet

PLAN = {
    "quick": [("recover", 110)],
    "thorough": [("recover", 12000)],
}
META = {
    "level": "exploration",
    "min_events": 3,
    "rule": "One run builds a seeded hierarchical model, marginalizes a seeded subset of its discrete variables, and recovers them from a posterior "
            "whose parameter values and still-present discrete variables differ per draw, under seeded iteration order and several random streams; "
            "recovered log probabilities are compared draw by draw with full enumeration, sampled values with those probabilities, and the inference "
            "data before and after with each other.",
    "states": "distinct (variable kinds and ranks, marginalized set, recovered set, options) reached",
    "real": ["MarginalModel.recover_marginals"],
    "stub": ["posterior draws (seeded parameter values instead of MCMC)"],
    "assumptions": ["pm.Model.logp of the unmarginalized model is right"],
}


def setup():
    from .. import margworld

    import arviz as az
    import pymc as pm
    from pymc_extras.model.marginal.marginal_model import MarginalModel

    globals().update(W=margworld, pm=pm, az=az, MarginalModel=MarginalModel)


class Recover(Scenario):
    name = "recover"

    def generate(self, rng, tier):
        while True:
            spec = W.gen_spec(rng, hostile=False, chains=rng.random() < 0.3)
            if spec["nconf"] <= 200:
                break
        names = [d["name"] for d in spec["disc"]]
        gone = sorted(rng.sample(names, rng.randint(1, len(names))))
        rec = rng.choice([None, sorted(rng.sample(gone, rng.randint(1, len(gone))))])
        return dict(spec=spec, gone=gone, rec=rec, draws=rng.choice([1, 3]), chains=rng.choice([1, 2]), hash_seed=rng.randrange(10**6), pseed=rng.randrange(10**6),
                    rseed=rng.randrange(10**6), samples=rng.random() < 0.75, extend=rng.random() < 0.5, asvars=rng.random() < 0.3,
                    order=rng.random() < 0.5, ops=[])

    def execute(self, case, ctx):
        with quiet():
            self._run(case, ctx)

    def _run(self, case, ctx):
        spec = case["spec"]
        names = [d["name"] for d in spec["disc"]]
        by = {d["name"]: d for d in spec["disc"]}
        m = W.build(spec)
        try:
            m.marginalize(case["gone"])
        except (NotImplementedError, ValueError):
            ctx.fault("refused-marginalization")
            ctx.log("refused")
            return
        C, D = case["chains"], case["draws"]
        # posterior draws: untransformed values of the free variables, different in every draw
        tabs, vals = {}, {}
        post = {}
        inv = None
        for c in range(C):
            for d in range(D):
                s = case["pseed"] + 97 * (c * D + d)
                tabs[c, d] = W.Table(spec, s)
                vals[c, d] = W.disc_values(spec, s)
        free = [rv for rv in m.free_RVs]
        if free:
            inv = m.compile_fn(m.replace_rvs_by_values(m.unobserved_value_vars and [rv for rv in free]), inputs=[m.rvs_to_values[rv] for rv in free],
                               mode="FAST_COMPILE", on_unused_input="ignore")
        for rv in free:
            post[rv.name] = None
        rows = {rv.name: [] for rv in free}
        for c in range(C):
            for d in range(D):
                pt_ = dict(tabs[c, d].point)
                pt_.update({n: vals[c, d][n] for n in names if n not in case["gone"]})
                out = inv({m.rvs_to_values[rv].name: pt_[m.rvs_to_values[rv].name] for rv in free}) if free else []
                for rv, o in zip(free, out):
                    rows[rv.name].append(np.asarray(o))
        post = {k: np.array(v).reshape(C, D, *np.shape(v[0])) for k, v in rows.items()}
        if not post:
            # a model without any other parameter: the posterior group still has draws, of something else
            return ctx.log("no-parameters")
        post["not_in_model"] = np.zeros((C, D))
        idata = az.from_dict(posterior=post)
        before = {k: idata.posterior[k].values.copy() for k in idata.posterior}
        rec = case["rec"]
        arg = rec
        if rec is not None and case["asvars"]:
            arg = [v for v in m.marginalized_rvs if v.name in rec]
        if rec is not None and case["order"]:
            arg = arg[::-1]
        call = lambda idt, seed, ext=case["extend"]: m.recover_marginals(idt, var_names=arg, return_samples=case["samples"], extend_inferencedata=ext, random_seed=seed)
        want = rec if rec is not None else list(case["gone"])
        try:
            m.recover_marginals(idata, var_names=[*want, "nobody"], extend_inferencedata=True)
            ctx.check(False, "unknown-name-accepted", "recover_marginals ignored an unknown name")
        except (ValueError, KeyError):
            ctx.fault("unknown-name")
        ctx.check(set(idata.posterior) == set(before), "idata-changed-by-refused-call", "")
        hard = [n for n in want if by[n]["k"] == "dmc"]
        try:
            res = call(idata, case["rseed"])
        except NotImplementedError as e:
            ctx.fault("refused-recovery")
            ctx.log("refused", str(e)[:50])
            ctx.check(all(np.array_equal(idata.posterior[k].values, before[k]) for k in before) and set(idata.posterior) == set(before), "idata-changed-by-refused-call", "")
            ctx.check(bool(hard) or "Univariate transform" in str(e) or self.correlated(spec, case["gone"], want), "refused-supported-recovery", str(e))
            return
        ctx.check(not hard, "recovered-unsupported", f"{hard}")
        ds = res.posterior if case["extend"] else res
        ctx.check((res is idata) if case["extend"] else set(idata.posterior) == set(before), "extend-option", "")
        for k in before:
            ctx.check(np.array_equal(idata.posterior[k].values, before[k]), "posterior-changed", k)
        got_names = {k for k in ds if k not in before}
        exp_names = {"lp_" + n for n in want} | (set(want) if case["samples"] else set())
        ctx.check(got_names == exp_names, "recovered-variables", f"{got_names} vs {exp_names}")
        for n in want:
            d0 = by[n]
            lp = ds["lp_" + n].values
            ctx.check(lp.shape == (C, D, *d0["shape"], d0["K"]), "recovered-shape", f"{n}: {lp.shape}")
            if d0["dims"] and d0["shape"]:
                ctx.check(ds["lp_" + n].dims[2:-1] == tuple(f"{n}_dim{a}" for a in range(len(d0["shape"]))), "recovered-dims", f"{ds['lp_' + n].dims}")
            others = [g for g in case["gone"] if g != n]
            for c in range(C):
                for d in range(D):
                    ref = tabs[c, d].element_posterior(n, set(others), vals[c, d])
                    ctx.check(np.allclose(np.maximum(lp[c, d], -600), np.maximum(ref, -600), rtol=1e-6, atol=1e-6), "recovered-probability",
                              lambda: f"{n} with {others} summed out, draw {(c, d)}: log {lp[c, d].round(4).tolist()} vs enumeration {ref.round(4).tolist()}")
            ctx.log(n, np.round(lp, 5).tolist())
            if case["samples"]:
                x = ds[n].values
                ctx.check(x.shape == (C, D, *d0["shape"]), "recovered-shape", f"{n}: {x.shape}")
                ctx.check(bool(np.all((x >= d0["lo"]) & (x < d0["lo"] + d0["K"]))), "recovered-support", f"{n}: {x}")
        ctx.state(tuple(sorted((d["k"], len(d["shape"])) for d in spec["disc"])), tuple(case["gone"]), tuple(want), case["samples"], case["extend"])
        if case["samples"]:
            again = call(az.from_dict(posterior={**post}), case["rseed"], False)
            for n in want:
                ctx.check(np.array_equal(again[n].values, ds[n].values), "seed-not-reproducible", n)
            ctx.fault("generator-stream", 2)
            # sampling law: replicate one draw many times
            R = 300
            big = az.from_dict(posterior={k: np.repeat(v[:1, :1], R, axis=1) for k, v in post.items()})
            out = call(big, case["rseed"] + 1, False)
            joint = {}
            for n in want:
                d0 = by[n]
                p = np.exp(ds["lp_" + n].values[0, 0])
                x = out[n].values[0]
                for k in range(d0["K"]):
                    f = (x == d0["lo"] + k).mean(0)
                    q = p[..., k]
                    ctx.check(bool(np.all(np.abs(f - q) <= 7 * np.sqrt(q * (1 - q) / R) + 8 / R)), "recovered-sample-law",
                              lambda: f"{n}={d0['lo'] + k}: frequencies {f.tolist()} vs {q.tolist()} in {R} draws")
                joint[n] = x.reshape(R, -1)
            cols = np.concatenate([joint[n] for n in want], 1).astype(float)
            sd = cols.std(0)
            ok = sd > 0.2
            if ok.sum() > 1:
                # each element is drawn on its own
                Cm = np.corrcoef(cols[:, ok].T)
                off = np.abs(Cm - np.eye(ok.sum()))
                ctx.check(bool(np.all(off < 7 / np.sqrt(R) + 0.05)), "recovered-draws-dependent", lambda: f"correlation {off.max():.2f} between recovered elements")

    @staticmethod
    def correlated(spec, gone, want):
        """Elements of a batched variable tied together by another variable that is still marginalized."""
        by = {d["name"]: d for d in spec["disc"]}
        return any(by[n]["shape"] for n in want) or len(gone) > 1

    def simpler(self, case):
        s = case["spec"]
        if case["draws"] * case["chains"] > 1:
            yield {**case, "draws": 1, "chains": 1}
        for i in range(len(s["deps"])):
            yield {**case, "spec": {**s, "deps": s["deps"][:i] + s["deps"][i + 1:]}}
        for i, y in enumerate(s["deps"]):
            for k, v in (("left", 0), ("right", 0), ("table", False), ("scale_dep", False), ("dist", "normal"), ("obs", True)):
                if y[k] != v:
                    yield {**case, "spec": {**s, "deps": s["deps"][:i] + [{**y, k: v}] + s["deps"][i + 1:]}}


SCENARIOS = [Recover()]
