"""D01: random draws of every distribution follow the density the model uses for it."""
import numpy as np

from ..core import Scenario
from ..seams import quiet

PLAN = {
    "quick": [("law", 130), ("extreme-stream", 60), ("r2d2", 40)],
    "thorough": [("law", 20000), ("extreme-stream", 8000), ("r2d2", 6000)],
}
META = {
    "level": "exploration",
    "min_events": 2,
    "rule": "One run draws from a distribution of the library with seeded parameters (scalars, batches, broadcasting), by .dist or in a model, from a seeded generator or from "
            "one that hands out extreme uniforms, and compares the draws with the distribution function, the model's log density with the closed form, and the "
            "starting point with the support.",
    "states": "distinct (distribution, batch shape, way of drawing, parameter regime) reached",
    "real": ["pymc_extras.distributions", "pm.draw, pm.logp, pm.sample_prior_predictive"],
    "stub": ["numpy Generator with extreme values (extreme-stream)"],
    "assumptions": ["statistical bounds of 7 standard deviations of the binomial law, plus a constant"],
}
MODE = "FAST_COMPILE"


def setup():
    import arviz as az
    import pymc as pm
    import pymc_extras.distributions as D
    import pytensor
    import pytensor.tensor as pt
    import scipy.special as sp
    import scipy.stats as st

    globals().update(az=az, pm=pm, D=D, pytensor=pytensor, pt=pt, sp=sp, st=st)


# references: cdf and log density -----------------------------------------------------------------
class GenExtreme:
    discrete = False

    def gen(self, r):
        return dict(mu=r.normal() * 3, sigma=float(np.exp(r.normal())), xi=float(r.choice([0.0, 0.0, r.uniform(-0.9, 0.9), r.uniform(-0.3, 0.3), 1e-3, -1e-3])))

    def make(self, *a, **k):
        return D.GenExtreme(*a, **k) if a else D.GenExtreme.dist(**k)

    def d(self, mu, sigma, xi):
        return st.genextreme(c=-xi, loc=mu, scale=sigma)

    def cdf(self, x, **p):
        return self.d(**p).cdf(x)

    def lp(self, x, **p):
        return self.d(**p).logpdf(x)

    def outside(self, mu, sigma, xi):
        return [] if abs(xi) < 0.01 else [mu - sigma / xi - np.sign(xi) * sigma * 0.1]


class Chi(GenExtreme):
    def gen(self, r):
        return dict(nu=float(r.choice([1.0, 2.0, 3.0, r.uniform(0.3, 3), r.uniform(3, 40)])))

    def make(self, *a, **k):
        return D.Chi(*a, **k) if a else D.Chi.dist(**k)

    def d(self, nu):
        return st.chi(nu)

    def outside(self, nu):
        return [-0.7]


class Maxwell(GenExtreme):
    def gen(self, r):
        return dict(a=float(np.exp(r.normal())))

    def make(self, *a, **k):
        return D.Maxwell(*a, **k) if a else D.Maxwell.dist(**k)

    def d(self, a):
        return st.maxwell(scale=a)

    def outside(self, a):
        return [-0.7]


class Skellam(GenExtreme):
    discrete = True

    def gen(self, r):
        s = r.choice([1.0, 1.0, 1.0, 20.0, 900.0])
        return dict(mu1=float(s * r.choice([1.0, r.uniform(0.05, 3)])), mu2=float(s * r.choice([1.0, r.uniform(0.05, 3)])) * float(r.random() > 0.1))

    def make(self, *a, **k):
        return D.Skellam(*a, **k) if a else D.Skellam.dist(**k)

    def cdf(self, x, mu1, mu2):
        if mu2 == 0:
            return st.poisson(mu1).cdf(x)
        # sums of the mass: the distribution function of scipy is less exact
        x = np.asarray(x)
        lo, hi = int(mu1 - mu2 - 12 * np.sqrt(mu1 + mu2) - 30), int(mu1 - mu2 + 12 * np.sqrt(mu1 + mu2) + 30)
        k = np.arange(lo, hi + 1)
        c = np.cumsum(np.exp(self.lp(k, mu1, mu2)))
        return np.where(x < lo, 0.0, c[np.clip(x.astype(int) - lo, 0, len(c) - 1)])

    def lp(self, x, mu1, mu2):
        if mu2 == 0:
            return st.poisson(mu1).logpmf(x)
        x = np.asarray(x, float)
        # the sum over the second Poisson variable
        j = np.arange(int(mu1 + mu2 + 14 * np.sqrt(mu1 + mu2) + 60))
        with np.errstate(divide="ignore"):
            k = x[..., None] + j
            t = np.where(k >= 0, k * np.log(mu1) - mu1 - sp.gammaln(np.maximum(k, 0) + 1) + j * np.log(mu2) - mu2 - sp.gammaln(j + 1), -np.inf)
        return sp.logsumexp(t, axis=-1)

    def outside(self, mu1, mu2):
        return [-1] if mu2 == 0 else []


class GeneralizedPoisson(GenExtreme):
    discrete = True

    def gen(self, r):
        mu = float(r.choice([r.uniform(0.2, 1.5), r.uniform(1, 8), r.uniform(8, 60)]))
        lam = float(r.choice([0.0, r.uniform(0, 0.6), r.uniform(0.6, 0.85), -r.random() * min(1.0, mu / 4), -min(1.0, mu / 4)]))
        return dict(mu=mu, lam=lam)

    def make(self, *a, **k):
        return D.GeneralizedPoisson(*a, **k) if a else D.GeneralizedPoisson.dist(**k)

    def table(self, mu, lam):
        k = np.arange(0, int(mu / (1 - lam) + 60 * np.sqrt(mu / (1 - lam) ** 3) + 200))
        return k, np.exp(self.lp(k, mu, lam))

    def cdf(self, x, mu, lam):
        k, p = self.table(mu, lam)
        x = np.asarray(x)
        return np.where(x < 0, 0.0, np.cumsum(p)[np.clip(x.astype(int), 0, len(p) - 1)])

    def lp(self, x, mu, lam):
        x = np.asarray(x, float)
        with np.errstate(all="ignore"):
            t = mu + lam * x
            v = np.log(mu) + (x - 1) * np.log(t) - t - sp.gammaln(x + 1)
            return np.where((x < 0) | (t <= 1e-12 * mu), -np.inf, v)

    def slack(self, mu, lam):
        # below zero the mass is only nearly one, by the definition of the distribution
        return 0.0 if lam >= 0 else 1.2 * abs(1 - self.table(mu, lam)[1].sum())

    def outside(self, mu, lam):
        return [-1] + ([int(np.ceil(-mu / lam)) + 1] if lam < 0 else [])


class BetaNegativeBinomial(GenExtreme):
    discrete = True

    def gen(self, r):
        return dict(alpha=float(r.uniform(1.0, 9)), beta=float(r.uniform(0.3, 6)), r=float(r.choice([1, 2, 7, r.uniform(0.5, 9)])))

    def make(self, *a, **k):
        return D.BetaNegativeBinomial(*a, **k) if a else D.BetaNegativeBinomial.dist(**k)

    def cdf(self, x, **p):
        k = np.arange(0, 200001)
        c = np.cumsum(np.exp(self.lp(k, **p)))
        x = np.asarray(x)
        return np.where(x < 0, 0.0, c[np.clip(x.astype(int), 0, len(c) - 1)])

    def lp(self, x, alpha, beta, r):
        x = np.asarray(x, float)
        with np.errstate(all="ignore"):
            v = sp.betaln(r + x, alpha + beta) - sp.betaln(r, alpha) + sp.gammaln(x + beta) - sp.gammaln(x + 1) - sp.gammaln(beta)
        return np.where(x < 0, -np.inf, v)

    def outside(self, alpha, beta, r):
        return [-1]


LAWS = dict(GenExtreme=GenExtreme(), Chi=Chi(), Maxwell=Maxwell(), Skellam=Skellam(), GeneralizedPoisson=GeneralizedPoisson(), BetaNegativeBinomial=BetaNegativeBinomial())


def gen_params(case):
    """Parameter arrays and their broadcast: one dict of scalars per element."""
    L = LAWS[case["dist"]]
    r = np.random.default_rng(case["pseed"])
    b = tuple(case["batch"])
    grid = np.empty(b, dtype=object)
    for ix in np.ndindex(b):
        grid[ix] = L.gen(r)
    if not b:
        grid[()] = L.gen(r)
    names = list(grid[(0,) * len(b)])
    out = {n: np.array([grid[ix][n] for ix in np.ndindex(b)]).reshape(b) for n in names}
    # some parameters are common to a whole axis
    if b and case["share"] and len(names) > 1 and case["dist"] != "GeneralizedPoisson":
        n = names[case["share"] % len(names)]
        out[n] = out[n][..., :1] if case["share"] % 2 else out[n].ravel()[:1].reshape(())
    full = np.empty(b, dtype=object)
    for ix in np.ndindex(b):
        full[ix] = {n: float(np.broadcast_to(out[n], b)[ix]) for n in names}
    return L, out, full


class Law(Scenario):
    name = "law"

    def generate(self, rng, tier):
        return dict(dist=rng.choice(sorted(LAWS)), batch=rng.choice([[], [], [1], [3], [2, 2], [3, 2]]), share=rng.choice([0, 0, 1, 2, 3, 4]), pseed=rng.randrange(10**6),
                    how=rng.choice(["size", "size", "repeat", "model", "dims"]), lead=rng.choice([0, 0, 2]), rseed=rng.randrange(10**6), hash_seed=rng.randrange(10**6), ops=[])

    def execute(self, case, ctx):
        with quiet():
            self._run(case, ctx)

    def _run(self, case, ctx):
        L, par, full = gen_params(case)
        b = tuple(case["batch"])
        how = case["how"]
        seed = case["rseed"]
        g0 = np.random.get_state()[1].copy()
        N = 4000
        names = list(par)
        if how == "size":
            def draw(s):
                return pm.draw(L.make(**par, size=(N, *b)), random_seed=s, mode=MODE)
        elif how == "repeat":
            N = 1500
            shp = b if not case["lead"] else (case["lead"], *b)

            def draw(s):
                kw = {} if not case["lead"] else {"shape": shp}
                return pm.draw(L.make(**par, **kw), draws=N, random_seed=s, mode=MODE)
        else:
            N = 1500
            shp = b if not case["lead"] else (case["lead"], *b)
            coords = {f"d{i}": list("abcdefg"[:n]) for i, n in enumerate(shp)}

            def draw(s):
                with pm.Model(coords=coords) as m:
                    kw = {"dims": tuple(coords)} if how == "dims" and shp else {"shape": shp} if case["lead"] else {}
                    L.make("x", **par, **kw)
                    ip = m.initial_point(random_seed=s)
                    lp0 = m.compile_logp(mode=MODE)(ip)
                    ctx.check(bool(np.isfinite(lp0)), "start-outside-support", lambda: f"{case['dist']}({par}): log density {lp0} at the initial point {ip}")
                    i = pm.sample_prior_predictive(draws=N, random_seed=s, compile_kwargs={"mode": MODE})
                if how == "dims" and shp:
                    ctx.check(i.prior["x"].dims[2:] == tuple(coords), "dims", f"{i.prior['x'].dims}")
                return i.prior["x"].values[0]
        x = np.asarray(draw(seed))
        ctx.fault("generator-stream")
        want = (N, *b) if how == "size" else (N, *shp)
        ctx.check(x.shape == want, "draw-shape", f"{x.shape} instead of {want}")
        ctx.check(np.array_equal(np.random.get_state()[1], g0), "global-rng-used", "")
        ctx.check(x.dtype == ("int64" if L.discrete else "float64"), "draw-dtype", str(x.dtype))
        again = draw(seed)
        ctx.check(np.array_equal(x, again), "seed-not-reproducible", "the same seed gives other draws")
        other = draw(seed + 1)
        ctx.check(not np.array_equal(x, other), "seed-ignored", "another seed gives the same draws")
        cols = x.reshape(N, -1, *b) if how != "size" else x.reshape(N, 1, *b)
        med = {}
        for ix in np.ndindex(b):
            p = full[ix]
            slack = L.slack(**p) if hasattr(L, "slack") else 0.0
            for l in range(cols.shape[1]):
                v = cols[(slice(None), l) + ix]
                qs = np.unique(np.quantile(v, [0.003, 0.03, 0.1, 0.25, 0.5, 0.75, 0.9, 0.97, 0.997], method="nearest"))
                ref = L.cdf(qs, **p)
                emp = np.array([(v <= q).sum() for q in qs])
                # quantiles of the sample would bias nothing: bounds hold uniformly (Dvoretzky-Kiefer-Wolfowitz), and are tighter in the tails
                dkw = np.abs(emp / N - ref).max()
                ctx.check(dkw < 3.6 / np.sqrt(N) + slack + 1e-9, "draws-follow-another-law",
                          lambda: f"{case['dist']}({p}): {dict(zip(qs.tolist(), (emp / N).round(4).tolist()))} of {N} draws at or below, the distribution function says {ref.round(4).tolist()}")
                med[l, ix] = v > np.median(v)
        # independence of the elements and of successive draws
        keys = list(med)
        for i, k in enumerate(keys):
            a = med[k] - med[k].mean()
            s = a.std()
            if s == 0:
                continue
            lag = (a[1:] * a[:-1]).mean() / s**2
            ctx.check(abs(lag) < 7 / np.sqrt(N), "draws-dependent", lambda: f"successive draws of {case['dist']} correlate by {lag:.2f}")
            for k2 in keys[i + 1:]:
                c = med[k2] - med[k2].mean()
                if c.std() > 0:
                    cc = (a * c).mean() / s / c.std()
                    ctx.check(abs(cc) < 7 / np.sqrt(N), "elements-dependent", lambda: f"elements {k} and {k2} of {case['dist']} correlate by {cc:.2f}")
        # log density
        dist = L.make(**par, size=(6, *b))
        pts = x[:6].reshape(6, -1, *b)[:, 0] if how != "size" else x[:6]
        lp = pytensor.function([], pm.logp(dist, pts), mode=MODE)()
        for ix in np.ndindex(b):
            ref = L.lp(pts[(slice(None),) + ix], **full[ix])
            got = lp[(slice(None),) + ix]
            ctx.check(bool(np.isfinite(got).all()) and np.allclose(got, ref, rtol=1e-6, atol=2e-6), "wrong-density", lambda: f"{case['dist']}({full[ix]}) at {pts[(slice(None),) + ix].tolist()}: {got.tolist()}, closed form {ref.tolist()}")
            for o in L.outside(**full[ix]):
                z = float(pytensor.function([], pm.logp(L.make(**full[ix]), o), mode=MODE)())
                ctx.check(z == -np.inf, "density-outside-support", lambda: f"{case['dist']}({full[ix]}) has log density {z} at {o}")
                break
        if not L.discrete and case["rseed"] % 2:
            p = full[(0,) * len(b)]
            v = np.quantile(x, [0.2, 0.6])
            v = pts[(slice(0, 2),) + (0,) * len(b)]
            lc = pytensor.function([], pm.logcdf(L.make(**p), v), mode=MODE)()
            ctx.check(np.allclose(lc, np.log(L.cdf(v, **p)), rtol=1e-5, atol=1e-6), "wrong-logcdf", lambda: f"{case['dist']}({p}) at {v.tolist()}: {lc.tolist()}")
            if case["dist"] == "GenExtreme" and p["xi"] < -0.01:
                top = p["mu"] - p["sigma"] / p["xi"] + p["sigma"] * 0.1
                lc = float(pytensor.function([], pm.logcdf(L.make(**p), top), mode=MODE)())
                ctx.check(lc == 0, "logcdf-above-bound", lambda: f"GenExtreme({p}): log distribution function {lc} at {top}, above the upper bound")
        ctx.state(case["dist"], len(b), how, bool(case["lead"]), *(("neg" if p_ < 0 else "zero" if p_ == 0 else "pos") for p_ in full[(0,) * len(b)].values()))
        ctx.log(case["dist"], how, np.round(x.ravel()[:6].astype(float), 6).tolist())

    def simpler(self, case):
        for k, v in (("lead", 0), ("share", 0), ("how", "size"), ("batch", [])):
            if case[k] != v:
                yield {**case, k: v}


def extreme_rng(seed, values, rate):
    class Extreme(np.random.Generator):
        """Some of its uniforms are as close to 0 and 1 as they can be."""

        def __init__(self):
            super().__init__(np.random.PCG64(seed))
            self.pick = np.random.default_rng(seed + 1)
            self.hits = 0

        def _spoil(self, u):
            a = np.array(u, dtype=float)
            hit = self.pick.random(a.shape) < rate
            self.hits += int(hit.sum())
            a = np.where(hit, self.pick.choice(values, size=a.shape), a)
            return a if a.ndim else float(a)

        def uniform(self, low=0.0, high=1.0, size=None):
            return low + (high - low) * self._spoil(super().uniform(size=size if size is not None else np.broadcast(low, high).shape or None))

        def random(self, size=None, **kw):
            return self._spoil(super().random(size))

        def __copy__(self):
            return self

        def __deepcopy__(self, memo):
            return self

        def __reduce__(self):
            return (extreme_rng, (seed, values, rate))

    return Extreme()


class ExtremeStream(Scenario):
    name = "extreme-stream"
    hang_s = 100

    def generate(self, rng, tier):
        return dict(dist=rng.choice(["GeneralizedPoisson", "GeneralizedPoisson", "GeneralizedPoisson", "GenExtreme"]), batch=rng.choice([[], [4], [2, 3]]), share=0,
                    pseed=rng.randrange(10**6), rseed=rng.randrange(10**6), rate=rng.choice([0.02, 0.3, 1.0]),
                    values=rng.sample([2.0**-53, 1e-12, 1e-6, 1 - 2.0**-53, 1 - 1e-12, 1 - 1e-6, 0.999], rng.randint(1, 4)), ops=[])

    def execute(self, case, ctx):
        with quiet():
            self._run(case, ctx)

    def _run(self, case, ctx):
        L, par, full = gen_params(case)
        b = tuple(case["batch"])
        N = 60
        dist = L.make(**par, size=(N, *b))
        rng = extreme_rng(case["rseed"], case["values"], case["rate"])
        node = dist.owner
        fn = node.op.rng_fn
        x = fn(rng, *[np.asarray(par[n]) for n in par], (N, *b))
        x = np.asarray(x)
        ctx.check(rng.hits > 0 or case["dist"] != "GenExtreme", "harness", "the generator was not used") if case["rate"] == 1 else None
        for _ in range(rng.hits):
            ctx.fault("extreme-uniform")
        if not rng.hits:
            ctx.fault("generator-stream")
        ctx.check(x.shape == (N, *b), "draw-shape", f"{x.shape}")
        for ix in np.ndindex(b):
            v = x[(slice(None),) + ix]
            lp = L.lp(v, **full[ix])
            ctx.check(bool(np.isfinite(v).all()) and bool((lp > -np.inf).all()), "draw-outside-support",
                      lambda: f"{case['dist']}({full[ix]}) drew {v[~(lp > -np.inf)][:4].tolist()}, which has no density")
            q = L.cdf(v, **full[ix])
            ctx.check(bool((q > 1e-17).all()), "impossible-draw", lambda: f"{case['dist']}({full[ix]}): {v[q <= 1e-17].tolist()}")
        ctx.state(case["dist"], len(b), case["rate"])
        ctx.log(case["dist"], np.round(x.ravel()[:8], 6).tolist())

    def simpler(self, case):
        for i in range(len(case["values"])):
            if len(case["values"]) > 1:
                yield {**case, "values": case["values"][:i] + case["values"][i + 1:]}
        if case["batch"]:
            yield {**case, "batch": []}


class R2D2(Scenario):
    name = "r2d2"

    def generate(self, rng, tier):
        nb = rng.choice([0, 0, 1])
        k = rng.choice([1, 2, 3, 4])
        imp = rng.choice([None, "importance", "explained", "conc"]) if k > 1 else None
        return dict(k=k, groups=rng.choice([2, 3]) if nb else 0, imp=imp, conc=rng.random() < 0.5, r2_std=rng.random() < 0.5, pp=rng.choice(["default", "scalar", "vec", "some01", "all01"]),
                    pp_std=rng.random() < 0.4, centered=rng.random() < 0.5, pseed=rng.randrange(10**6), rseed=rng.randrange(10**6), hash_seed=rng.randrange(1000), ops=[])

    def execute(self, case, ctx):
        with quiet():
            self._run(case, ctx)

    def _run(self, case, ctx):
        r = np.random.default_rng(case["pseed"])
        k, g = case["k"], case["groups"]
        shape = (g, k) if g else (k,)
        dims = ("grp", "var") if g else ("var",)
        coords = {"var": [f"v{i}" for i in range(k)], **({"grp": [f"g{i}" for i in range(g)]} if g else {})}
        os_ = np.exp(r.normal(size=(g,) if g and r.random() < 0.5 else ()))
        is_ = np.exp(r.normal(size=k))
        r2 = r.uniform(0.2, 0.8)
        kw = dict(r2=r2)
        if case["r2_std"]:
            kw["r2_std"] = 0.1
        phi0 = None
        if case["imp"] == "importance":
            kw["variables_importance"] = a = r.uniform(1, 9, size=k if not g else shape)
            if case["conc"]:
                kw["importance_concentration"] = 2.0
        elif case["imp"] == "explained":
            kw["variance_explained"] = phi0 = 0.7 * r.dirichlet(np.ones(k)) + 0.3 / k
            if case["conc"]:
                kw["importance_concentration"] = 10.0
        elif case["imp"] == "conc":
            kw["importance_concentration"] = 3.0
        pp = {"default": 0.5, "scalar": 0.7, "vec": r.uniform(0.1, 0.9, size=k), "some01": np.where(np.arange(k) % 2 == 0, r.integers(0, 2, size=k), 0.6).astype(float), "all01": r.integers(0, 2, size=k).astype(float)}[case["pp"]]
        if case["pp"] != "default":
            kw["positive_probs"] = pp
        mask01 = np.broadcast_to((np.asarray(pp) == 0) | (np.asarray(pp) == 1), shape)
        if case["pp_std"]:
            kw["positive_probs_std"] = np.where((np.asarray(pp) == 0) | (np.asarray(pp) == 1), 0.0, 0.1)
        with pm.Model(coords=coords) as m:
            eps, beta = D.R2D2M2CP("beta", os_, is_, dims=dims, centered=case["centered"], **kw)
            pm.Deterministic("eps", eps + pt.zeros(()))
            pm.Deterministic("b", beta)
        N = 1200
        i = pm.sample_prior_predictive(draws=N, model=m, random_seed=case["rseed"], compile_kwargs={"mode": MODE})
        ctx.fault("generator-stream")
        P = i.prior
        bt = P["beta"].values[0]
        ctx.check(P["beta"].dims[2:] == dims and bt.shape == (N, *shape), "dims", f"{P['beta'].dims} {bt.shape}")
        R2 = P["beta::r2"].values[0] if case["r2_std"] else np.full(N, r2)
        R2 = R2 if R2.ndim == 2 else R2[:, None] if g else R2
        phi = P["beta::phi"].values[0] if "beta::phi" in P else np.broadcast_to(phi0 if phi0 is not None else 1.0, shape)
        psi = P["beta::psi"].values[0] if "beta::psi" in P else np.broadcast_to(pp, shape)
        ctx.check(("beta::phi" in P) == (case["imp"] in ("importance", "conc") or (case["imp"] == "explained" and case["conc"])), "variables", f"{sorted(P.data_vars)}")
        ctx.check(np.allclose(P["eps"].values[0], np.squeeze(np.sqrt(1 - R2) * os_) if P["eps"].values[0].ndim < 2 else np.sqrt(1 - R2) * os_), "residual-scale", "")
        ev = phi * np.broadcast_to((R2 * os_**2).reshape((N, g) if g and (np.ndim(R2 * os_) == 2 and (R2 * os_).shape[1] == g) else (N, 1) if g else (N,)), (N, g) if g else (N,))[..., None]
        psi = np.broadcast_to(psi, (N, *shape))
        s01 = np.broadcast_to(mask01, (N, *shape))
        sgn = np.where(psi > 0.5, 1.0, -1.0)
        with np.errstate(all="ignore"):
            q = st.norm.ppf(np.where(s01, 0.5, psi))
        sig = np.sqrt(ev / (1 + q**2))
        mu = sig * q
        B = bt * is_
        ctx.check(np.allclose(B[s01], (sgn * np.sqrt(ev))[s01]), "fixed-sign", lambda: f"coefficients with a certain sign: {B[s01][:4]} instead of {(sgn * np.sqrt(ev))[s01][:4]}")
        Z = ((B - mu) / sig).reshape(N, -1)[:, ~mask01.ravel()]
        if Z.shape[1]:
            ctx.check(bool((np.abs(Z.mean(0)) < 7 / np.sqrt(N)).all()) and bool((np.abs((Z**2).mean(0) - 1) < 7 * np.sqrt(2 / N)).all()), "coefficient-law",
                      lambda: f"standardised coefficients: mean {Z.mean(0).round(2).tolist()}, mean square {(Z**2).mean(0).round(2).tolist()}")
            C = Z.T @ Z / N - np.diag((Z**2).mean(0))
            ctx.check(bool((np.abs(C) < 7 / np.sqrt(N)).all()), "coefficients-dependent", lambda: f"{C.round(2).tolist()}")
        if case["r2_std"]:
            v = P["beta::r2"].values[0]
            ctx.check(bool((np.abs(v.mean(0) - r2) < 7 * 0.1 / np.sqrt(N)).all()) and bool((np.abs(v.std(0) - 0.1) < 0.1 * 7 * np.sqrt(1.0 / N)).all()), "r2-law", f"{v.mean(0)} {v.std(0)}")
        if "beta::phi" in P:
            conc = np.broadcast_to(kw["variables_importance"] * (2.0 if case["conc"] else 1.0) if case["imp"] == "importance" else (10.0 * phi0 if case["imp"] == "explained" else 3.0 * np.ones(k)), shape)
            tot = conc.sum(-1, keepdims=True)
            em = conc / tot
            sd = np.sqrt(em * (1 - em) / (tot + 1))
            ctx.check(bool((np.abs(phi.mean(0) - em) < 7 * sd / np.sqrt(N)).all()) and bool((np.abs(phi.std(0) / sd - 1) < 0.35).all()), "importance-law", lambda: f"mean {phi.mean(0).tolist()} for {em.tolist()}")
        if "beta::psi" in P and case["pp_std"]:
            v = P["beta::psi"].values[0]
            e = np.abs(v.mean(0) - np.broadcast_to(pp, shape))
            ctx.check(bool((e < 7 * 0.1 / np.sqrt(N) + 1e-9).all()), "sign-probability-law", f"{v.mean(0)} for {pp}")
        # density: coefficients and all at two points of the prior, against closed forms
        lpf = m.compile_logp(mode=MODE, jacobian=False)
        vals = {}
        ref = 0.0
        d = 0
        for rv in m.free_RVs:
            t = m.rvs_to_transforms[rv]
            v = P[rv.name].values[0][d]
            val = v if t is None else pytensor.function([], t.forward(pt.as_tensor(np.asarray(v)), *rv.owner.inputs), mode=MODE, on_unused_input="ignore")()
            vals[m.rvs_to_values[rv].name] = np.asarray(val)
            if rv.name == "beta::r2":
                ref += self.beta_lp(v, r2, 0.1)
            elif rv.name == "beta::phi":
                ref += sum(st.dirichlet(conc.reshape(-1, k)[j]).logpdf(v.reshape(-1, k)[j] / v.reshape(-1, k)[j].sum()) for j in range(conc.reshape(-1, k).shape[0]))
            elif "psi" in rv.name:
                full = np.broadcast_to(pp, shape)
                ref += self.beta_lp(v, full[~mask01] if mask01.any() else full, 0.1)
            elif rv.name in ("beta::raw", "beta::raw::masked"):
                ref += st.norm.logpdf(v).sum()
            else:
                mm, ss = (mu / is_)[d], (sig / is_)[d]
                ref += (st.norm.logpdf(v, mm[~mask01], ss[~mask01]) if mask01.any() else st.norm.logpdf(v, mm, ss)).sum()
        got = float(lpf(vals))
        ctx.check(np.isclose(got, ref, rtol=1e-5, atol=1e-4), "wrong-density", lambda: f"log density {got} of {vals}, closed form {ref}")
        ctx.state(case["imp"], case["pp"], case["centered"], bool(g), case["r2_std"], case["pp_std"])
        ctx.log(np.round(bt[:3].ravel(), 5).tolist(), round(got, 5))

    @staticmethod
    def beta_lp(v, mu, sd):
        kappa = mu * (1 - mu) / sd**2 - 1
        return st.beta(mu * kappa, (1 - mu) * kappa).logpdf(v).sum()

    def simpler(self, case):
        for k, v in (("groups", 0), ("imp", None), ("r2_std", False), ("pp", "default"), ("pp_std", False), ("centered", False), ("conc", False)):
            if case[k] != v:
                yield {**case, k: v}


SCENARIOS = [Law(), ExtremeStream(), R2D2()]
