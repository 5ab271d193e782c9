"""State-space models as users build them, with fixed parameter values standing in for a posterior."""
import numpy as np

KINDS = ["generic1", "generic2", "generic2", "structural", "varmax", "sarimax", "ets"]
NAMES = ["a0", "P0", "c", "d", "T", "Z", "R", "H", "Q"]


def _imports():
    import pandas as pd
    import pymc as pm
    import pytensor
    import pytensor.tensor as pt
    import xarray as xr
    import arviz as az

    from pymc_extras.statespace.core.statespace import PyMCStateSpace
    from pymc_extras.statespace.models import BayesianETS, BayesianSARIMA, BayesianVARMAX
    from pymc_extras.statespace.models import structural as st
    from pymc_extras.statespace.models.utilities import make_default_coords

    globals().update(locals())

    class Generic(PyMCStateSpace):
        """Every matrix is a free parameter (H diagonal, so that every filter applies)."""

        def __init__(self, p, m, r, filter_type):
            self._p, self._m, self._r = p, m, r
            self._shapes = dict(g_a0=(m,), g_P0=(m, m), g_c=(m,), g_d=(p,), g_T=(m, m), g_Z=(p, m), g_R=(m, r),
                                g_h=(p,), g_Q=(r, r))
            super().__init__(k_endog=p, k_states=m, k_posdef=r, filter_type=filter_type, verbose=False,
                             measurement_error=True)

        param_names = property(lambda self: list(self._shapes))
        state_names = property(lambda self: [f"s{i}" for i in range(self._m)])
        observed_states = property(lambda self: [f"o{i}" for i in range(self._p)])
        shock_names = property(lambda self: [f"e{i}" for i in range(self._r)])
        coords = property(lambda self: make_default_coords(self))
        param_dims = property(lambda self: {})

        def make_symbolic_graph(self):
            v = {k: self.make_and_register_variable(k, shape=s) for k, s in self._shapes.items()}
            self.ssm["initial_state", :] = v["g_a0"]
            self.ssm["initial_state_cov", :, :] = v["g_P0"]
            self.ssm["state_intercept", :] = v["g_c"]
            self.ssm["obs_intercept", :] = v["g_d"]
            self.ssm["transition", :, :] = v["g_T"]
            self.ssm["design", :, :] = v["g_Z"]
            self.ssm["selection", :, :] = v["g_R"]
            self.ssm["obs_cov", :, :] = pt.diag(v["g_h"])
            self.ssm["state_cov", :, :] = v["g_Q"]

    globals()["Generic"] = Generic


class World:
    def __init__(self, ss, params, p, n, exog=None):
        self.ss, self.params, self.p, self.n, self.exog = ss, params, p, n, exog

    def draw_data(self, rng):
        return rng.normal(size=(self.n, self.p)) * 1.5 + 0.5

    def container(self, y, kind):
        if kind == "numpy":
            return y.copy()
        cols = list(self.ss.observed_states)
        if kind == "frame":
            return pd.DataFrame(y.copy(), columns=cols)
        idx = pd.date_range("2001-01-01", periods=len(y), freq="D")
        # frequency information is often missing from an index: it is then inferred
        return pd.DataFrame(y.copy(), columns=cols, index=pd.DatetimeIndex(list(idx)))

    def make_model(self, data, **kw):
        self.kw = kw
        coords = dict(self.ss.coords)
        with pm.Model(coords=coords) as m:
            if self.exog is not None:
                for k, v in self.exog.items():
                    pm.Data(k, v, dims=self.ss.data_info[k]["dims"] if "time" in coords else None)
            for k in self.ss.param_names:
                v = np.asarray(self.params[k])
                dims = self.ss.param_dims.get(k) if self.ss.param_dims else None
                pm.Flat(k, shape=v.shape, dims=dims)
            self.ss.build_statespace_graph(data, **kw)
            for var, init in list(m.rvs_to_initial_values.items()):
                m.rvs_to_initial_values[var] = None
        return m

    def point(self, model):
        return {model.rvs_to_values[model[k]].name: np.asarray(self.params[k], float) for k in self.ss.param_names}

    def matrices(self, model):
        with model:
            ms = self.ss.unpack_statespace()
        ms = model.replace_rvs_by_values(list(ms))
        f = pytensor.function([model.rvs_to_values[model[k]] for k in self.ss.param_names], ms, on_unused_input="ignore")
        return dict(zip(NAMES, f(*[np.asarray(self.params[k], float) for k in self.ss.param_names])))

    def obs_logp(self, model):
        lp = model.logp(vars=[model["obs"]], sum=False, jacobian=False)
        f = pytensor.function([model.rvs_to_values[model[k]] for k in self.ss.param_names], lp, on_unused_input="ignore")
        return f(*[np.asarray(self.params[k], float) for k in self.ss.param_names])[0]

    def idata(self, draws, values=None):
        """`draws` posterior samples, all equal to the given parameter values (or a list of them)."""
        data = {}
        for k in self.ss.param_names:
            if values is None:
                v = np.broadcast_to(np.asarray(self.params[k], float), (1, draws, *np.shape(self.params[k]))).copy()
            else:
                v = np.array([np.asarray(values[i % len(values)][k], float) for i in range(draws)])[None]
            data[k] = v
        return az.from_dict(posterior=data, coords={k: list(v) for k, v in (self.ss.coords or {}).items() if v is not None},
                            dims={k: list(d) for k, d in (self.ss.param_dims or {}).items() if d is not None})

    def conditional(self, model, draws, seed, **kw):
        out = self.ss.sample_conditional_posterior(self.idata(draws), random_seed=seed, progressbar=False, **kw)
        return {k: out[k].values.reshape(draws, *out[k].shape[2:]) for k in out}


def spd(rng, k, lo=0.3):
    A = rng.normal(size=(k, k))
    return A @ A.T / k + lo * np.eye(k)


def build(kind, filt, n, rng):
    if "Generic" not in globals():
        _imports()
    if kind.startswith("generic"):
        p, m, r = (1, 2, 1) if kind == "generic1" else (2, 3, 2)
        ss = Generic(p, m, r, filt)
        A = rng.normal(size=(m, m))
        R = np.zeros((m, r)); R[:r, :r] = np.eye(r); R += 0.3 * rng.normal(size=(m, r))
        params = dict(g_a0=rng.normal(size=m), g_P0=spd(rng, m), g_c=rng.normal(size=m), g_d=3 * rng.normal(size=p),
                      g_T=A / max(1.0, 1.15 * np.max(np.abs(np.linalg.eigvals(A)))), g_Z=rng.normal(size=(p, m)), g_R=R,
                      g_h=rng.uniform(0.2, 1.0, p), g_Q=spd(rng, r))
        return World(ss, params, p, n)
    if kind == "structural":
        mod = st.LevelTrendComponent(order=2, innovations_order=1) + st.RegressionComponent(
            name="exog", state_names=["a", "b"]) + st.MeasurementError("obs")
        ss = mod.build("data", filter_type=filt, verbose=False)
        params = {}
        for k, info in ss.param_info.items():
            shape = tuple(info["shape"])
            if k == "P0":
                params[k] = spd(rng, ss.k_states)
            elif k.startswith("sigma"):
                params[k] = rng.uniform(0.5, 1.2, shape)
            else:
                params[k] = rng.normal(size=shape)
        return World(ss, params, 1, n, exog={"data_exog": rng.normal(size=(n, 2))})
    if kind == "varmax":
        ss = BayesianVARMAX(endog_names=["u", "v"], order=(1, 0), stationary_initialization=False, filter_type=filt,
                            measurement_error=True, verbose=False)
    elif kind == "sarimax":
        ss = BayesianSARIMA(order=(1, 0, 1), filter_type=filt, stationary_initialization=False, measurement_error=True,
                            verbose=False)
    else:
        ss = BayesianETS(order=("A", "A", "N"), filter_type=filt, measurement_error=True, verbose=False)
    params = {}
    for k in ss.param_names:
        shape = tuple(ss._name_to_variable[k].type.shape)
        if k == "P0":
            params[k] = spd(rng, ss.k_states)
        elif k == "state_cov":
            params[k] = spd(rng, ss.k_posdef)
        elif k.startswith("sigma"):
            params[k] = rng.uniform(0.5, 1.2, shape)
        elif k in ("alpha", "beta", "gamma", "phi"):
            params[k] = rng.uniform(0.2, 0.7, shape)
        elif k.endswith("params"):
            params[k] = rng.uniform(-0.4, 0.4, shape)
        else:
            params[k] = rng.normal(size=shape)
    return World(ss, params, ss.k_endog, n)


def moments(ctx, draws, mean, cov, key, z=7.0):
    """Sample mean and variance per entry against exact ones: |z| <= 7 per statistic (p < 3e-12)."""
    draws = np.asarray(draws, float)
    N = len(draws)
    var = np.array([np.diag(c) for c in cov])
    se = np.sqrt(np.maximum(var, 1e-6) / N)
    dm = np.abs(draws.mean(0) - mean)
    ctx.check(bool(np.all(dm <= z * se + 1e-4)), key + "-mean",
              lambda: f"largest deviation {np.max(dm / se):.1f} standard errors over {N} draws")
    v = draws.var(0)
    sv = np.maximum(var, 1e-6) * np.sqrt(2 / N)
    ctx.check(bool(np.all(np.abs(v - var) <= z * sv + 1e-3)), key + "-variance",
              lambda: f"largest deviation {np.max(np.abs(v - var) / sv):.1f} standard errors over {N} draws")
