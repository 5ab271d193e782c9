"""Shared world for the ModelBuilder checks: concrete model classes, digests, fault injectors."""
import errno
import hashlib
import json
import os
import sys

import arviz as az
import numpy as np
import pandas as pd
import pymc as pm

from pymc_extras.linearmodel import LinearModel
from pymc_extras.model_builder import ModelBuilder


def fake_idata(builder, rng, names_shapes, extra=()):
    ch, dr = int(rng.integers(1, 3)), int(rng.integers(2, 6))
    post = {n: rng.normal(size=(ch, dr, *s)) for n, s in names_shapes.items()}
    idata = az.from_dict(posterior=post)
    if "prior" in extra:
        idata.extend(az.from_dict(prior={n: rng.normal(size=(1, 4, *s)) for n, s in names_shapes.items()}))
    if "pp" in extra:
        idata.extend(az.from_dict(posterior_predictive={builder.output_var: rng.normal(size=(ch, dr, 3))}))
    if "obs" in extra:
        idata.extend(az.from_dict(observed_data={builder.output_var: rng.normal(size=3)}))
    return idata


class FakeSampler:
    """sample_model stands in for MCMC: a synthetic posterior drawn from the run's seed."""

    extra = ("prior", "pp", "obs")

    def sample_model(self, **kw):
        if self.model is None:
            raise RuntimeError("no model")
        rng = np.random.default_rng(kw.get("random_seed"))
        idata = fake_idata(self, rng, self.param_shapes(), self.extra)
        self.last_sampler_kwargs = dict(kw)
        return self.set_idata_attrs(idata)


class Lin(FakeSampler, LinearModel):
    _model_type = "Lin"
    version = "0.1"

    def param_shapes(self):
        return {"intercept": (), "slope": (), "σ_model_fmc": ()}


class LinV2(Lin):
    version = "0.2"


class LinOther(Lin):
    _model_type = "LinOther"


class Rich(FakeSampler, ModelBuilder):
    """Uses what the documentation recommends: arrays, dims tuples and strings in the configuration."""

    _model_type = "Rich"
    version = "1"

    @staticmethod
    def get_default_model_config():
        return {"a": {"loc": 0, "scale": 10, "dims": ("numbers",)}, "b": {"loc": np.array([1.0, 2.5]), "scale": 3},
                "obs_error": 2, "label": "plain"}

    @staticmethod
    def get_default_sampler_config():
        return {"draws": 5, "tune": 5, "chains": 1, "target_accept": 0.9}

    @property
    def output_var(self):
        return "output"

    @property
    def _serializable_model_config(self):
        out = {}
        for k, v in self.model_config.items():
            if isinstance(v, dict):
                out[k] = {kk: (vv.tolist() if isinstance(vv, np.ndarray) else vv) for kk, vv in v.items()}
            else:
                out[k] = v
        return out

    def param_shapes(self):
        return {"a": (3,), "b": (len(np.atleast_1d(self.model_config["b"]["loc"])),)}

    def build_model(self, X, y, **kw):
        cfg = self.model_config
        with pm.Model(coords={"numbers": np.arange(3)}) as self.model:
            x = pm.Data("x", np.asarray(X["input"], float))
            yd = pm.Data("y_data", np.asarray(y, float))
            a = pm.Normal("a", cfg["a"]["loc"], cfg["a"]["scale"], dims=cfg["a"]["dims"])
            b = pm.Normal("b", cfg["b"]["loc"], cfg["b"]["scale"])
            pm.Normal("output", a.sum() + b.sum() * x, cfg["obs_error"], shape=x.shape, observed=yd)

    def _data_setter(self, X, y=None):
        with self.model:
            pm.set_data({"x": np.asarray(X["input"], float)})
            if y is not None:
                pm.set_data({"y_data": np.asarray(y, float)})

    def _generate_and_preprocess_model_data(self, X, y):
        self.X, self.y = X, y


class RichV2(Rich):
    version = "2"


CLASSES = {c.__name__: c for c in (Lin, LinV2, LinOther, Rich, RichV2)}


def plain(v):
    if isinstance(v, np.ndarray):
        return ["nd", v.tolist()]
    if isinstance(v, tuple):
        return ["tuple", [plain(x) for x in v]]
    if isinstance(v, list):
        return ["list", [plain(x) for x in v]]
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, np.generic):
        return v.item()
    return v


def digest(idata, attrs=("id", "model_type", "version", "sampler_config", "model_config")):
    """Content digest of every group of an InferenceData, values included."""
    h = hashlib.sha256()
    for g in sorted(idata.groups()):
        ds = idata[g]
        h.update(g.encode())
        for v in sorted(map(str, ds.variables)):
            arr = np.asarray(ds[v].values)
            h.update(f"{v}{ds[v].dims}{arr.shape}".encode())
            if arr.dtype.kind in "OUS":
                h.update("\x1f".join(map(str, arr.ravel())).encode())
            else:
                h.update(np.ascontiguousarray(arr.astype("float64")).tobytes())
    for a in attrs:
        h.update(f"{a}={idata.attrs.get(a)}".encode())
    return h.hexdigest()[:16]


class SimENOSPC(OSError):
    def __init__(self):
        super().__init__(errno.ENOSPC, "No space left on device (simulated)")


class DiskFault:
    """Fail the k-th group write of a save (before, or after its bytes are on disk)."""

    def __init__(self, k, when, exc):
        self.k, self.when, self.exc = k, when, exc
        self.n = 0
        self.fired = False

    def __enter__(self):
        import xarray as xr

        self.orig = xr.Dataset.to_netcdf
        outer = self

        def to_netcdf(ds, *a, **kw):
            i = outer.n
            outer.n += 1
            if i == outer.k and outer.when == "before":
                outer.fired = True
                raise outer.exc
            r = outer.orig(ds, *a, **kw)
            if i == outer.k and outer.when == "after":
                outer.fired = True
                raise outer.exc
            return r

        xr.Dataset.to_netcdf = to_netcdf
        return self

    def __exit__(self, *exc):
        import xarray as xr

        xr.Dataset.to_netcdf = self.orig
        return False


IO_FILES = ("model_builder", "/arviz/", "/xarray/", "h5netcdf", "h5py", "/pathlib", "/os.py", "/shutil")


class CrashCounter:
    """Counts calls made by the I/O stack; at call k the process dies on the spot (os._exit)."""

    def __init__(self, k=None):
        self.k = k
        self.n = 0
        self.cache = {}

    def prof(self, frame, event, arg):
        if event not in ("call", "c_call", "c_return"):
            return
        code = frame.f_code
        w = self.cache.get(code)
        if w is None:
            w = self.cache[code] = any(s in code.co_filename for s in IO_FILES)
        if not w:
            return
        self.n += 1
        if self.k is not None and self.n >= self.k:
            os._exit(9)

    def __enter__(self):
        sys.setprofile(self.prof)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)
        return False


def in_child(fn):
    """Run fn in a forked child; returns (exit_code, text the child sent)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            out = fn()
            os.write(w, json.dumps(out).encode())
            code = 0
        except BaseException as e:  # noqa: BLE001
            try:
                os.write(w, json.dumps({"err": f"{type(e).__name__}: {e}"[:300]}).encode())
            except OSError:
                pass
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(st), data.decode()


class Multi(FakeSampler, ModelBuilder):
    """Several predictors, paired with their coefficients by position; any JSON-like configuration."""

    _model_type = "Multi"
    version = "3"
    extra = ("obs",)

    @staticmethod
    def get_default_model_config():
        return {"w": {"loc": 0.5, "scale": 1e-9}, "obs": 1e-9}

    @staticmethod
    def get_default_sampler_config():
        return {"draws": 4, "tune": 5, "chains": 1}

    @property
    def _serializable_model_config(self):
        def conv(v):
            if isinstance(v, np.ndarray):
                return v.tolist()
            if isinstance(v, dict):
                return {k: conv(x) for k, x in v.items()}
            return v

        return conv(self.model_config)

    @property
    def output_var(self):
        return "output"

    def sample_model(self, **kw):
        rng = np.random.default_rng(kw.get("random_seed"))
        k = self.X.shape[1]
        idata = fake_idata(self, rng, {"w": (k,)}, self.extra)
        ch, dr = idata.posterior.sizes["chain"], idata.posterior.sizes["draw"]
        idata.posterior["s"] = (("chain", "draw"), np.full((ch, dr), 1e-9))
        self.last_sampler_kwargs = dict(kw)
        return self.set_idata_attrs(idata)

    def build_model(self, X, y, **kw):
        cfg = self.model_config
        self.built_with = (X, np.asarray(y, float))
        k = X.shape[1]
        with pm.Model() as self.model:
            x = pm.Data("x", np.asarray(X, float))
            yd = pm.Data("y_data", np.asarray(y, float).ravel())
            w = pm.Normal("w", cfg["w"]["loc"] if isinstance(cfg.get("w"), dict) else 0.0, 1e-9, shape=(k,))
            s = pm.HalfNormal("s", 1e-9)
            pm.Normal("output", (x * w).sum(-1), s, shape=x.shape[:1], observed=yd)

    def _data_setter(self, X, y=None):
        with self.model:
            pm.set_data({"x": np.asarray(X, float)})
            if y is not None:
                pm.set_data({"y_data": np.asarray(y, float).ravel()})

    def _generate_and_preprocess_model_data(self, X, y):
        self.X, self.y = X, y


class MultiV4(Multi):
    version = "4"


class MultiOther(Multi):
    _model_type = "MultiOther"


class Sharp(LinearModel):
    """LinearModel whose fake posterior has no observation noise: every predictive draw is intercept + slope * x."""

    _model_type = "Sharp"
    version = "0.1"

    @staticmethod
    def get_default_model_config():
        return {"intercept": {"loc": 2.0, "scale": 1e-9}, "slope": {"loc": -1.5, "scale": 1e-9}, "obs_error": 1e-9}

    @staticmethod
    def get_default_sampler_config():
        return {"draws": 6, "tune": 5, "chains": 2, "target_accept": 0.9}


class MultiSharp(Multi):
    """Multi with the real sample_model."""

    _model_type = "MultiSharp"
    sample_model = ModelBuilder.sample_model


CLASSES.update({c.__name__: c for c in (Multi, MultiV4, MultiOther, Sharp, MultiSharp)})


class StubMCMC:
    """Stands in for pm.sample inside ModelBuilder.sample_model; everything around it is real."""

    def __init__(self, noise=1e-9):
        self.noise = noise
        self.fail = None

    def __enter__(self):
        self.orig = pm.sample
        outer = self
        outer.calls = []

        def sample(*a, **kw):
            outer.calls.append(kw)
            model = pm.modelcontext(None)
            rng = np.random.default_rng(kw.get("random_seed"))
            ch, dr = kw.get("chains", 2), kw.get("draws", 6)
            post = {}
            for rv in model.free_RVs:
                v = rng.normal(size=(ch, dr, *rv.type.shape))
                post[rv.name] = v if rv.name not in ("σ_model_fmc", "s") else np.abs(v) * outer.noise
            obs = {rv.name: np.array(model.rvs_to_values[rv].eval()) for rv in model.observed_RVs}
            idata = az.from_dict(posterior=post, sample_stats={"lp": rng.normal(size=(ch, dr))}, observed_data=obs)
            if outer.fail:
                raise outer.fail
            return idata

        pm.sample = sample
        return self

    def __exit__(self, *a):
        pm.sample = self.orig
        return False
