"""B02: a saved model loads as the same model, and anything else is refused."""
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd

from ..core import Scenario
from ..seams import quiet

PLAN = {
    "quick": [("load-fidelity", 90), ("load-refusal", 80)],
    "thorough": [("load-fidelity", 9000), ("load-refusal", 9000)],
}
META = {
    "level": "fault_enumeration",
    "min_events": 2,
    "rule": "One run fits a model with a seeded configuration (nested dictionaries of numbers, strings, lists, tuples and arrays) on seeded data (any number, "
            "order and naming of columns, any kind of index), then follows a seeded chain of save, load, refit and predict, comparing the loaded with the saved "
            "model; or damages the file (truncation at any offset, lost groups, attributes of another configuration, an empty or foreign file) or asks another "
            "class or version to load it, and requires a refusal that leaves file and live models alone.",
    "states": "distinct (configuration shape, index kind, column count, chain depth) and (damage kind, outcome)",
    "real": ["pymc_extras.model_builder", "arviz to_netcdf/from_netcdf", "h5netcdf/h5py", "pm.sample_posterior_predictive", "real files in a scratch directory"],
    "stub": ["MCMC sampling inside fit (synthetic posterior)"],
    "assumptions": ["bit rot inside the file is out of scope: HDF5 files carry no checksums"],
}


def setup():
    from .. import mbworld

    import h5py

    globals().update(W=mbworld, h5py=h5py)


def gen_value(rng, depth=0):
    k = rng.randrange(9 if depth < 2 else 5)
    if k == 0:
        return ["num", rng.choice([0, 1, -3, 7])]
    if k == 1:
        return ["num", rng.choice([0.1, 2.5, -1e-7, 1e22, 3.0])]
    if k == 2:
        return ["num", rng.choice(["x", "Normal", "", "ünï"])]
    if k == 3:
        return ["num", rng.choice([None, True, False])]
    if k == 4:
        return ["num", 1 / 3]
    if k in (5, 6):
        n = rng.randint(0, 3)
        kind = rng.choice(["list", "tuple", "array"])
        if rng.random() < 0.25 and kind != "array":
            return [kind, [["num", rng.choice(["a", 1, 2.5])] for _ in range(n)]]
        if rng.random() < 0.3:
            return [kind, [["list", [["num", round(rng.random(), 3)] for _ in range(2)]] for _ in range(max(n, 1))]]
        return [kind, [["num", rng.choice([rng.randint(0, 5), round(rng.random(), 4)])] for _ in range(n)]]
    return ["dict", {rng.choice("abcdef") + str(i): gen_value(rng, depth + 1) for i in range(rng.randint(1, 3))}]


def make_value(v):
    k, x = v
    if k == "num":
        return x
    if k == "dict":
        return {a: make_value(b) for a, b in x.items()}
    items = [make_value(i) for i in x]
    if k == "tuple":
        return tuple(items)
    if k == "array":
        return np.array(items)
    return items


def same(a, b):
    """Equal up to the container types that JSON cannot tell apart."""
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and list(map(str, a)) == list(map(str, b)) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list | tuple | np.ndarray) or isinstance(b, list | tuple | np.ndarray):
        la = a.tolist() if isinstance(a, np.ndarray) else list(a) if isinstance(a, list | tuple) else None
        lb = b.tolist() if isinstance(b, np.ndarray) else list(b) if isinstance(b, list | tuple) else None
        return la is not None and lb is not None and len(la) == len(lb) and all(same(x, y) for x, y in zip(la, lb))
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return type(a) is type(b) and a == b
    return a == b


COLS = ["z", "a", "M", "input", "index", "x 1", "ß", "b2"]


def gen_data(rng):
    n = rng.choice([1, 2, 3, 5, 8])
    k = rng.randint(1, 4)
    return {"n": n, "cols": rng.sample(COLS, k), "dseed": rng.randrange(10**6),
            "index": rng.choice(["range", "range", "perm", "dup", "dates", "names", "float", "multi", "named", "named-as-column"]),
            "dtype": rng.choice(["float", "float", "int", "bool", "mixed", "f32"]), "y": rng.choice(["array", "series", "series-other-index", "list", "int"])}


def make_data(g):
    r = np.random.default_rng(g["dseed"])
    n, cols = g["n"], g["cols"]
    X = pd.DataFrame({c: r.normal(size=n) for c in cols})
    for i, c in enumerate(cols):
        dt = g["dtype"] if g["dtype"] != "mixed" else ["float", "int", "bool"][i % 3]
        if dt == "int":
            X[c] = r.integers(-5, 6, size=n)
        elif dt == "bool":
            X[c] = r.integers(0, 2, size=n).astype(bool)
        elif dt == "f32":
            X[c] = X[c].astype("float32")
    y = r.normal(size=n)
    k = g["index"]
    if k == "perm":
        X.index = r.permutation(n) + 3
    elif k == "dup":
        X.index = r.integers(0, 2, size=n)
    elif k == "dates":
        X.index = pd.date_range("2020-01-31", periods=n, freq="ME")
    elif k == "names":
        X.index = [f"row{n - i}" for i in range(n)]
    elif k == "float":
        X.index = r.normal(size=n)
    elif k == "multi":
        X.index = pd.MultiIndex.from_arrays([r.integers(0, 3, size=n), np.arange(n)], names=["g", "h"])
    elif k == "named":
        X.index.name = "time"
    elif k == "named-as-column":
        X.index.name = cols[-1]
    yy = {"array": y, "list": list(y), "series": pd.Series(y, index=X.index, name="other"), "int": r.integers(0, 9, size=n),
          "series-other-index": pd.Series(y, index=np.arange(n) + 100)}[g["y"]]
    return X, yy


def check_same(ctx, cls, a, b, X, y, seed, why):
    """b was loaded from the file a was saved to."""
    ctx.check(type(b) is W.CLASSES[cls], "loaded-type", f"{type(b)}")
    ctx.check(a.id == b.id == b.idata.attrs["id"], "loaded-id", f"{why}: {a.id} {b.id}")
    ctx.check(W.digest(a.idata) == W.digest(b.idata), "loaded-results-differ", why)
    ctx.check(same(a.model_config, b.model_config), "loaded-config-differs", lambda: f"{why}: saved {a.model_config} loaded {b.model_config}")
    ctx.check(same(a.sampler_config, b.sampler_config), "loaded-sampler-config-differs", lambda: f"{why}: saved {a.sampler_config} loaded {b.sampler_config}")
    for k in ("x", "y_data"):
        va, vb = np.asarray(a.model[k].get_value(), float), np.asarray(b.model[k].get_value(), float)
        want = (np.asarray(X, float) if k == "x" else np.asarray(y, float))
        if va.ndim == 1:
            want = want.reshape(va.shape) if want.size == va.size else want
        ctx.check(np.array_equal(vb, want), "loaded-data-differ", lambda: f"{why}: {k} of the loaded model {vb.tolist()} fitted with {want.tolist()}")
        ctx.check(np.array_equal(va, vb), "loaded-data-differ", lambda: f"{why}: {k} {vb.tolist()} vs fitted {va.tolist()}")


class Fidelity(Scenario):
    name = "load-fidelity"

    def generate(self, rng, tier):
        cls = rng.choice(["Multi", "Multi", "Multi", "Lin", "Rich", "Sharp"])
        data = gen_data(rng)
        if cls != "Multi":
            data["cols"] = ["input"]
        cfg = None
        if cls == "Multi" and rng.random() < 0.85:
            cfg = {c + str(i): gen_value(rng) for i, c in enumerate(rng.sample("abcdef", rng.randint(1, 4)))}
            if rng.random() < 0.4:
                cfg["p"] = ["dict", {"dims": [rng.choice(["tuple", "list"]), [["num", "d"]] * rng.randint(0, 2)], "loc": ["array", [["num", 1], ["num", 2]]]}]
        scfg = None
        if rng.random() < 0.4:
            scfg = {"draws": rng.randint(1, 9), "tune": 3, "chains": 1, "target_accept": 0.1 + 0.8 * rng.random(), "extra": rng.choice([None, [1, 2], {"a": "b"}, True])}
        ops = [rng.choice(["save-load", "save-load", "refit", "predict", "second-path", "relative"]) for _ in range(rng.randint(1, 4))]
        return dict(cls=cls, data=data, cfg=cfg, scfg=scfg, ops=ops, fname=rng.choice(["m.nc", "m", "a b.nc", "ünï.nc", "m.nc.bak", ".hidden"]), aspath=rng.random() < 0.4)

    def execute(self, case, ctx):
        d = tempfile.mkdtemp(prefix="dst-b02-")
        cwd = os.getcwd()
        try:
            with quiet():
                self.run(case, ctx, d)
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)

    def run(self, case, ctx, d):
        cls = case["cls"]
        C = W.CLASSES[cls]
        X, y = make_data(case["data"])
        X0, y0 = X.copy(), np.array(y, float)
        cfg = make_value(["dict", case["cfg"]]) if case["cfg"] else None
        cfg0 = make_value(["dict", case["cfg"]]) if case["cfg"] else None
        m = C(model_config=cfg, sampler_config=dict(case["scfg"]) if case["scfg"] else None)
        seed = case["seed"] % 10**6
        st = W.StubMCMC() if cls == "Sharp" else None
        if st:
            st.__enter__()
        try:
            m.fit(X, y, progressbar=False, random_seed=seed)
            pd.testing.assert_frame_equal(X, X0)
            ctx.check(cfg is None or same(cfg, cfg0), "config-modified", f"{cfg}")
            for i, op in enumerate(case["ops"]):
                f = os.path.join(d, case["fname"] if op != "second-path" else "second.nc")
                if op == "relative":
                    os.chdir(d)
                    f = case["fname"]
                arg = Path(f) if case["aspath"] else f
                m.save(arg)
                raw = open(f, "rb").read()
                l = C.load(arg)
                ctx.check(open(f, "rb").read() == raw, "load-changed-the-file", "")
                check_same(ctx, cls, m, l, X0, y0, seed, f"step {i} {op}")
                ctx.log(op, l.id, W.digest(l.idata))
                if op == "predict" or i == len(case["ops"]) - 1:
                    r = np.random.default_rng(seed + i)
                    Xn = pd.DataFrame({c: r.normal(size=4) for c in X0.columns})
                    if cls in ("Multi", "Sharp"):
                        a = m.predict(Xn, extend_idata=False, random_seed=seed, progressbar=False)
                        b = l.predict(Xn, extend_idata=False, random_seed=seed, progressbar=False)
                        ctx.check(np.array_equal(a, b), "loaded-predictions-differ", lambda: f"saved model {a} loaded model {b}")
                        ctx.log("predict", np.round(a, 6).tolist())
                        # back to the data of the fit, so that the next comparison sees what was fitted
                        for q in (m, l):
                            q._data_setter(X0, y0)
                if op == "refit":
                    l2 = C.load(arg)
                    l2.fit(X, y, progressbar=False, random_seed=seed)
                    ctx.check(l2.id == m.id, "refit-id", f"{l2.id} {m.id}")
                    at = ("id", "model_type", "version")
                    ctx.check(W.digest(l2.idata, at) == W.digest(self.refit(m, X, y, seed), at), "refit-of-loaded-differs", "refitting the loaded model with the same seed gives other results")
                ctx.state(cls, case["data"]["index"], len(X0.columns), i)
                m = l
        finally:
            if st:
                st.__exit__()

    @staticmethod
    def refit(m, X, y, seed):
        q = type(m)(model_config=m.model_config, sampler_config=m.sampler_config)
        q.fit(X, y, progressbar=False, random_seed=seed)
        return q.idata

    def simpler(self, case):
        if case["cfg"]:
            yield {**case, "cfg": None}
            for k in case["cfg"]:
                yield {**case, "cfg": {a: b for a, b in case["cfg"].items() if a != k}}
        if case["scfg"]:
            yield {**case, "scfg": None}
        for k, v in (("index", "range"), ("dtype", "float"), ("y", "array"), ("n", 3)):
            if case["data"][k] != v:
                yield {**case, "data": {**case["data"], k: v}}
        if case["fname"] != "m.nc":
            yield {**case, "fname": "m.nc"}


CFG_EDITS = ("model_config", "model_type", "version", "id")


class Refusal(Scenario):
    name = "load-refusal"

    def generate(self, rng, tier):
        fam = rng.choice([["Lin", "LinV2", "LinOther"], ["Rich", "RichV2"], ["Multi", "MultiV4", "MultiOther"]])
        ops = []
        for _ in range(rng.randint(2, 6)):
            k = rng.choice(["truncate", "truncate", "truncate", "class", "class", "empty", "garbage", "missing", "directory", "no-group", "id", "config", "no-attr", "good"])
            if k == "truncate":
                ops.append([k, rng.choice([rng.random(), 1 - 0.02 * rng.random(), 0.02 * rng.random()]), rng.choice([0, 1, 2, 8])])
            elif k == "class":
                ops.append([k, rng.choice([c for c in fam if c != fam[0]])])
            elif k == "no-group":
                ops.append([k, "fit_data"])
            elif k == "no-attr":
                ops.append([k, rng.choice(["id", "model_config", "sampler_config"])])
            else:
                ops.append([k])
        data = {"n": rng.randint(1, 5), "cols": ["input"], "dseed": rng.randrange(10**6), "index": "range", "dtype": "float", "y": "array"}
        return dict(fam=fam, data=data, ops=ops)

    def execute(self, case, ctx):
        d = tempfile.mkdtemp(prefix="dst-b02r-")
        try:
            with quiet():
                self.run(case, ctx, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def run(self, case, ctx, d):
        cls = case["fam"][0]
        C = W.CLASSES[cls]
        X, y = make_data(case["data"])
        m = C()
        m.fit(X, y, progressbar=False, random_seed=5)
        good = os.path.join(d, "good.nc")
        m.save(good)
        dg = W.digest(m.idata)
        blob = open(good, "rb").read()
        for op in case["ops"]:
            k = op[0]
            f = os.path.join(d, "bad.nc")
            if os.path.isdir(f):
                os.rmdir(f)
            open(f, "wb").write(blob)
            L = C
            if k == "truncate":
                cut = min(len(blob) - 1 - op[2], max(0, int(op[1] * len(blob)))) if op[1] > 0.98 else int(op[1] * len(blob))
                open(f, "wb").write(blob[:cut])
                ctx.fault("torn-file")
            elif k == "class":
                L = W.CLASSES[op[1]]
                ctx.fault("wrong-class")
            elif k == "empty":
                open(f, "wb").close()
                ctx.fault("torn-file")
            elif k == "garbage":
                open(f, "wb").write(np.random.default_rng(len(blob)).bytes(4096))
                ctx.fault("foreign-file")
            elif k == "missing":
                os.unlink(f)
                ctx.fault("missing-file")
            elif k == "directory":
                os.unlink(f)
                os.mkdir(f)
                ctx.fault("missing-file")
            elif k == "no-group":
                with h5py.File(f, "a") as h:
                    del h[op[1]]
                ctx.fault("lost-group")
            elif k in ("id", "config", "no-attr"):
                with h5py.File(f, "a") as h:
                    if k == "id":
                        h.attrs["id"] = "0123456789abcdef"
                    elif k == "config":
                        c = h.attrs["model_config"]
                        c = c if isinstance(c, str) else c.decode()
                        h.attrs["model_config"] = c.replace("10", "11").replace("0.5", "0.25").replace(": 3", ": 4")
                    else:
                        del h.attrs[op[1]]
                ctx.fault("foreign-metadata")
            before = open(f, "rb").read() if os.path.isfile(f) else None
            try:
                l = L.load(f)
                out = "loaded"
            except Exception as e:
                out = "refused"
                ctx.log(k, type(e).__name__)
                if k in ("class", "id", "config"):
                    ctx.check(isinstance(e, ValueError), "mismatch-not-reported", f"{k}: {type(e).__name__}: {e}")
            if k == "good":
                ctx.check(out == "loaded" and W.digest(l.idata) == dg, "good-file-refused", "")
            else:
                ctx.check(out == "refused", "damaged-file-accepted", lambda: f"{L.__name__}.load accepted a file of {cls} with fault {op}; "
                          f"file {len(blob)} bytes, results {'same' if W.digest(l.idata) == dg else 'different'}")
            after = open(f, "rb").read() if os.path.isfile(f) else None
            ctx.check(before == after, "load-changed-the-file", f"{op}")
            ctx.check(W.digest(m.idata) == dg, "live-model-changed", f"{op}")
            ctx.state(k, out, cls, int(op[1] * 20) if k == "truncate" else op[-1])
            ctx.log(op, out)
        l = C.load(good)
        ctx.check(W.digest(l.idata) == dg, "good-file-changed", "")


SCENARIOS = [Fidelity(), Refusal()]
