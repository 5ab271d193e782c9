"""Models with a known posterior mode and curvature, for the checks of the optimisers and samplers.

A model is a list of independent blocks, each with a closed form; what varies is everything around it: names,
declaration order, shapes, dims, which blocks, data, and deterministic functions of them.
"""
import numpy as np
import pymc as pm

NAMES = ["a", "b", "zeta", "A1", "mu", "sig", "theta_x", "k", "q", "w", "alpha", "m", "n2", "u", "v"]


def gen_spec(rng, kinds=("normal", "normal", "gamma", "beta", "mvn", "regress", "uniform"), lo=1, hi=4):
    names = rng.sample(NAMES, len(NAMES))
    blocks = []
    for i in range(rng.randint(lo, hi)):
        k = rng.choice(kinds)
        b = {"k": k, "name": names.pop(), "seed": rng.randrange(10**6)}
        if k == "regress":
            b["name2"] = names.pop()
        if k in ("normal", "gamma", "beta", "uniform"):
            b["shape"] = rng.choice([[], [], [1], [2], [3], [2, 2]])
            b["dims"] = bool(b["shape"]) and rng.random() < 0.5
        elif k in ("mvn", "dirichlet"):
            b["shape"] = [rng.choice([2, 3])]
            b["dims"] = rng.random() < 0.4
        else:
            b["shape"], b["dims"] = [], False
        b["det"] = rng.random() < 0.3
        b["nobs"] = rng.choice([1, 2, 5])
        b["data"] = k == "normal" and rng.random() < 0.6
        blocks.append(b)
    order = []
    for i, b in enumerate(blocks):
        order.append([i, 0])
        if b["k"] == "regress":
            order.append([i, 1])
    rng.shuffle(order)
    return {"blocks": blocks, "order": order}


class World:
    """The model and, per random variable, mode and precision in both spaces."""

    def __init__(self, spec):
        self.spec = spec
        self.mode, self.umode = {}, {}
        self.names = []
        self.prec = {}      # (name, name) -> matrix, constrained space
        self.uprec = {}     # same, value (unconstrained) space
        self.transform = {}
        self.dims = {}
        self.dets = {}
        self.support = {}
        coords = {}
        P = []
        for i, b in enumerate(spec["blocks"]):
            r = np.random.default_rng(b["seed"])
            sh = tuple(b["shape"])
            p = {"blk": b, "sh": sh}
            if b["dims"]:
                d = tuple(f"d{i}_{j}" for j in range(len(sh)))
                for dn, n in zip(d, sh):
                    coords[dn] = [f"{dn}{c}" for c in "xyzt"[:n]]
                p["dims"] = d
            n = b["nobs"]
            k = b["k"]
            size = int(np.prod(sh)) if sh else 1
            nm = b["name"]
            I = np.eye(size)
            if k == "normal":
                p.update(m0=r.normal(size=sh), s0=0.5 + r.random(), so=0.5 + r.random(), y=r.normal(size=(n, *sh)) + 1)
                for q in ("m0", "s0", "so", "y"):
                    p[q] = p[q] * b.get("unit", 1.0)
                prec = 1 / p["s0"] ** 2 + n / p["so"] ** 2
                mode = (p["m0"] / p["s0"] ** 2 + p["y"].sum(0) / p["so"] ** 2) / prec
                self.put(nm, mode, I * prec, I * prec, None)
            elif k == "gamma":
                p.update(a=2 + 3 * r.random(size=sh), b=0.5 + r.random(), y=r.poisson(3, size=(n, *sh)))
                A, B = p["a"] + p["y"].sum(0), p["b"] + n
                mode = (A - 1) / B
                self.put(nm, mode, np.diag(((A - 1) / mode**2).ravel()), np.diag((B * mode).ravel()), "log")
                self.support[nm] = (0, np.inf)
            elif k == "beta":
                p.update(a=2 + r.random(size=sh), b=2 + r.random(size=sh), y=r.integers(0, 2, size=(n, *sh)))
                A, B = p["a"] + p["y"].sum(0) - 1, p["b"] + n - p["y"].sum(0) - 1
                mode = A / (A + B)
                self.put(nm, mode, np.diag((A / mode**2 + B / (1 - mode) ** 2).ravel()), np.diag(((A + B + 2) * mode * (1 - mode)).ravel()), "logodds")
                self.support[nm] = (0, 1)
            elif k == "uniform":
                p.update(lo=-4.0, hi=9.0, so=0.4 + 0.4 * r.random(), y=r.normal(size=(n, *sh)) * 0.5 + 1 + r.random())
                mode = p["y"].mean(0)
                pr = (mode - p["lo"]) / (p["hi"] - p["lo"])
                w = (p["hi"] - p["lo"]) * pr * (1 - pr)
                self.put(nm, mode, I * n / p["so"] ** 2, np.diag((n * w**2 / p["so"] ** 2 + 2 * pr * (1 - pr)).ravel()), ("interval", p["lo"], p["hi"]))
                self.support[nm] = (p["lo"], p["hi"])
            elif k == "mvn":
                L = r.normal(size=(size, size))
                p.update(m0=r.normal(size=sh), cov=L @ L.T + 0.3 * np.eye(size))
                Pm = np.linalg.inv(p["cov"])
                self.put(nm, p["m0"], Pm, Pm, None)
            elif k == "dirichlet":
                p.update(a=2 + 3 * r.random(size=sh))
                self.put(nm, (p["a"] - 1) / (p["a"] - 1).sum(), None, None, "simplex")
                self.support[nm] = (0, 1)
            elif k == "regress":
                n = n + 2
                p.update(x=r.normal(size=n) + 1, y=r.normal(size=n), s0=1 + r.random(), so=0.5 + r.random())
                D = np.stack([np.ones(n), p["x"]], 1)
                prec = np.eye(2) / p["s0"] ** 2 + D.T @ D / p["so"] ** 2
                mode = np.linalg.solve(prec, D.T @ p["y"] / p["so"] ** 2)
                self.put(nm, mode[0], prec[:1, :1], prec[:1, :1], None)
                self.put(b["name2"], mode[1], prec[1:, 1:], prec[1:, 1:], None)
                for tab in (self.prec, self.uprec):
                    tab[nm, b["name2"]] = prec[:1, 1:]
                    tab[b["name2"], nm] = prec[1:, :1]
            P.append(p)
        self.P = P
        built = {}
        with pm.Model(coords=coords) as model:
            for i, j in spec["order"]:
                p = P[i]
                b, sh = p["blk"], p["sh"]
                kw = {"dims": p["dims"]} if "dims" in p else {"shape": sh}
                nm, k = b["name"], b["k"]
                if k == "normal":
                    v = pm.Normal(nm, p["m0"], p["s0"], **kw)
                    pm.Normal("y_" + nm, v, p["so"], observed=pm.Data("d_" + nm, p["y"]) if b.get("data") else p["y"])
                elif k == "gamma":
                    v = pm.Gamma(nm, p["a"], p["b"], **kw)
                    pm.Poisson("y_" + nm, v, observed=p["y"])
                elif k == "beta":
                    v = pm.Beta(nm, p["a"], p["b"], **kw)
                    pm.Bernoulli("y_" + nm, v, observed=p["y"])
                elif k == "uniform":
                    v = pm.Uniform(nm, p["lo"], p["hi"], **kw)
                    pm.Normal("y_" + nm, v, p["so"], observed=p["y"])
                elif k == "mvn":
                    v = pm.MvNormal(nm, p["m0"], p["cov"], **kw)
                elif k == "dirichlet":
                    v = pm.Dirichlet(nm, p["a"], **kw)
                elif k == "regress":
                    v = pm.Normal(nm if j == 0 else b["name2"], 0, p["s0"])
                    built[i, j] = v
                    if (i, 0) in built and (i, 1) in built:
                        x = pm.Data("x_" + nm, p["x"])
                        pm.Normal("y_" + nm, built[i, 0] + built[i, 1] * x, p["so"], observed=p["y"])
                if b["det"] and j == 0:
                    pm.Deterministic("det_" + nm, v * 2 + 1)
                    self.dets["det_" + nm] = nm
                self.names.append(nm if j == 0 else b["name2"])
                if "dims" in p:
                    self.dims[nm] = p["dims"]
        self.model = model
        self.coords = coords

    def redata(self, seed):
        """New observations for the blocks that hold theirs in pm.Data."""
        for p in self.P:
            b = p["blk"]
            if not b.get("data"):
                continue
            p["y"] = np.random.default_rng((seed, b["seed"])).normal(size=p["y"].shape) * b.get("unit", 1.0) * 3
            prec = 1 / p["s0"] ** 2 + b["nobs"] / p["so"] ** 2
            mode = (p["m0"] / p["s0"] ** 2 + p["y"].sum(0) / p["so"] ** 2) / prec
            self.mode[b["name"]] = self.umode[b["name"]] = np.asarray(mode, float)
            with self.model:
                pm.set_data({"d_" + b["name"]: p["y"]})

    def put(self, name, mode, prec, uprec, transform):
        self.mode[name] = np.asarray(mode, float)
        self.transform[name] = transform
        self.prec[name, name] = prec
        self.uprec[name, name] = uprec
        self.umode[name] = self.forward(name, self.mode[name])

    def value_name(self, name):
        t = self.transform[name]
        if t is None:
            return name
        t = t if isinstance(t, str) else t[0]
        return f"{name}_{t}__"

    def forward(self, name, x):
        t = self.transform[name]
        if t is None:
            return x
        if t == "log":
            return np.log(x)
        if t == "logodds":
            return np.log(x / (1 - x))
        if t == "simplex":
            l = np.log(x)
            n = l.shape[-1]
            return l[..., :-1] - l.sum(-1, keepdims=True) / n
        _, lo, hi = t
        return np.log((x - lo) / (hi - x))

    def full(self, unconstrained, order=None):
        """Mean vector, covariance and the (name, index) label of every row."""
        order = order or self.names
        tab = self.uprec if unconstrained else self.prec
        sizes = [self.mode[n].size for n in order]
        off = np.concatenate([[0], np.cumsum(sizes)]).astype(int)
        M = np.zeros((off[-1], off[-1]))
        for i, a in enumerate(order):
            for j, b in enumerate(order):
                if (a, b) in tab:
                    M[off[i]:off[i + 1], off[j]:off[j + 1]] = tab[a, b]
        mean = np.concatenate([np.ravel(self.umode[n] if unconstrained else self.mode[n]) for n in order])
        labels = []
        for n in order:
            nm = self.value_name(n) if unconstrained else n
            sh = self.mode[n].shape
            if not sh:
                labels.append(nm)
            else:
                for ix in np.ndindex(sh):
                    l = [self.coords[d][i] for d, i in zip(self.dims[n], ix)] if n in self.dims else ix
                    labels.append(f"{nm}[{','.join(map(str, l))}]")
        return mean, np.linalg.inv(M), labels

    def fingerprint(self):
        m = self.model
        return (tuple(v.name for v in m.free_RVs), tuple(v.name for v in m.value_vars), tuple(v.name for v in m.deterministics), tuple(v.name for v in m.observed_RVs),
                tuple((k, tuple(v) if v is not None else None) for k, v in m.coords.items()), tuple(sorted((k, tuple(v)) for k, v in m.named_vars_to_dims.items())),
                tuple((k.name, v.name) for k, v in m.rvs_to_values.items()))
