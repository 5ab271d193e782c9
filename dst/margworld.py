"""Random hierarchical models with finite discrete variables, built from a JSON description."""
import itertools

import numpy as np
import pymc as pm
import pytensor.tensor as pt

from pymc_extras.distributions import DiscreteMarkovChain
from pymc_extras.model.marginal.marginal_model import MarginalModel

SHAPES = [[], [], [2], [3], [2, 2], [2, 3], [2, 2, 2]]
MAXCONF = 600


def nconf(d):
    return d["K"] ** int(np.prod(d["shape"], dtype=int))


def gen_spec(rng, hostile=True, chains=True, plain=False):
    """hostile: also things that cannot be marginalized."""
    while True:
        spec = _gen(rng, hostile, chains, plain)
        tot = 1
        for d in spec["disc"]:
            tot *= nconf(d)
        if tot <= MAXCONF:
            spec["nconf"] = tot
            return spec


def _gen(rng, hostile, chains, plain):
    batch = rng.choice(SHAPES)
    disc, deps = [], []
    dmc_hard = False
    nd = rng.choice([1, 2, 2, 3])
    for i in range(nd):
        kind = rng.choice(["bern", "bern", "cat", "du"])
        shape = rng.choice([batch, batch, []])
        parents = [d for d in disc if d["shape"] == [] or d["shape"] == shape]
        par = rng.choice(parents)["name"] if parents and rng.random() < 0.5 and kind != "du" else None
        K = {"bern": 2, "cat": rng.choice([2, 3]), "du": rng.choice([2, 3])}[kind]
        d = dict(name=f"x{i}", k=kind, shape=shape, K=K, lo=rng.choice([0, 0, -1, 2]) if kind == "du" else 0, parent=par, ns=rng.randrange(10**6),
                 dims=rng.random() < 0.3)
        disc.append(d)
    if chains and rng.random() < 0.2:
        dmc_hard = True
        disc = [dict(name="x0", k="dmc", shape=rng.choice([[3], [4], [2, 3]]), K=2, lo=0, parent=None, ns=rng.randrange(10**6), dims=False)] + \
               ([d for d in disc[1:2] if d["shape"] == [] and d["parent"] is None])
        batch = disc[0]["shape"]
    used = set()
    ny = rng.choice([1, 1, 2, 3])
    for j in range(ny):
        compat = [d for d in disc if d["shape"] in ([], batch)]
        ps = sorted(rng.sample([d["name"] for d in compat], min(len(compat), rng.choice([1, 1, 2, 3]))))
        deps.append(dep(rng, f"y{j}", ps, batch, disc, hostile, plain))
        used.update(ps)
    for d in disc:
        if d["name"] not in used and rng.random() < 0.9:
            deps.append(dep(rng, f"y{len(deps)}", [d["name"]], d["shape"], disc, hostile, plain))
    spec = dict(disc=disc, deps=deps, batch=batch, det=None, pot=None, interval=rng.random() < 0.1, cont=rng.random() < 0.7,
                chain_y=rng.random() < 0.3, zeros=rng.random() < (0.7 if dmc_hard else 0.3), sharp=rng.choice([0, 30, 100] if dmc_hard else [0, 0, 0, 30, 100]))
    if hostile and rng.random() < 0.12:
        spec["det"] = rng.choice(disc)["name"]
    if hostile and rng.random() < 0.12:
        spec["pot"] = rng.choice(disc)["name"]
    return spec


def dep(rng, name, parents, batch, disc, hostile, plain):
    b = [] if all(next(d for d in disc if d["name"] == p)["shape"] == [] for p in parents) else batch
    perm = list(range(len(b)))
    is_dmc = any(d["k"] == "dmc" for d in disc)
    if rng.random() < 0.6 and not is_dmc and not plain:
        rng.shuffle(perm)
    op = "plain"
    if hostile and len(b) and rng.random() < 0.15:
        op = rng.choice(["sum0", "sumlast", "index", "flip", "mean"])
    return dict(name=name, parents=parents, b=b, perm=perm, left=rng.choice([0, 0, 2]) if not plain else 0, right=rng.choice([0, 0, 3]) if not plain else 0, op=op,
                dist=rng.choice(["normal", "normal", "normal", "poisson", "mv", "expo"]) if not plain else "normal", obs=rng.random() < 0.6, table=rng.random() < 0.4,
                ns=rng.randrange(10**6), scale_dep=rng.random() < 0.3, missing=False)


def build(spec, cls=None):
    cls = cls or MarginalModel
    coords = {}
    for d in spec["disc"]:
        if d["dims"]:
            for ax, s in enumerate(d["shape"]):
                coords[f"{d['name']}_dim{ax}"] = [f"c{q}" for q in range(s)]
    with cls(coords=coords or None) as m:
        mu = pm.Normal("mu", 0.3, 1.1) if spec["cont"] else pt.constant(0.2)
        sd = (pm.Uniform("sd", 0.3, 2.0) if spec["interval"] else pm.HalfNormal("sd", 1.0)) if spec["cont"] else pt.constant(0.8)
        env = {}
        for d in spec["disc"]:
            r = np.random.default_rng(d["ns"])
            kw = {"shape": tuple(d["shape"])}
            if d["dims"] and d["shape"]:
                kw = {"dims": tuple(f"{d['name']}_dim{ax}" for ax in range(len(d["shape"])))}
            par = env.get(d["parent"])
            if d["k"] == "bern":
                p = r.uniform(0.2, 0.8, size=3)
                pp = pt.constant(p)[par % 3] if par is not None else (pt.sigmoid(mu + r.normal()) if r.random() < 0.4 else r.uniform(0.2, 0.8, size=tuple(d["shape"])))
                env[d["name"]] = pm.Bernoulli(d["name"], pp, **kw)
            elif d["k"] == "cat":
                t = r.dirichlet(np.ones(d["K"]) * 2, size=3)
                if spec.get("zeros"):
                    t[1, 0], t[1, -1] = 0.0, t[1, 0] + t[1, -1]
                pp = pt.constant(t)[par % 3] if par is not None else t[0]
                env[d["name"]] = pm.Categorical(d["name"], p=pp, **kw)
            elif d["k"] == "du":
                env[d["name"]] = pm.DiscreteUniform(d["name"], d["lo"], d["lo"] + d["K"] - 1, **kw)
            else:
                P = r.dirichlet(np.ones(d["K"]) * 2, size=d["K"])
                if spec.get("zeros"):
                    P[1, 0], P[1, -1] = 0.0, P[1, 0] + P[1, -1]
                init = pm.Categorical.dist(p=r.dirichlet(np.ones(d["K"]) * 2))
                env[d["name"]] = DiscreteMarkovChain(d["name"], P=pt.constant(P), init_dist=init, shape=tuple(d["shape"]))
        prev = None
        for y in spec["deps"]:
            r = np.random.default_rng(y["ns"])
            loc = mu * (1.0 if y["dist"] != "poisson" else 0.3)
            scale = sd
            for pn in y["parents"]:
                d = next(q for q in spec["disc"] if q["name"] == pn)
                x = env[pn]
                if len(d["shape"]) == len(y["perm"]) and d["shape"]:
                    if y["op"] == "sum0":
                        x = x.sum(axis=0)
                    elif y["op"] == "mean":
                        x = x.mean()
                    elif y["op"] == "sumlast":
                        x = x.sum(axis=-1)
                    elif y["op"] == "index":
                        x = x[0]
                    elif y["op"] == "flip":
                        x = x[::-1]
                    elif y["perm"] != sorted(y["perm"]):
                        x = x.transpose(*y["perm"])
                    if y["right"]:
                        x = pt.shape_padright(x)
                w = r.normal(size=4)
                if y["table"] and y["op"] in ("plain", "flip", "index"):
                    f = pt.constant(w)[x - d["lo"]]
                else:
                    f = w[0] * x + 0.3 * w[1] * x**2
                loc = loc + f
                if y["scale_dep"]:
                    scale = scale * (1 + 0.3 * (x - d["lo"]))
            b = [y["b"][q] for q in y["perm"]]
            if y["op"] == "sum0" or y["op"] == "index":
                b = y["b"][1:]
            elif y["op"] == "sumlast":
                b = y["b"][:-1]
            elif y["op"] == "mean":
                b = []
            elif y["op"] == "flip":
                b = list(y["b"])
            shape = tuple(([y["left"]] if y["left"] else []) + list(b) + ([y["right"]] if y["right"] else []))
            if prev is not None and spec["chain_y"] and y["dist"] != "poisson":
                loc = loc + 0.3 * pt.tanh(prev.sum())
            if y["dist"] == "normal":
                val = r.normal(size=shape) + 0.5
                if spec.get("sharp"):  # observations that leave next to no doubt about the discrete variables
                    loc = loc * spec["sharp"]
                    val = val + spec["sharp"] * r.normal(size=shape)
                v = pm.Normal(y["name"], loc, scale, shape=shape, observed=val if y["obs"] else None)
            elif y["dist"] == "expo":
                val = r.exponential(size=shape)
                v = pm.Exponential(y["name"], pt.exp(pt.clip(loc, -3, 3)), shape=shape, observed=val if y["obs"] else None)
            elif y["dist"] == "poisson":
                val = r.poisson(2.0, size=shape)
                v = pm.Poisson(y["name"], pt.exp(pt.clip(loc, -3, 3)), shape=shape, observed=val)
            else:
                val = r.normal(size=(*shape, 2))
                cov = np.array([[1.0, 0.3], [0.3, 0.8]])
                v = pm.MvNormal(y["name"], pt.shape_padright(loc + pt.zeros(shape)) * np.array([1.0, -0.5]), cov, shape=(*shape, 2), observed=val if y["obs"] else None)
            prev = v
        if spec["det"]:
            pm.Deterministic("det", env[spec["det"]] * 2.0)
        else:
            pm.Deterministic("det_free", mu * 2)
        if spec["pot"]:
            pm.Potential("pot", env[spec["pot"]].sum() * 0.37)
        else:
            pm.Potential("pot_free", -(mu**2))
    return m


def domain(d):
    return [d["lo"] + k for k in range(d["K"])]


class Table:
    """Joint log density of the plain model at one continuous point, for every discrete configuration."""

    def __init__(self, spec, pseed):
        self.spec = spec
        m = build(spec, pm.Model)
        self.point = point(m, spec, pseed)
        fn = m.compile_logp(mode="FAST_COMPILE")
        names = [d["name"] for d in spec["disc"]]
        self.names = names
        self.axes = {}
        grids = []
        for d in spec["disc"]:
            size = int(np.prod(d["shape"], dtype=int))
            grids.append([np.array(c, dtype="int64").reshape(d["shape"]) for c in itertools.product(domain(d), repeat=size)])
        self.grids = dict(zip(names, grids))
        self.lp = np.empty([len(g) for g in grids])
        for ix in np.ndindex(*self.lp.shape):
            pt_ = dict(self.point)
            for n, g, i in zip(names, grids, ix):
                pt_[n] = g[i]
            self.lp[ix] = fn(pt_)

    def marginal(self, summed, values):
        """log density with `summed` names summed out, the other discretes at `values`."""
        lp = self.lp
        ix = []
        for n in self.names:
            if n in summed:
                ix.append(slice(None))
            else:
                ix.append(next(i for i, g in enumerate(self.grids[n]) if np.array_equal(g, values[n])))
        a = lp[tuple(ix)].ravel()
        mx = a.max()
        return float(mx + np.log(np.exp(a - mx).sum())) if np.isfinite(mx) else float(mx)

    def element_posterior(self, name, summed, values):
        """log p(each element of `name` = k | everything else not summed), array (*shape, K)."""
        d = next(q for q in self.spec["disc"] if q["name"] == name)
        ix = []
        for n in self.names:
            ix.append(slice(None) if n in summed or n == name else
                      next(i for i, g in enumerate(self.grids[n]) if np.array_equal(g, values[n])))
        a = self.lp[tuple(ix)]
        kept = [n for n in self.names if n in summed or n == name]
        ax = kept.index(name)
        a = np.moveaxis(a, ax, 0).reshape(len(self.grids[name]), -1)
        w = np.logaddexp.reduce(a, axis=1)
        w = w - np.logaddexp.reduce(w)
        out = np.full((*d["shape"], d["K"]), -np.inf)
        for g, wi in zip(self.grids[name], w):
            for pos in np.ndindex(*d["shape"]):
                at = pos + (int(g[pos]) - d["lo"],)
                out[at] = np.logaddexp(out[at], wi)
        return out


def point(m, spec, pseed):
    """Values of the continuous free variables in the transformed space."""
    r = np.random.default_rng(pseed)
    disc = {d["name"] for d in spec["disc"]}
    out = {}
    for rv in m.free_RVs:
        v = m.rvs_to_values[rv]
        if rv.name in disc:
            continue
        shape = tuple(int(s) for s in rv.shape.eval()) if None in v.type.shape else v.type.shape
        out[v.name] = np.asarray(0.6 * r.normal(size=shape))
    return out


def disc_values(spec, pseed):
    r = np.random.default_rng(pseed + 1)
    return {d["name"]: r.integers(d["lo"], d["lo"] + d["K"], size=d["shape"]) for d in spec["disc"]}
