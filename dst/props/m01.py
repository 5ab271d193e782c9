"""M01: marginalization sums out exactly, whatever the model, the order, and the editing history."""
import numpy as np

from ..core import Scenario
from ..seams import quiet

PLAN = {
    "quick": [("edit-history", 160)],
    "thorough": [("edit-history", 20000)],
}
META = {
    "level": "exploration",
    "min_events": 3,
    "rule": "One run builds a seeded hierarchical model with Bernoulli, Categorical, DiscreteUniform and Markov-chain variables (nested, batched, "
            "transposed, indexed, shared by several dependents), then performs a seeded history of marginalize, unmarginalize, clone, convert and "
            "refused marginalizations, under a seeded iteration order of graph variables; after every step the log density is compared with full "
            "enumeration by a plain model, and the lists of variables, dims and original objects with a reference state.",
    "states": "distinct (variable kinds and ranks, marginalized set, operation, outcome) reached",
    "real": ["MarginalModel", "graph_analysis", "marginal distributions"],
    "stub": [],
    "assumptions": ["pm.Model.logp of the unmarginalized model is right", "at most 600 discrete configurations per model"],
}


def setup():
    from .. import margworld
    from pytensor.compile.mode import get_mode

    globals()["MODE"] = get_mode("FAST_COMPILE").including("local_log_sum_exp", "stabilize")

    globals()["W"] = margworld
    import pymc as pm
    from pymc_extras.model.marginal.marginal_model import MarginalModel, marginalize

    globals().update(pm=pm, MarginalModel=MarginalModel, marginalize=marginalize)


class EditHistory(Scenario):
    name = "edit-history"

    def generate(self, rng, tier):
        spec = W.gen_spec(rng)
        names = [d["name"] for d in spec["disc"]]
        ops = []
        for _ in range(rng.randint(1, 4)):
            r = rng.random()
            some = rng.sample(names, rng.randint(1, len(names)))
            if r < 0.55:
                ops.append(["marg", some, rng.choice(["names", "vars", "single"])])
            elif r < 0.75:
                ops.append(["unmarg", some, rng.choice(["names", "vars"])])
            elif r < 0.87:
                ops.append(["clone", rng.choice(["clone", "from_model", "function"]), rng.choice(["keep", "swap"]), some])
            elif spec["cont"]:
                ops.append(["bad", rng.choice(["mu", "sd", "y0"]), some])
        return dict(spec=spec, ops=ops, hash_seed=rng.randrange(10**6), pseed=rng.randrange(10**6), start=rng.choice(["MarginalModel", "Model"]))

    def execute(self, case, ctx):
        with quiet():
            self._run(case, ctx)

    def _run(self, case, ctx):
        spec = case["spec"]
        tab = W.Table(spec, case["pseed"])
        values = W.disc_values(spec, case["pseed"])
        names = [d["name"] for d in spec["disc"]]
        # every live model with the set of variables it has marginalized, as the reference state
        m = W.build(spec, MarginalModel if case["start"] == "MarginalModel" else pm.Model)
        if case["start"] == "Model":
            src = m
            dims_before = dict(src.named_vars_to_dims)
            m = MarginalModel.from_model(src)
            ctx.check(sorted(v.name for v in m.free_RVs) == sorted(v.name for v in src.free_RVs), "conversion-lost-variables", "")
        dims0 = {k: tuple(v) for k, v in m.named_vars_to_dims.items()}
        free0 = sorted(v.name for v in m.free_RVs)
        live = {"main": [m, set()]}

        def verify(why, full=("main",)):
            for key in sorted(live):
                mm, gone = live[key]
                ctx.check(sorted(v.name for v in mm.marginalized_rvs) == sorted(gone), "marginalized-set", f"{why}: {key} lists {mm.marginalized_rvs}, expected {sorted(gone)}")
                ctx.check(sorted(v.name for v in mm.free_RVs) == sorted(set(free0) - gone), "free-variables", f"{why}: {key} {mm.free_RVs}")
                dims = {k: tuple(v) for k, v in mm.named_vars_to_dims.items()}
                ctx.check(dims == {k: v for k, v in dims0.items() if k not in gone}, "dims", f"{why}: {key} has dims {dims}, marginalized {sorted(gone)}")
                if key in full:
                    p = dict(tab.point)
                    p.update({n: values[n] for n in names if n not in gone})
                    try:
                        got = float(mm.compile_logp(mode=MODE)(p))
                    except NotImplementedError:
                        # documented limit: transformed dependents with dimensions that the logp collapses
                        ctx.check(gone and any(y["dist"] == "expo" and not y["obs"] for y in spec["deps"]), "logp-refused", "")
                        ctx.fault("refused-logp")
                        continue
                    want = tab.marginal(gone, values)
                    ctx.check(bool(np.isclose(got, want, rtol=1e-7, atol=1e-7)), "marginal-logp",
                              f"{why}: {key} with {sorted(gone)} marginalized gives {got}, enumeration {want}")
                    ctx.log("logp", key, sorted(gone), round(got, 6))

        verify("start")
        for op in case["ops"]:
            mm, gone = live["main"]
            kinds = tuple(sorted((d["k"], len(d["shape"])) for d in spec["disc"]))
            if op[0] == "marg":
                todo = [n for n in op[1] if n not in gone]
                if not todo:
                    continue
                if op[2] == "single":
                    todo = todo[:1]
                arg = todo if op[2] == "names" else [mm[n] for n in todo]
                if op[2] == "single":
                    arg = mm[todo[0]]
                try:
                    mm.marginalize(arg)
                    out = "ok"
                    gone |= set(todo)
                except (NotImplementedError, ValueError) as e:
                    out = "refused"
                    ctx.fault("refused:" + type(e).__name__)
                    ctx.log("refused", todo, str(e)[:60])
                    ctx.check(refusable(spec, todo, gone), "refused-supported-model", f"marginalize({todo}) with {sorted(gone)} marginalized: {e} ({e.__cause__})")
                ctx.probe("marginalize-" + out)
                ctx.state(kinds, tuple(sorted(gone)), "marg", out)
            elif op[0] == "unmarg":
                todo = [n for n in op[1] if n in gone]
                if not todo:
                    continue
                by = {v.name: v for v in mm.marginalized_rvs}
                mm.unmarginalize(todo if op[2] == "names" else [by[n] for n in todo])
                gone -= set(todo)
                ctx.state(kinds, tuple(sorted(gone)), "unmarg")
            elif op[0] == "clone":
                if op[1] == "function":
                    todo = [n for n in op[3] if n not in gone]
                    try:
                        c = marginalize(mm, todo) if todo else mm.clone()
                        live["other"] = [c, gone | set(todo)]
                    except (NotImplementedError, ValueError) as e:
                        ctx.fault("refused:" + type(e).__name__)
                        ctx.check(refusable(spec, todo, gone), "refused-supported-model", f"marginalize(model, {todo}): {e}")
                        continue
                else:
                    c = mm.clone() if op[1] == "clone" else MarginalModel.from_model(mm)
                    live["other"] = [c, set(gone)]
                if op[2] == "swap":
                    live["main"], live["other"] = live["other"], live["main"]
                ctx.state(kinds, tuple(sorted(gone)), op[1], op[2])
            elif op[0] == "bad":
                if op[1] == "y0" and any(v.name == "y0" for v in mm.observed_RVs) or op[1] in {v.name for v in mm.free_RVs}:
                    todo = [n for n in op[2] if n not in gone] + [op[1]]
                    try:
                        mm.marginalize(todo)
                        ctx.check(False, "unsupported-marginalized", f"marginalize({todo}) was accepted")
                    except (NotImplementedError, ValueError) as e:
                        ctx.fault("refused:" + type(e).__name__)
            ctx.advance(1)
            verify(f"after {op}", full=("main", "other"))
        if case["start"] == "Model":
            ctx.check(dict(src.named_vars_to_dims) == dims_before and sorted(v.name for v in src.free_RVs) == free0, "source-model-changed",
                      "the model given to from_model changed")

    def simpler(self, case):
        s = case["spec"]
        for i in range(len(s["deps"])):
            yield {**case, "spec": {**s, "deps": s["deps"][:i] + s["deps"][i + 1:]}}
        for k, v in (("det", None), ("pot", None), ("interval", False), ("cont", False), ("chain_y", False)):
            if s[k] != v:
                yield {**case, "spec": {**s, k: v}}
        for i, y in enumerate(s["deps"]):
            for k, v in (("left", 0), ("right", 0), ("table", False), ("scale_dep", False), ("dist", "normal"), ("op", "plain"), ("obs", True)):
                if y[k] != v:
                    yield {**case, "spec": {**s, "deps": s["deps"][:i] + [{**y, k: v}] + s["deps"][i + 1:]}}


def refusable(spec, todo, gone):
    """Documented reasons to refuse: no dependents, dependent Deterministic/Potential, mixed batch dimensions, chains mixed with others."""
    if spec["det"] or spec["pot"]:
        return True
    dep = {p for y in spec["deps"] for p in y["parents"]} | {d["parent"] for d in spec["disc"] if d["parent"]}
    names = set(todo) | set(gone)
    if any(n not in dep for n in names):
        return True
    by = {d["name"]: d for d in spec["disc"]}
    if any(d["k"] == "dmc" for d in spec["disc"]):
        return True
    if any(d["parent"] and d["name"] not in names for d in spec["disc"]):
        return True   # dependents may depend on each other through a variable that stays
    batched = {n for n in names if by[n]["shape"]}
    for y in spec["deps"]:
        if y["op"] != "plain" and batched & set(y["parents"]):
            return True
        if spec["chain_y"]:
            return True   # dependents that depend on each other, or through a sum over batch dimensions
    # a batched and a scalar variable sharing dependents mix the batch dimensions of the former
    if batched and (len(names) > 1):
        return True
    return False


SCENARIOS = [EditHistory()]
