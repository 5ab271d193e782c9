"""A simulation worker: a fresh interpreter executing its share of the run indices."""
from __future__ import annotations

import argparse
import faulthandler
import importlib
import json
import os
import random
import sys
import time


def load(prop):
    return importlib.import_module(f"dst.props.{prop.lower()}")


def scenarios(mod):
    return {s.name: s for s in mod.SCENARIOS}


def build_plan(mod, tier):
    plan = []
    for name, count in mod.PLAN[tier]:
        plan += [(name, j) for j in range(count)]
    return plan


def make_case(mod, prop, seed, tier, name, j):
    from .core import derive

    scn = scenarios(mod)[name]
    s = derive(prop, seed, name, j)
    rng = random.Random(s)
    case = scn.generate(rng, tier)
    case.setdefault("scenario", name)
    case.setdefault("seed", s)
    return json.loads(json.dumps(case))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--mode", default="run", choices=["run", "shrink", "replay"])
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--worker", type=int, default=0)
    ap.add_argument("--nworkers", type=int, default=1)
    ap.add_argument("--deadline", type=float, default=1e18, help="seconds from start")
    ap.add_argument("--file")
    ap.add_argument("--key")
    a = ap.parse_args()
    faulthandler.enable()

    # protocol stream: keep the real stdout for ourselves, nothing the library prints reaches it
    proto = os.fdopen(os.dup(1), "w", buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)

    def send(**kw):
        proto.write(json.dumps(kw, default=str) + "\n")
        proto.flush()

    t0 = time.monotonic()
    real_mono = time.monotonic
    from . import core

    mod = load(a.prop)
    if hasattr(mod, "setup"):
        mod.setup()
    scns = scenarios(mod)
    send(kind="ready", import_s=round(real_mono() - t0, 2))

    if a.mode == "run":
        plan = build_plan(mod, a.tier)
        for i, (name, j) in enumerate(plan):
            if i % a.nworkers != a.worker:
                continue
            if real_mono() - t0 > a.deadline:
                send(kind="budget", i=i)
                break
            case = make_case(mod, a.prop, a.seed, a.tier, name, j)
            send(kind="start", i=i)
            t1 = real_mono()
            try:
                ctx, v = core.run_case(scns[name], case)
            except core.HarnessError as e:
                send(kind="harness", i=i, case=case, err=str(e))
                continue
            rec = dict(kind="run", i=i, scenario=name, digest=ctx.digest(), events=ctx.n_events,
                       faults=ctx.faults, probes=ctx.probes, states=sorted(ctx.states),
                       sim_time=ctx.sim_time, checks=ctx.checks, wall=round(real_mono() - t1, 3))
            if v is not None:
                rec.update(violation=v.key, msg=v.msg[:1500], case=case, tail=ctx.tail[-15:])
            if j < 2:
                rec["sample"] = case
            send(**rec)
    elif a.mode == "shrink":
        doc = json.load(open(a.file))
        case = doc["cases"][-1]
        best, tried = core.minimise(scns[case["scenario"]], case, a.key, real_mono() + a.deadline)
        ctx, v = core.run_case(scns[best["scenario"]], best)
        send(kind="shrunk", case=best, tried=tried, violation=v.key if v else None,
             msg=(v.msg[:1500] if v else ""), tail=ctx.tail[-25:], digest=ctx.digest())
    else:
        doc = json.load(open(a.file))
        out = None
        for case in doc["cases"]:
            ctx, v = core.run_case(scns[case["scenario"]], case)
            out = dict(kind="replayed", violation=v.key if v else None, msg=v.msg[:1500] if v else "",
                       digest=ctx.digest(), tail=ctx.tail[-25:])
        send(**(out or {"kind": "replayed", "violation": None}))
    send(kind="done")
    proto.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
