"""Driver: plan the runs of one property, farm them out, judge, minimise, replay, write evidence.

    python3 -m dst.check C01 [--tier quick|thorough] [--seed N] [--workers W]
    python3 -m dst.check C01 --replay FILE
"""
from __future__ import annotations

import argparse
import importlib.util
import json
import os
import subprocess
import sys
import threading
import time
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
REPO = os.environ.get("DST_REPO", "/repo")
PY = os.environ.get("DST_PYTHON", "/opt/venv/bin/python")


def worker_env(extra=None):
    env = dict(os.environ)
    env.update(
        PYTHONPATH=f"{REPO}:{ROOT}",
        PYTHONHASHSEED=env.get("DST_PYTHONHASHSEED", "0"),
        PYTHONDONTWRITEBYTECODE="1",
        PYTENSOR_FLAGS="cxx=,gcc__cxxflags=,compiledir=" + env.get("DST_COMPILEDIR", "/tmp/dst-compiledir-%d" % os.getpid()),
        JAX_PLATFORMS="cpu",
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
        TQDM_DISABLE="1", MPLBACKEND="Agg", HOME=env.get("HOME", "/root"),
        ARVIZ_DATA=f"/tmp/dst-arviz-{os.getpid()}",
        PYTHONWARNINGS="ignore",
    )
    env.update(extra or {})
    return env


class Worker:
    def __init__(self, args, env):
        self.p = subprocess.Popen([PY, "-m", "dst.worker", *args], stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, env=env, cwd=str(ROOT), text=True)
        self.msgs = []
        self.err = []
        self.last = None
        self.t1 = threading.Thread(target=self._out, daemon=True)
        self.t2 = threading.Thread(target=self._err, daemon=True)
        self.t1.start(); self.t2.start()

    def _out(self):
        for line in self.p.stdout:
            try:
                m = json.loads(line)
            except ValueError:
                continue
            self.last = time.monotonic()
            self.msgs.append(m)

    def _err(self):
        for line in self.p.stderr:
            self.err.append(line)
            if len(self.err) > 200:
                del self.err[:100]

    def join(self, timeout=None):
        try:
            self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            return False
        self.t1.join(10); self.t2.join(10)
        return True

    def kill(self):
        self.p.kill()
        self.p.wait()

    @property
    def done(self):
        return any(m["kind"] == "done" for m in self.msgs)


def one_shot(prop, mode, file, timeout, key=None, deadline=None):
    args = ["--prop", prop, "--mode", mode, "--file", str(file)]
    if key:
        args += ["--key", key]
    if deadline:
        args += ["--deadline", str(deadline)]
    w = Worker(args, worker_env())
    if not w.join(timeout):
        w.kill()
        return None
    for m in w.msgs:
        if m["kind"] in ("shrunk", "replayed"):
            return m
    return None


def known_findings(prop):
    f = ROOT / "known_findings.json"
    if not f.exists():
        return []
    return [k for k in json.loads(f.read_text())["findings"] if k["property"] == prop]


def matches(known, key, case):
    want = known["key"]
    if key != want and not (isinstance(want, list) and key in want):
        return False
    for path, want in (known.get("where") or {}).items():
        cur = case
        for part in path.split("."):
            if isinstance(cur, dict):
                cur = cur.get(part)
            else:
                cur = None
        if isinstance(want, list):
            if cur not in want:
                return False
        elif cur != want:
            return False
    return True


def load_meta(prop):
    """Read PLAN/META of a property module without importing the library under test."""
    path = ROOT / "dst" / "props" / f"{prop.lower()}.py"
    import ast

    tree = ast.parse(path.read_text())
    out = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            if node.targets[0].id in ("PLAN", "META"):
                out[node.targets[0].id] = ast.literal_eval(node.value)
    return out


def cleanup():
    import shutil

    for p in (f"/tmp/dst-compiledir-{os.getpid()}", f"/tmp/dst-arviz-{os.getpid()}"):
        shutil.rmtree(p, ignore_errors=True)


def do_setup():
    """Nothing to build: check that every registered check is there and that the worker starts."""
    man = json.loads((ROOT / "MANIFEST.json").read_text())
    for c in man["checks"]:
        assert {"PLAN", "META"} <= set(load_meta(c["property"])), c["property"]
    r = subprocess.run([PY, "-c", "import dst.core, dst.seams, pymc_extras; print('ok')"], env=worker_env(), cwd=str(ROOT),
                       capture_output=True, text=True, timeout=600)
    print(f"{len(man['checks'])} checks, worker: {r.stdout.strip() or r.stderr[-400:]}")
    return 0 if "ok" in r.stdout else 1


def main():
    if "--setup" in sys.argv:
        try:
            return do_setup()
        finally:
            cleanup()
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--workers", type=int, default=int(os.environ.get("DST_WORKERS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("--dump", help="write per-run digests here (determinism audit)")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    prop = a.prop.upper()
    try:
        if a.replay:
            return do_replay(prop, a.replay)
        return do_check(prop, a)
    finally:
        cleanup()


def do_replay(prop, file):
    m = one_shot(prop, "replay", file, 800)
    if m is None:
        print("replay: no answer from worker", file=sys.stderr)
        return 2
    for t in m.get("tail", []):
        print("  ", t)
    if m["violation"]:
        print(f"replayed: {m['violation']}: {m['msg']}")
        print(f"VIOLATION property={prop} replay={file}")
        return 1
    print("replayed: no violation")
    return 0


def do_check(prop, a):
    t0 = time.monotonic()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    meta = load_meta(prop)
    plan = [(n, j) for n, c in meta["PLAN"][tier] for j in range(c)]
    # quick must answer well inside 900 s even on a slow machine; thorough may take hours
    soft = 420 if tier == "quick" else float(os.environ.get("DST_THOROUGH_S", 6 * 3600))
    hard = 620 if tier == "quick" else soft + 1200
    W = max(1, min(a.workers, len(plan)))
    base = ["--prop", prop, "--seed", str(a.seed), "--tier", tier, "--nworkers", str(W),
            "--deadline", str(soft)]
    ws = [Worker([*base, "--worker", str(w)], worker_env()) for w in range(W)]
    for w in ws:
        left = hard - (time.monotonic() - t0)
        if not w.join(max(1.0, left)):
            w.kill()
    runs, viols, harness, cut = [], [], [], 0
    for idx, w in enumerate(ws):
        for m in w.msgs:
            if m["kind"] == "run":
                runs.append(m)
                if m.get("violation"):
                    viols.append((m, idx))
            elif m["kind"] == "harness":
                harness.append(m)
            elif m["kind"] == "budget":
                cut += 1
        if not w.done:
            started = [m["i"] for m in w.msgs if m["kind"] == "start"]
            harness.append(dict(err=f"worker {idx} died or was stopped, last run {started[-1:]}: "
                                    + "".join(w.err[-15:])[-1500:]))
    runs.sort(key=lambda m: m["i"])
    viols.sort(key=lambda t: t[0]["i"])
    if a.dump:
        Path(a.dump).write_text("".join(f"{m['i']} {m['scenario']} {m['digest']} {m.get('violation')}\n" for m in runs))

    known = known_findings(prop)
    known_hit = {}
    fresh = []
    for m, idx in viols:
        k = next((k for k in known if matches(k, m["violation"], m["case"])), None)
        if k is not None:
            known_hit[k["id"]] = known_hit.get(k["id"], 0) + 1
        else:
            fresh.append((m, idx))

    reported = []
    if fresh:
        seen = set()
        for m, idx in fresh:
            if m["violation"] in seen or len(reported) >= 3:
                continue
            seen.add(m["violation"])
            r = report(prop, a, tier, plan, W, m, idx, meta)
            if r:
                reported.append(r)

    wall = time.monotonic() - t0
    write_evidence(prop, tier, a.seed, meta, runs, reported, fresh, known, known_hit, wall, W, plan, cut, harness)

    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']} (id {k['id']}, hit {known_hit.get(k['id'], 0)}x in this run)")
    n_v = len(reported)
    print(f"{prop} {tier} seed={a.seed}: {len(runs)}/{len(plan)} runs, "
          f"{sum(m['checks'] for m in runs)} checks, faults {merge(runs, 'faults')}, {wall:.1f}s")
    if os.environ.get("DST_VERBOSE"):
        per = {}
        for m in runs:
            per.setdefault(m["scenario"], []).append(m["wall"])
        for k, v in per.items():
            print(f"   {k}: n={len(v)} mean={sum(v)/len(v):.2f}s max={max(v):.2f}s")
        print("   probes", merge(runs, "probes"))
    for r in reported:
        print(f"  {r['key']}: {r['msg'][:600]}")
        print(f"VIOLATION property={prop} replay={r['path']}")
    if n_v:
        return 1
    if harness:
        for h in harness[:3]:
            print("harness error:", h.get("err"), file=sys.stderr)
        return 2
    if not runs or cut and len(runs) < max(1, len(plan) // 10):
        print("too few runs completed", file=sys.stderr)
        return 2
    return 0


def merge(runs, field):
    out = {}
    for m in runs:
        for k, v in m[field].items():
            out[k] = out.get(k, 0) + v
    return dict(sorted(out.items()))


def report(prop, a, tier, plan, W, m, idx, meta):
    """Minimise, write the replay file, and make sure a fresh process reproduces it."""
    d = ROOT / "replays"
    d.mkdir(exist_ok=True)
    path = d / f"{prop}-s{a.seed}-r{m['i']}-{safe(m['violation'])}.json"
    doc = dict(property=prop, seed=a.seed, tier=tier, run=m["i"], key=m["violation"], msg=m["msg"],
               cases=[m["case"]], minimised=False)
    path.write_text(json.dumps(doc, indent=1))
    s = one_shot(prop, "shrink", path, 200, key=m["violation"], deadline=60)
    if s and s.get("violation") == m["violation"]:
        doc2 = dict(doc, cases=[s["case"]], msg=s["msg"], minimised=True, shrink_runs=s["tried"], log=s["tail"])
        path.write_text(json.dumps(doc2, indent=1))
        r = one_shot(prop, "replay", path, 300)
        if r and r.get("violation") == m["violation"]:
            return dict(key=m["violation"], msg=s["msg"], path=str(path), reproduced=True, minimised=True)
    path.write_text(json.dumps(doc, indent=1))
    r = one_shot(prop, "replay", path, 300)
    if r and r.get("violation") == m["violation"]:
        return dict(key=m["violation"], msg=m["msg"], path=str(path), reproduced=True, minimised=False)
    # the run may depend on what its worker did before: replay that history
    sys.path.insert(0, str(ROOT))
    hist = [i for i in range(m["i"] + 1) if i % W == idx]
    doc["history_of_worker"] = dict(worker=idx, nworkers=W, indices=hist)
    code = ("import json,sys;from dst import worker as w;mod=w.load(%r);"
            "plan=w.build_plan(mod,%r);"
            "print(json.dumps([w.make_case(mod,%r,%d,%r,*plan[i]) for i in %r]))"
            % (prop, tier, prop, a.seed, tier, hist))
    out = subprocess.run([PY, "-c", code], env=worker_env(), cwd=str(ROOT), capture_output=True, text=True)
    try:
        doc["cases"] = json.loads(out.stdout.strip().splitlines()[-1])
        path.write_text(json.dumps(doc, indent=1))
        r = one_shot(prop, "replay", path, 500)
        if r and r.get("violation") == m["violation"]:
            return dict(key=m["violation"], msg=m["msg"], path=str(path), reproduced=True, minimised=False)
    except (ValueError, IndexError):
        pass
    # Observed, but not repeatable from the file: say so.  It is still a violation that was seen.
    doc["cases"] = [m["case"]]
    doc["reproduced"] = False
    path.write_text(json.dumps(doc, indent=1))
    return dict(key=m["violation"], msg="(not reproduced from its replay file) " + m["msg"], path=str(path),
                reproduced=False, minimised=False)


def safe(s):
    return "".join(c if c.isalnum() or c in "-_" else "_" for c in s)[:60]


def write_evidence(prop, tier, seed, meta, runs, reported, fresh, known, known_hit, wall, W, plan, cut, harness):
    M = meta["META"]
    states = set()
    for m in runs:
        states.update(m["states"])
    per = {}
    for m in runs:
        p = per.setdefault(m["scenario"], dict(runs=0, events=0, checks=0))
        p["runs"] += 1
        p["events"] += m["events"]
        p["checks"] += m["checks"]
    samples = [m["sample"] for m in runs if m.get("sample")]
    seen, some = set(), []
    for m in runs:
        if m.get("sample") and m["scenario"] not in seen:
            seen.add(m["scenario"])
            some.append(m["sample"])
    text = json.dumps(some)
    if len(text) > 20000:
        some = [json.loads(json.dumps(s))if len(json.dumps(s)) < 4000 else {"scenario": s.get("scenario"), "seed": s.get("seed"), "truncated": json.dumps(s)[:3000]} for s in some]
    nontrivial = {m["digest"] for m in runs if m["events"] >= M.get("min_events", 2)}
    cov = dict(
        evaluations=len(runs),
        distinct_nontrivial=len(nontrivial),
        rule=M["rule"] + " A run is non-trivial when its event log has at least %d events; runs are distinct "
             "when their event logs differ." % M.get("min_events", 2),
        samples=some or samples[:1],
        planned_runs=len(plan),
        runs_cut_by_wall_budget=len(plan) - len(runs),
        simulated_runs_per_hour=round(len(runs) / wall * 3600),
        seeds_per_hour=round(len(runs) / wall * 3600),
        simulated_time_s=round(sum(m["sim_time"] for m in runs), 3),
        simulated_time_note=M.get("sim_time", "the code under test reads no clock that this property depends on; 0 unless a simulated clock was advanced"),
        oracle_checks=sum(m["checks"] for m in runs),
        events=sum(m["events"] for m in runs),
        faults_injected=merge(runs, "faults"),
        reach_probes=merge(runs, "probes"),
        distinct_states=len(states),
        state_measure=M.get("states", "distinct (configuration, fault kind, outcome) keys recorded by the runs"),
        per_scenario=per,
        workers=W,
        real_components=M.get("real", []),
        stubbed_components=M.get("stub", []),
        known_findings={k["id"]: known_hit.get(k["id"], 0) for k in known},
        violations_reported=[dict(key=r["key"], replay=r["path"], reproduced=r["reproduced"]) for r in reported],
        harness_errors=len(harness),
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=M["level"], coverage=cov,
              assumptions=M.get("assumptions", []), wall_s=round(wall, 2), violations=len(reported))
    (ROOT / "evidence").mkdir(exist_ok=True)
    (ROOT / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str))


if __name__ == "__main__":
    sys.exit(main())
