#!/bin/bash
# run the last case of a replay file in-process and print its violation and log (debugging aid)
cd /verif && PYTENSOR_FLAGS=cxx= PYTHONHASHSEED=0 /opt/venv/bin/python - "$@" <<'P'
import sys, json, importlib
sys.path.insert(0, "/verif")
doc = json.load(open(sys.argv[1]))
prop = doc["property"]
from dst import core
from dst.worker import load, scenarios
mod = load(prop)
getattr(mod, "setup", lambda: None)()
case = doc["cases"][-1]
print(json.dumps(case)[:3000])
ctx, v = core.run_case(scenarios(mod)[case["scenario"]], case)
print("VIOLATION", v)
for t in ctx.tail[-12:]: print(t[:300])
P
