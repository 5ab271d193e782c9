"""Writes properties.jsonl and MANIFEST.json from spec.py."""
import json
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT / "tools"))
import spec  # noqa: E402

lines = []
for p in spec.P + spec.NA:
    lines.append(json.dumps(dict(
        id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
        why_tests_cant=p["tests"],
        anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                     observe_at=p.get("observe", []), hook_needed=p.get("hook")))))
(ROOT / "properties.jsonl").write_text("\n".join(lines) + "\n")
checks = []
for p in spec.P:
    checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']} --tier quick", thorough_cmd=f"./check {p['id']} --tier thorough",
                       technique=spec.TECH.format(what=p["what"], oracle=p["oracle"]), level=p["level"], level_note=p["note"]))
(ROOT / "MANIFEST.json").write_text(json.dumps(dict(
    version=1, setup_cmd="./check --setup",
    hooks=dict(guard="none", enable="no hooks were needed in /repo: every seam is patched from the outside by dst/seams.py", source_commits=[]),
    checks=checks, not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in spec.NA],
    notes="See DESIGN.md. Genuine defects repaired or recorded: known_findings.json."), indent=1) + "\n")
for p in spec.P + spec.NA:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
print(len(checks), "checks")

if "--fixes" in sys.argv:
    import subprocess

    out = []
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h%x00%s"], capture_output=True, text=True).stdout
    for line in log.splitlines():
        h, s = line.split("\0")
        if s.startswith("fix:"):
            s = s[4:].strip()
            out.append(f"fixed: property={spec.FIXES[s]} {h} {s}")
    f = ROOT / "known_findings.json"
    d = json.loads(f.read_text())
    d["fixed"] = out
    f.write_text(json.dumps(d, indent=1) + "\n")
    print(len(out), "fixes")
