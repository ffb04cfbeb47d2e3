"""Writes MANIFEST.json: a property is claimed when contracts/<id>*.py exists."""
import json, pathlib, sys
ROOT = pathlib.Path(__file__).resolve().parents[1]
NOTES = json.loads((ROOT / "tools" / "levels.json").read_text())
props = [json.loads(l) for l in (ROOT / "properties.jsonl").read_text().splitlines() if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if list((ROOT / "contracts").glob(i.lower() + "*.py")):
        n = NOTES.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": f"/opt/venv/bin/python -m dv.run {i} --tier quick",
            "thorough_cmd": f"/opt/venv/bin/python -m dv.run {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": n.get("technique", "contract-based deductive verification (verification conditions from symbolic execution of the real functions, z3), with run-time contract checks on the real code as the bounded stand-in"),
            "level": n.get("level", "proof"),
            "level_note": n.get("note", "Contracts on the real functions discharged by z3; xarray/pandas/numpy/pyomo operations are assumed library contracts (dv/arr.py, dv/trust.py); floats treated as reals; parts outside the verifier's reach are bounded run-time contract checks, labelled bounded."),
        })
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "not claimed yet: contracts not yet written")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -m compileall -q dv contracts", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. All checks import calliope from /repo/src; no hooks in /repo are needed."}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed,", len(na), "not")
