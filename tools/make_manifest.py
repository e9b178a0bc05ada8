"""Write MANIFEST.json from the check modules which exist."""
import json
import re
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (ROOT / "properties.jsonl").read_text().splitlines() if x.strip()]
NOTES = json.loads((ROOT / "tools" / "level_notes.json").read_text()) if (ROOT / "tools" / "level_notes.json").exists() else {}
checks, na = [], []
for prop in props:
    pid = prop["id"]
    path = ROOT / "vf" / "checks" / f"{pid.lower()}.py"
    if not path.exists():
        na.append(dict(property=pid, reason="check under construction"))
        continue
    doc = re.match(r'"""(.*?)"""', path.read_text(), re.S).group(1).strip().replace("\n", " ")
    note = NOTES.get(pid, {})
    checks.append(dict(
        property=pid, quick_cmd=f"./check {pid} quick", thorough_cmd=f"./check {pid} thorough",
        evidence_file=f"evidence/{pid}.json",
        technique=note.get("technique", "runtime monitoring: seeded hostile workloads on the real code, judged by reference-model monitors"),
        level=note.get("level", "exploration"),
        level_note=note.get("note", f"Held on the executions of the run ({doc}); says nothing about inputs outside the generators. Trusts NumPy/SciPy/pandas as reference arithmetic."),
    ))
out = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python -c \"import numpy, pandas, scipy, tables, h5py\"",
    checks=checks, not_applicable=na,
    notes="All checks run from the working tree of /repo: sources are compiled afresh in each run, no byte code is read. "
          "./check PROP quick --replay FILE replays a violation.",
)
(ROOT / "MANIFEST.json").write_text(json.dumps(out, indent=1) + "\n")
print(len(checks), "checks;", len(na), "not claimed")
