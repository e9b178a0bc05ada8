"""Refresh the "fixed" entries of known_findings.json from the fix: commits of /repo.

Run by hand after a fix commit; the checks only read known_findings.json.
"""
import json
import subprocess
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
PROPS = json.loads((ROOT / "tools" / "fix_props.json").read_text())
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h%x09%s", "--reverse"], capture_output=True, text=True).stdout
path = ROOT / "known_findings.json"
known = json.loads(path.read_text())
keep = [x for x in known["findings"] if x.get("status") != "fixed"]
missing = []
for line in log.splitlines():
    commit, subject = line.split("\t", 1)
    if not subject.startswith("fix:"):
        continue
    what = subject[4:].strip()
    prop = next((p for key, p in PROPS.items() if what.startswith(key)), None)
    if prop is None:
        missing.append(what)
        continue
    keep.append(dict(id=f"fixed-{commit}", property=prop, mech="", status="fixed", commit=commit, what=what,
                     line=f"fixed: property={prop} {commit} {what}"))
known["findings"] = keep
path.write_text(json.dumps(known, indent=1) + "\n")
print(len(keep), "entries; without property:", missing)
