"""Writes MANIFEST.json from the checks that exist."""
import json
from pathlib import Path
HERE = Path(__file__).resolve().parent
LEVEL = "model_checking"
NOTES = json.loads((HERE / "notes.json").read_text())
checks, na = [], []
for line in (HERE / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)["id"]
    if (HERE / "harness" / "checks" / f"{p.lower()}.py").exists():
        n = NOTES[p]
        checks.append(dict(property=p, quick_cmd=f"./check {p} quick", thorough_cmd=f"./check {p} thorough",
                           technique=n["technique"], level=n.get("level", LEVEL), level_note=n["note"]))
    else:
        na.append(dict(property=p, reason=NOTES.get(p, {}).get("na", "check not built yet")))
(HERE / "MANIFEST.json").write_text(json.dumps(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na),
                                               ensure_ascii=False, indent=1) + "\n")
print(len(checks), "checks;", len(na), "not applicable")
