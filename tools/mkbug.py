"""tools/mkbug.py SPEC.py: SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source).
Writes /verif/seeded/ID/{patch.diff,demo.sh,demo.py,meta.json}."""
import os, json, runpy, subprocess, sys, shutil
from pathlib import Path
for spec in sys.argv[1:]:
    g = runpy.run_path(spec)
    w = Path("/tmp/mkbug"); shutil.rmtree(w, ignore_errors=True)
    shutil.copytree(os.environ.get("BASE", "/repo"), w, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", ".venv"))
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=w, check=True)
    for f, old, new in g["EDITS"]:
        p = w / f
        s = p.read_text()
        assert s.count(old) == 1, (spec, f, s.count(old), old)
        p.write_text(s.replace(old, new))
    d = Path("/verif/seeded") / g["ID"]
    d.mkdir(parents=True, exist_ok=True)
    diff = subprocess.run(["git", "diff"], cwd=w, check=True, capture_output=True, text=True).stdout
    (d / "patch.diff").write_text(diff)
    (d / "demo.py").write_text(g["DEMO"].lstrip("\n"))
    if "from helper import" in g["DEMO"]:
        shutil.copy("/verif/tools/demo_helper.py", d / "helper.py")
    (d / "demo.sh").write_text('#!/bin/bash\n# exit 0: property holds; nonzero: broken\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg LANG=C.UTF-8 LC_ALL=C.UTF-8\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    (d / "meta.json").write_text(json.dumps(dict(property=g["PROPERTY"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), indent=1) + "\n")
    shutil.rmtree(w)
    print(g["ID"])
