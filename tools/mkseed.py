"""mkseed.mk(id, prop, [(file, old, new)...], needs, breaks, demo_py): writes seeded/<id>/ from replacements against /repo HEAD."""
import difflib, json, pathlib
R = pathlib.Path("/repo"); S = pathlib.Path("/verif/seeded")
def mk(id, prop, reps, needs, breaks, demo):
    d = S / id; d.mkdir(parents=True, exist_ok=True)
    files = {}
    for f, old, new in reps:
        t = files.get(f, (R / f).read_text())
        assert t.count(old) == 1, (id, f, t.count(old))
        files[f] = t.replace(old, new)
    out = ""
    for f, new in files.items():
        out += f"diff --git a/{f} b/{f}\n" + "".join(difflib.unified_diff((R / f).read_text().splitlines(True), new.splitlines(True), f"a/{f}", f"b/{f}"))
    (d / "patch.diff").write_text(out)
    (d / "demo.sh").write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$(realpath "$0")")/demo.py"\n')
    (d / "demo.py").write_text(demo.lstrip("\n"))
    (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
