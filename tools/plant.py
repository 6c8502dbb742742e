"""Create /verif/seeded/<id>/ from a description of a change (authoring helper).

Each entry: id, property, file, old text, new text (must occur exactly once),
needs, what_it_breaks, demo (python source run with cwd /repo).  The patch is
made in a scratch copy, never in /repo.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD${PYTHONPATH:+:$PYTHONPATH}"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" "$here/demo.py"
"""


def plant(entry):
    bug, prop, edits, needs, breaks, demo = entry
    tmp = tempfile.mkdtemp(prefix="plant")
    try:
        wt = os.path.join(tmp, "w")
        subprocess.run(["git", "clone", "-q", "/repo", wt], check=True)
        for path, old, new in edits:
            full = os.path.join(wt, path)
            text = open(full).read()
            if text.count(old) != 1:
                raise SystemExit(f"{bug}: {path}: old text occurs {text.count(old)} times")
            open(full, "w").write(text.replace(old, new))
        diff = subprocess.run(["git", "-C", wt, "diff"], check=True, capture_output=True,
                              text=True).stdout
        out = os.path.join(HERE, "seeded", bug)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(demo.lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        print("planted", bug)
    finally:
        shutil.rmtree(tmp)


def main():
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from bugs import BUGS
    only = sys.argv[1:]
    for entry in BUGS:
        if not only or entry[0] in only:
            plant(entry)


main()
