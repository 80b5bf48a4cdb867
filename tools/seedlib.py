"""Make a planted bug: seed(id, prop, [(file, old, new)...], demo, needs, breaks)."""
import json
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
DEMO_SH = """#!/bin/sh
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""


def seed(id, prop, edits, demo, needs, breaks):
    d = os.path.join(VERIF, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tmp = tempfile.mkdtemp(prefix="seedlib-")
    try:
        w = os.path.join(tmp, "r")
        subprocess.check_call(["git", "clone", "-q", "/repo", w])
        for file, old, new in edits:
            p = os.path.join(w, file)
            s = open(p).read()
            assert s.count(old) == 1, (file, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w, "diff"])
    finally:
        shutil.rmtree(tmp)
    with open(os.path.join(d, "patch.diff"), "wb") as f:
        f.write(diff)
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write(DEMO_SH)
    with open(os.path.join(d, "demo.py"), "w") as f:
        f.write(demo.lstrip())
    if "demoworld" in demo:
        shutil.copy(os.path.join(HERE, "demoworld.py"), d)
    with open(os.path.join(d, "meta.json"), "w") as f:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1)
        f.write("\n")
    print("seeded", id)
