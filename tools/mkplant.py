"""Make a planted bug: mk(id, prop, file, [(old, new)...], needs, breaks, demo source)."""
import json
import os
import shutil
import subprocess
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mk(ident, prop, edits, needs, breaks, demo, snap=False):
    """edits: list of (file, old, new); old must be unique in the file."""
    tmp = tempfile.mkdtemp(prefix="mk_")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", f"{tmp}/r"], check=True)
        for f, old, new in edits:
            p = f"{tmp}/r/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (ident, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=f"{tmp}/r", capture_output=True,
                              text=True).stdout
    finally:
        shutil.rmtree(tmp)
    d = f"{V}/seeded/{ident}"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(f"{d}/meta.json", "w"), indent=1)
    open(f"{d}/demo.py", "w").write(demo.lstrip("\n"))
    open(f"{d}/demo.sh", "w").write(
        '#!/bin/bash\n# cwd: the repository under test. Exit 0 if the behaviour is right.\n'
        'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
        'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    if snap:
        shutil.copy(f"{V}/vt/snap.py", f"{d}/snapfile.py")
