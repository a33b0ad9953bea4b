"""Verify planted bugs: python3 tools/plant.py ID...   (not used by any check)

For each ID copies /repo to a scratch folder, runs the demonstration there without the patch (must
exit 0), with it (must not), the stable tests with it (must pass) and the check of its property
(reported).
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, timeout=900, **env):
    e = dict(os.environ, **env)
    return subprocess.run(cmd, cwd=cwd, env=e, shell=True, capture_output=True, text=True,
                          timeout=timeout)


def stable(cwd):
    xml = os.path.join(cwd, "junit.xml")
    sh(f"{PY} -m pytest -q -p no:cacheprovider --timeout=300 --tb=line "
       f"--continue-on-collection-errors -o junit_family=xunit2 --junitxml={xml} tests", cwd,
       NUMBA_BOUNDSCHECK="1", PYTHONPATH=cwd, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
       MPLBACKEND="Agg")
    import xml.etree.ElementTree as ET
    ok = set()
    for tc in ET.parse(xml).iter("testcase"):
        if not any(x.tag in ("failure", "error", "skipped") for x in tc):
            ok.add(f'{tc.get("classname")}::{tc.get("name")}')
    return STABLE - ok


def main(ids):
    for i in ids:
        d = f"{V}/seeded/{i}"
        meta = json.load(open(f"{d}/meta.json"))
        tmp = tempfile.mkdtemp(prefix=f"plant_{i}_")
        work = f"{tmp}/repo"
        demo = f"{tmp}/demo"
        try:
            shutil.copytree("/repo", work, symlinks=True)
            shutil.copytree(d, demo)
            a = sh(f"bash {demo}/demo.sh", work)
            r = sh(f"git apply {d}/patch.diff", work)
            if r.returncode:
                print(i, "PATCH DOES NOT APPLY", r.stderr)
                continue
            b = sh(f"bash {demo}/demo.sh", work)
            print(i, "demo clean", a.returncode, "patched", b.returncode, flush=True)
            if a.returncode or not b.returncode:
                print("  clean:", a.stdout[-600:], a.stderr[-600:])
                print("  patched:", b.stdout[-600:], b.stderr[-600:])
            missing = stable(work) if "--notests" not in sys.argv else "skipped"
            print(i, "stable tests failing:", missing if missing else "none", flush=True)
            c = sh(f"{V}/run {meta['property']}", V, VT_REPO=work, VERIF_SEED="1",
                   VERIF_TIER="quick")
            line = [x for x in c.stdout.splitlines() if x.startswith("VIOLATION")][:1]
            print(i, "check", meta["property"], "exit", c.returncode, line, flush=True)
        finally:
            shutil.rmtree(tmp)


if __name__ == "__main__":
    main([a for a in sys.argv[1:] if not a.startswith("--")])
