#!/bin/bash
# Nothing to build: the specifications are interpreted by TLC and the harness is Python.
# Parse every specification so that a broken one is noticed before any check runs.
cd "$(dirname "$0")/spec" || exit 1
mkdir -p ../evidence ../out/replay
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
    tla2sany.SANY "$f" >/tmp/vt_sany.$$ 2>&1 || { cat /tmp/vt_sany.$$; rm -f "/tmp/vt_sany.$$"; exit 1; }
done
rm -f "/tmp/vt_sany.$$"
# compile and cache nothing else; check the interpreter finds the package
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python -c 'import swiftsimio, h5py, numpy'
