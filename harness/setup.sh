#!/bin/bash
# Nothing to build: a smoke test that the package can be imported with the basis data.
here=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$here/evidence"
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '$here/harness')
import wload
try:
    wload.load(); print('wilson imported from', wload.REPO)
except Exception as e:
    print('import failed:', e)   # each check reports it
"
exit 0
