#!/bin/bash
# run.sh Cxx [--tier T] [--replay FILE]: one check, on the bloscpack sources in /repo (MC_REPO overrides)
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LANG=C.UTF-8 HOME=${HOME:-/root}
unset BLOSC_NTHREADS BLOSC_CLEVEL BLOSC_SHUFFLE BLOSC_TYPESIZE BLOSC_COMPRESSOR BLOSC_BLOCKSIZE BLOSC_SPLITMODE BLOSC_NOLOCK PYTHONPATH
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -B "$here/run.py" "$@"
