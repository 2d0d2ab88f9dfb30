#!/bin/bash
# ./run_check.sh <property-id>   exit 0: held; 1: VIOLATION; 2: error of the check
cd "$(dirname "$0")" || exit 2
export HOME=/root LANG=C.UTF-8 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
WORK=$(mktemp -d /tmp/vf.XXXXXX) || exit 2
trap 'rm -rf "$WORK"' EXIT
# NRPy caches results on disk under keys that do not include the code: always start empty
export XDG_CACHE_HOME="$WORK/cache" TMPDIR="$WORK/t" VF_WORK="$WORK"
mkdir -p "$XDG_CACHE_HOME" "$TMPDIR"
PY=$(command -v python3-vt || echo /opt/veriftools/pyvenv/bin/python)
export PYTHONPATH="${VERIF_REPO:-/repo}:$PWD"
timeout -k 10 ${VF_TIMEOUT:-880} "$PY" - "$1" <<'P'
import sys, os
sys.path.append("/opt/venv/lib/python3.12/site-packages")
sys.setrecursionlimit(20000)
from vf import core
import traceback
try:
    rc = core.main(sys.argv[1])
except SystemExit:
    raise
except BaseException:
    traceback.print_exc()
    rc = 2
sys.stdout.flush()
os._exit(rc)
P
