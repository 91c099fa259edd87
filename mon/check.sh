#!/bin/bash
# usage: check.sh <PROPERTY> <quick|thorough> [--n N | --only i,j | --replay FILE]
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$here/.."
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$here/..:${MON_REPO:-/repo}"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONWARNINGS=ignore
scratch="$(mktemp -d /tmp/mon.XXXXXX)"
export MON_SCRATCH="$scratch" TMPDIR="$scratch" PYTHONPYCACHEPREFIX="$scratch/pyc"
trap 'rm -rf "$scratch"' EXIT
py=/opt/venv/bin/python
"$py" "$here/run.py" "$@"
exit $?
