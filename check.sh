#!/bin/bash
# usage: check.sh <PROPERTY> [quick|thorough]      exit 0 = held on everything explored, 1 = VIOLATION
# Always executes the sources in /repo's current working tree: byte-code caches are bypassed.
here="$(cd "$(dirname "$0")" && pwd)"
tier="${2:-${VERIF_TIER:-quick}}"
scratch="$(mktemp -d /tmp/mc.XXXXXX)"
trap 'find "$scratch" -mindepth 0 -delete 2>/dev/null' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$scratch/pyc" PYTHONHASHSEED=0 \
       MC_SCRATCH="$scratch" OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 \
       PYTHONPATH="$here:/repo/src"
cd "$here"
py=/opt/venv/bin/python; [ -x "$py" ] || py=python3
"$py" -B -m mc.run "$1" "$tier"
