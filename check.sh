#!/bin/bash
# usage: bash check.sh ID [--args]     (VERIF_SEED, VERIF_TIER from the environment)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="${PIMON_REPO:-/repo}:$PWD" PYTHONWARNINGS=ignore
export MPLCONFIGDIR="$(mktemp -d /tmp/pimon_mpl.XXXXXX)"
[ -d /opt/vp/mplconfig ] && cp -r /opt/vp/mplconfig/. "$MPLCONFIGDIR"/ 2>/dev/null
export HOME="${HOME:-/root}"
trap 'rm -rf "$MPLCONFIGDIR"' EXIT
/opt/venv/bin/python -m pimon "$@"
