#!/bin/bash
# run.sh PROPERTY [tier]      runs one check against /repo's working tree (tier: VERIF_TIER or quick)
# run.sh --replay FILE        re-runs one recorded violation
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
export PYTHONHASHSEED=0 PYTHONWARNINGS=ignore PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8
export MPLBACKEND=Agg OMP_NUM_THREADS=1 PYTHONPATH="/repo/src:$here"
unset DISPLAY PYTHONSTARTUP
scratch=$(mktemp -d /tmp/gimpymc.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/tmp" "$scratch/mpl" "$scratch/pyc" "$scratch/cwd"
# a private pycache prefix: never reuse byte code compiled from another working tree
export PYTHONPYCACHEPREFIX="$scratch/pyc" MPLCONFIGDIR="$scratch/mpl" TMPDIR="$scratch/tmp" MC_SCRATCH="$scratch"
cd "$scratch/cwd" || exit 2
/opt/venv/bin/python -m mc.core "$@"
