#!/bin/bash
# bash run.sh <property id> [quick|thorough]
# Runs one check against the working tree of /repo.  Everything the code under
# test may write (parser caches, database folders) goes to a scratch directory.
cd "$(dirname "$(realpath "$0")")" || exit 3
ID=${1:?property id}
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_SEED=${VERIF_SEED:-1}
SCRATCH=$(mktemp -d /tmp/ieml-mc.XXXXXXXX) || exit 3
trap 'rm -rf "$SCRATCH"' EXIT
trap 'exit 143' TERM INT
export MC_SCRATCH=$SCRATCH HOME=$SCRATCH/home TMPDIR=$SCRATCH/tmp
export XDG_CACHE_HOME=$SCRATCH/cache XDG_DATA_HOME=$SCRATCH/data
mkdir -p "$HOME" "$TMPDIR" "$XDG_CACHE_HOME" "$XDG_DATA_HOME"
export LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo:$PWD PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 GIT_CONFIG_NOSYSTEM=1
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
/opt/venv/bin/python -m mc "$ID"
