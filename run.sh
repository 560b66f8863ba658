#!/bin/bash
# usage: run.sh <property id> [quick|thorough] [--replay FILE]
# Runs one check against /repo's working tree (pure Python: importing it is the build).
cd "$(dirname "$0")" || exit 2
export LD_LIBRARY_PATH=/opt/venv/lib          # libmkl_rt.so
export JAX_PLATFORMS=cpu MPLBACKEND=Agg
export MKL_NUM_THREADS=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
export PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH="$PWD:${VERIF_REPO:-/repo}"   # VERIF_REPO: development only (scratch copies with planted bugs)
unset PYTHONSTARTUP PYTHONHOME
id=$1; shift
case "$1" in quick|thorough) tier=$1; shift ;; *) tier=${VERIF_TIER:-quick} ;; esac
exec /opt/venv/bin/python -W ignore -m mc.core "$id" --tier "$tier" "$@"
