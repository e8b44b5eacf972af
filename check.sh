#!/bin/bash
# usage: check.sh <property id> [quick|thorough] [extra args]
cd "$(dirname "$0")" || exit 2
export HOME=/root PYTHONHASHSEED=0 JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
export MPLCONFIGDIR="${TMPDIR:-/tmp}/mplcfg.$$"; mkdir -p "$MPLCONFIGDIR"; trap 'rm -rf "$MPLCONFIGDIR"' EXIT
id="$1"; tier="${2:-quick}"; shift; shift
/opt/venv/bin/python -m mc "$id" --tier "$tier" "$@"
rc=$?
exit $rc
