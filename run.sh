#!/bin/bash
# usage: run.sh PNN [quick|thorough] [--replay FILE]
cd "$(dirname "$(readlink -f "$0")")"
export JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
export TF_CPP_MIN_LOG_LEVEL=3
exec /opt/venv/bin/python -W ignore -m vp "$@"
