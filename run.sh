#!/bin/bash
# usage: run.sh Cxx [options]   runs one check against /repo's working tree
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
HERE="$(cd "$(dirname "$0")" && pwd)"
ID="$1"; shift
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 JAX_PLATFORMS=cpu
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 TF_NUM_INTRAOP_THREADS=1 TF_NUM_INTEROP_THREADS=1
export MPLCONFIGDIR="$HERE/evidence/.mpl"
mkdir -p "$MPLCONFIGDIR"
cd "$HERE"
/opt/venv/bin/python -m checks.$(echo "$ID" | tr 'A-Z' 'a-z') "$@"
