#!/bin/bash
# runs a script with the checks' environment (development helper)
HERE="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 JAX_PLATFORMS=cpu PYTHONPATH="$HERE"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLCONFIGDIR="$HERE/evidence/.mpl"
exec /opt/venv/bin/python "$@"
