#!/bin/bash
# nothing is compiled: check that the interpreter, the solver and the repository can be loaded
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c "import vlib, z3, numpy, tensorflow, jax; print('z3', z3.get_version_string(), 'ok')" 
