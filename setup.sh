#!/bin/bash
# Nothing to build (pure Python); check that the interpreter and the code import.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu
PYTHONPATH=/repo:$PWD/lib /opt/venv/bin/python -W ignore -c 'import vp.core, jax, numpy, gym, s2sphere; print("ok")' 2>/dev/null
