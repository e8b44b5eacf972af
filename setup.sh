#!/bin/bash
# nothing to build: the checks import /repo's working tree; verify that the interpreter can load everything
cd "$(dirname "$0")" || exit 2
mkdir -p evidence out
JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import sys; sys.path.insert(0,'/repo'); import run_time_assurance.rta, mc.core; print('ready')"
