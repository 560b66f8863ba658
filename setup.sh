#!/bin/bash
# nothing to build: the checks are pure Python and import /repo's working tree; make sure that works
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
export LD_LIBRARY_PATH=/opt/venv/lib JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c "import numpy, scipy, jax" 
