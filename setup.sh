#!/usr/bin/env bash
# The monitors are Python and run against /repo's working tree; nothing has to be built ahead of a check.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
/opt/venv/bin/python -B -c "import numpy, scipy, pyscf, numba" || exit 1
