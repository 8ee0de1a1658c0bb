#!/bin/bash
# Nothing to build: cr-sparse is imported from /repo's working tree.  Verifies that.
cd "$(dirname "$0")" || exit 1
exec env JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 "${VERIF_PY:-/opt/venv/bin/python}" -c '
from sim import boot
print(boot.load())'
