#!/bin/bash
# check.sh <property> <quick|thorough>: seeded simulation search for one property
cd "$(dirname "$0")" || exit 2
exec "${VERIF_PY:-/opt/venv/bin/python}" -m sim.main "$@"
