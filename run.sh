#!/bin/bash
# run.sh Cxx [--tier quick|thorough] | run.sh replay FILE
cd "$(dirname "$0")" || exit 3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export VERIF_REPO="${VERIF_REPO:-/repo}"
exec /opt/venv/bin/python -W ignore -m symex.run "$@"
