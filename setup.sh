#!/bin/bash
# sanity of the tools the checks use: clang, Migen, Hypothesis, and the simulator itself
cd "$(dirname "$0")"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
export PYTHONPATH="${VERIF_REPO:-/repo}:$PWD"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
clang --version >/dev/null || exit 1
exec "$PY" -m vsim.selftest 60 1
