#!/bin/sh
# check.sh <property> [quick|thorough]: decides one property on the working tree of /repo.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 HYPOTHESIS_STORAGE_DIRECTORY=/tmp/vf_hypothesis_unused
exec /opt/venv/bin/python -W ignore -m vf.run "$1" --tier "${2:-quick}"
