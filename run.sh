#!/bin/bash
# usage: run.sh <property id> [quick|thorough]
cd "$(dirname "$0")" || exit 2
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
id=$(echo "$1" | tr 'A-Z' 'a-z'); shift
exec /opt/venv/bin/python -B -W ignore -m mc.$id "$@"
