#!/bin/bash
# bash check.sh <PROPERTY> [quick|thorough] [--runs N]
cd "$(dirname "$(realpath "$0")")" || exit 2
id=$1; tier=${2:-quick}; shift; shift
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg LC_ALL=C.UTF-8
exec /opt/venv/bin/python -B -m dst.run check "$id" --tier "$tier" "$@"
