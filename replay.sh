#!/bin/bash
# bash replay.sh <replay file> [--trace]
f=$(realpath "$1"); shift
cd "$(dirname "$(realpath "$0")")" || exit 2
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg LC_ALL=C.UTF-8
exec /opt/venv/bin/python -B -m dst.run replay "$f" "$@"
