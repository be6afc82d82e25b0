#!/bin/bash
# Nothing to compile: checks that the interpreter can load the simulator and the package from /repo behind its seams.
cd "$(dirname "$(realpath "$0")")" || exit 1
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg LC_ALL=C.UTF-8
mkdir -p evidence
exec /opt/venv/bin/python -B -c "
from dst import seams
seams.install(); seams.conda_stub()
from dst import target
target.load()
print('simulator ready')
"
