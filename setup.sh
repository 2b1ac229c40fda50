#!/bin/bash
# Nothing to compile: check that the simulator imports the code under test and repeats itself exactly.
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -B -m dst determinism 1 3
