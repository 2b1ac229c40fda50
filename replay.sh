#!/bin/bash
# Replay a violation file exactly: replay.sh <file>. Exit 1 and the VIOLATION line when it reproduces.
f=$(realpath "$1")
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -B -m dst replay "$f"
