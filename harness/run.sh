#!/bin/bash
# usage: run.sh <PROPERTY> <quick|thorough> [--replay FILE] [--family NAME]
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
prop="$1"; tier="$2"; shift 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -B "$here/main.py" "$prop" "$tier" "$@"
