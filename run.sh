#!/bin/bash
# run.sh C01 [--tier quick|thorough] [--only scenario] [-v]     or   run.sh --replay evidence/C01.violation0.json
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONPATH="$D"
cd "$D" && exec /opt/venv/bin/python -W ignore -m symx.run "$@"
