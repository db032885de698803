#!/bin/bash
# check.sh <property id>
exec python3 "$(cd "$(dirname "$0")" && pwd)/checks/run.py" "$@"
