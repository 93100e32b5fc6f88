#!/bin/bash
# run.sh <property> <quick|thorough>   or   run.sh <property> replay <file>
cd "$(dirname "$0")" || exit 2
export HOME=/root LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /usr/bin/python3 lib/main.py "$@"
