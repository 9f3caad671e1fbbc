#!/bin/bash
# check.sh ID [quick|thorough]: decide one property on the current source of /repo
cd "$(dirname "$0")/sa" || exit 1
exec python3 check.py "$1" --tier "${2:-quick}"
