#!/bin/bash
# check.sh CID [quick|thorough] [more run.py arguments] -- runs one property check against /repo
cd "$(dirname "$0")" || exit 2
export LC_ALL=C.UTF-8 TZ=UTC PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1 PYTHONNOUSERSITE=1 AWS_EC2_METADATA_DISABLED=true HOME=/root
unset PYTHONPATH VIRTUAL_ENV
if [ "$1" = "--replay" ]; then exec /opt/venv/bin/python -B dst/run.py "$@"; fi
cid=$1; tier=${2:-quick}; shift; shift
exec /opt/venv/bin/python -B dst/run.py "$cid" --tier "$tier" "$@"
