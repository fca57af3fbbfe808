#!/bin/bash
# check.sh <property> <quick|thorough>
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0
exec python3-vt -m sa.check "$1" "$2"
