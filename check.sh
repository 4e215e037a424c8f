#!/bin/bash
# usage: check.sh <property> [thorough]
[ -n "$2" ] && export VERIF_TIER="$2"
cd "$(dirname "$0")" && exec python3 sa/py/main.py "$1"
