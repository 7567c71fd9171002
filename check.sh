#!/bin/bash
# check.sh ID TIER | check.sh --replay FILE | check.sh --setup
cd "$(dirname "$0")"
if [ "${1:0:2}" = "--" ]; then exec /usr/bin/python3 tools/check.py "$@"; fi
exec /usr/bin/python3 tools/check.py "$1" --tier "${2:-quick}"
