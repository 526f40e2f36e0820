#!/bin/bash
# developer summary: run.sh PID [args]
cd $(dirname $0) && ./check.py "$@" -v > /tmp/out.$1 2>&1; rc=$?
grep -v " proved " /tmp/out.$1 | cut -c1-${COLS:-330} | head -${N:-30}
tail -1 /tmp/out.$1 | cut -c1-300; echo "rc=$rc proved=$(grep -c ' proved ' /tmp/out.$1)"
