#!/bin/bash
# v.sh ID [tier]: run a check, summarise what it reports briefly
cd "$(dirname "$0")/.."; t0=$(date +%s)
./check.sh "$1" "${2:-quick}" 2>/tmp/err.$$ | cut -c1-400 | head -${3:-12}
grep -E "^(error|warning: unused)" -A7 /tmp/err.$$ | head -60; rm -f /tmp/err.$$
echo "$(( $(date +%s) - t0 )) s"
