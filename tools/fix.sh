#!/bin/bash
# tools/fix.sh ID "commit subject" "what failed": commit the current /repo change as a fix and record it
set -e
cd /repo && git commit -qam "fix: $2" && H=$(git rev-parse --short HEAD)
cd /verif && echo "fixed: property=$1 $H $3" >> known-findings.txt && echo "$H"
