#!/bin/bash
# usage: fix.sh PID "what failed"  : commits the working change of /repo as a fix and records it
set -e
cd /repo
/verif/tools/t.sh | tee /tmp/t.out; grep -q "\[\] 0" /tmp/t.out || exit 1
git commit -qam "fix: $2"
echo "fixed: property=$1 $(git rev-parse --short HEAD) $2" >> /verif/known_findings.txt
tail -1 /verif/known_findings.txt
