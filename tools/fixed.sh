#!/bin/bash
# tools/fixed.sh ID : records the last /repo commit as a repair for property ID
c=$(git -C /repo log -1 --format=%h); m=$(git -C /repo log -1 --format=%s)
grep -q "^fixed: property=$1 $c " /verif/known_findings.txt || echo "fixed: property=$1 $c ${2:-$m}" >> /verif/known_findings.txt
