#!/bin/bash
# tools/fixed.sh <property> <commit-ish> <text>: records a repair
cd /verif && echo "fixed: property=$1 $(git -C /repo rev-parse --short $2) $3" >> known_findings.txt
