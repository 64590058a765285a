#!/bin/bash
# every check, one after another: all.sh [quick|thorough]
cd "$(dirname "$0")/.."
for i in 01 02 03 04 05 06 07 08 09 10 11 12 13 14 15 16; do s=$(date +%s); python3 check.py C$i ${1:-quick}; echo "C$i exit $? $(( $(date +%s) - s )) s"; done
