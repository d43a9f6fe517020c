#!/bin/bash
# run all value/judge properties on one configuration substring: tools/all.sh <substr>
for p in ${P:-C02 C03 C04 C05 C06 C07 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C33}; do PPS_EVIDENCE=/tmp/ev python3 -m pps.run $p -v --case "$1" | grep -v "^  [0-9.]*s " | grep -v ": 0 configurations, 0 obl\|ANALYSIS-BROKEN: no obl" | head -${L:-4}; done
