#!/bin/bash
# Developer tool: every contract, in parallel; prints what is not proved.
cd /verif
ls contracts/c[0-9]*.py | sed 's/.*\/\(c[0-9]*\).py/\1/' | xargs -P 6 -I{} sh -c 'timeout 800 python3-vt tools/run1.py {} > /tmp/all_{}.txt 2>&1'
for f in /tmp/all_c*.txt; do grep -H -E "UNSUPP|^    |Traceback|Error" $f | cut -c1-220; done
grep -h -c paths= /tmp/all_c*.txt | paste -sd+ | bc
