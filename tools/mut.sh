#!/bin/bash
# usage: mut.sh FILE 'OLD' 'NEW' CONTRACT...   (python str.replace of the first occurrence in a scratch copy)
d=$(mktemp -d /tmp/mutXXXX); cp -a /repo/solver $d/
python3 - "$d/solver/$1" "$2" "$3" <<'P'
import sys
p,o,n=sys.argv[1:]
s=open(p).read(); assert o in s,("no match",o)
open(p,"w").write(s.replace(o,n,1))
P
f=$1; shift 3
cd /verif; for c in "$@"; do VROOT=$d BUDGET=10 timeout 600 python3-vt tools/run1.py $c 2>&1 | grep -v "'proved': [0-9]*} gen=[^U]*$" | cut -c1-260; done
rm -rf "$d"
