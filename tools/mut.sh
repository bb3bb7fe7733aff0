#!/bin/bash
# developer aid: mut.sh <file under /repo> <old> <new> <PID>...   apply a textual change, run checks, undo
f=/repo/$1; a=$2; b=$3; shift 3
python3 - "$f" "$a" "$b" <<'P' || exit 3
import sys
f,a,b=sys.argv[1:4]; t=open(f).read()
assert a in t, "text not found"
open(f,'w').write(t.replace(a,b,1))
P
cd /verif
for p in "$@"; do timeout 900 python3 run.py $p quick 2>&1 | tail -3 | cut -c1-${W:-300}; done
git -C /repo checkout -q -- .
