#!/bin/bash
# mut.sh FILE 'python-expr old' 'new' CHECK...   temporarily edits /repo and runs checks
f=/repo/$1; old=$2; new=$3; shift 3
cp "$f" /tmp/mut.orig
python3 - "$f" "$old" "$new" <<'P' || { cp /tmp/mut.orig "$f"; exit 9; }
import sys
f,o,n=sys.argv[1:]
s=open(f).read()
assert s.count(o)>=1,('not found',o)
open(f,'w').write(s.replace(o,n,1))
P
for c in "$@"; do python3 /verif/run.py $c 2>&1 | head -3 | cut -c1-220; done
cp /tmp/mut.orig "$f"
