#!/bin/bash
# tools/mut.sh FILE 'python expr replacing s' MODULE [substr]: verify contracts on a mutated copy
W=$(mktemp -d /tmp/mutXXXX); cp -a /repo/. $W
python3 - "$W/$1" "$2" "$3" <<'P'
import sys
f,a,b=sys.argv[1:]
s=open(f).read(); assert s.count(a)>=1,(f,a); open(f,'w').write(s.replace(a,b,1))
P
[ $? = 0 ] || exit 1
PYVC_REPO=$W T=${T:-300} python3-vt $(dirname $0)/par.py $4 "$5" 2>&1 | cut -c1-200 | tail -${N:-12}
case $W in /tmp/mut*) rm -rf "$W";; esac
