#!/bin/bash
# tools/mut.sh <file> <python-regex> <replacement> <check>...   : run checks against a mutated copy of /repo
f=$1; a=$2; b=$3; shift 3
D=$(mktemp -d /tmp/mut.XXXX); cp -a /repo $D/repo
python3 - "$D/repo/$f" "$a" "$b" <<'P'
import re,sys
fn,a,b=sys.argv[1:]
s=open(fn).read(); t=re.sub(a,b,s,count=1,flags=re.S)
assert s!=t,'no change'
open(fn,'w').write(t)
P
[ $? = 0 ] || { rm -rf "$D"; exit 9; }
for p in "$@"; do VERIF_REPO=$D/repo /verif/check $p | tail -3; done
rm -rf "$D"
