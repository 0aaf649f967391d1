#!/bin/bash
# mut.sh <property> <file> <sed-expr>...   run a check against a mutated scratch copy of /repo's sources
P=$1; F=$2; shift 2
D=$(mktemp -d /tmp/mut.XXXXXX); mkdir $D/r; cp -a /repo/src /repo/include /repo/resources /repo/config $D/r/ 2>/dev/null; 
for e in "$@"; do
  cp /repo/$F $D/r/$F; sed -i -E "$e" $D/r/$F
  if cmp -s /repo/$F $D/r/$F; then echo "NOCHANGE $e"; continue; fi
  echo "== $e"; VC_REPO=$D/r timeout 600 python3-vt /verif/check.py $P 2>&1 | cut -c1-300 | grep -v "^  undec" | tail -4
done
rm -rf "$D"
