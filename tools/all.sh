#!/bin/bash
# all.sh: discharge every claimed property's obligations and list what is not proved
cd "$(dirname "$0")"
for p in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('../MANIFEST.json'))['checks']])" 2>/dev/null || ls ../vc/specs | grep -o 'P[0-9]*'); do
  python3-vt try.py $p 2>&1 | grep -vE "^ [a-zA-Z]" > /tmp/all.$p
  echo "$p $(grep -cE '^  \[' /tmp/all.$p) open, $(grep -c UNSUPPORTED /tmp/all.$p) unsupported, $(grep -c "'unsat'" /tmp/all.$p) vacuous, $(tail -1 /tmp/all.$p | grep -oE '[0-9.]+s$')"
done
