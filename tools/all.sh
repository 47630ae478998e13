#!/bin/sh
# run every registered check in quick mode, one line each
cd "$(dirname "$0")/.." || exit 1
for p in ${*:-$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")}; do
  t=$(date +%s); python3-vt check.py $p quick > /tmp/all.$p.log 2>&1; r=$?
  echo "$p rc=$r $(( $(date +%s) - t ))s $(grep -E 'VIOLATION|KNOWN|rror' /tmp/all.$p.log | head -2)"
done
