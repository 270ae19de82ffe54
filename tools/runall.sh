#!/bin/sh
# run every registered check (or those named), one line each
cd "$(dirname "$0")/.."
[ $# -gt 0 ] || set -- $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")
for p in "$@"; do
	s=$(date +%s)
	python3 checks/run.py $p --tier ${TIER:-quick} > /tmp/runall.$p.txt 2>&1; rc=$?
	echo "$p rc=$rc $(( $(date +%s) - s ))s $(grep -c KNOWN-FINDING /tmp/runall.$p.txt) known; $(grep -E '^C[0-9]+:' /tmp/runall.$p.txt | head -1)"
	[ $rc = 0 ] || grep -vE '^C[0-9]+:' /tmp/runall.$p.txt | head -6
done
