#!/bin/bash
# soak: every check (or those named) under seeds $1..$2, from a copy of /verif; prints only failures
a=$1; b=$2; shift 2
here="$(cd "$(dirname "$0")/.." && pwd)"
d=$(mktemp -d /tmp/soak.XXXXXX); cp -a "$here/." "$d/"; cd "$d"
ids="${*:-$(/opt/venv/bin/python -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}"
for s in $(seq $a $b); do for p in $ids; do
 VERIF_SEED=$s timeout 900 ./check $p > out.txt 2>&1 || { echo "seed $s $p"; grep -v KNOWN out.txt | grep "failed\|Error" | head -3 | cut -c1-250; }
done; done
echo done
cd /; rm -rf "$d"
