#!/bin/bash
# seedrun.sh <seed> ...: apply to a scratch clone of /repo, run the property's check on it
for s in "$@"; do p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
C=/tmp/seedrun.$s; rm -rf "$C"; git clone -q /repo "$C" && git -C "$C" apply -q /verif/seeded/$s/patch.diff || { echo "$s: no apply"; continue; }
out=$(cd /verif; VERIF_REPO=$C timeout 900 python3 check.py $p 2>&1); rc=$?
rm -rf "$C"
echo "$s $p rc=$rc $(echo "$out" | grep VIOLATION) :: $(echo "$out" | grep -E '^  |failed' | head -3 | cut -c1-160)"
done
