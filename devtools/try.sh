#!/bin/bash
# try.sh SEED...: does the check of the seed's property catch it? (in a scratch copy)
for s in "$@"; do
 d=/verif/seeded/$s; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 W=/tmp/try.$$; cp -a /repo $W; git -C $W apply $d/patch.diff || echo "does not apply"
 t=$(date +%s); VERIF_REPO=$W python3 /verif/bin/vp.py check $p > /tmp/try.out 2>&1; rc=$?
 echo "$s $p rc=$rc $(($(date +%s)-t))s $(grep -m1 VIOLATION /tmp/try.out | cut -c1-100)"
 rm -rf "$W"
done
