#!/bin/bash
# b.sh HARNESS args: build and run shard 0/1
cd /verif/bin; b=$(python3 -c "
import sys; sys.path.insert(0,'/verif')
import vpbuild; from checks import HARNESSES
print(vpbuild.build('$1',HARNESSES['$1']))" 2>&1 | tee /tmp/b.log | tail -1)
[ -x "$b" ] || { grep -m8 "error" /tmp/b.log || tail -5 /tmp/b.log; exit 1; }
shift; d=/dev/shm/vscratch_b_$$; mkdir -p $d; cd $d
timeout ${T:-120} $b --shard 0/1 --fails 1000 --scratch $d --out $d/o.json --progress $d/p "$@"; echo rc $?
python3 -c "
import json;r=json.load(open('$d/o.json'))
for f in r['fails'][:20]: print(f['desc'],'|',f['msg'])"
rm -rf $d
