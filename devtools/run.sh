#!/bin/bash
# run.sh HARNESS CASE args...: run one case, no debugger
h=$1; c=$2; shift 2
b=$(cd /verif/bin && python3 -c "
import sys; sys.path.insert(0,'/verif')
import vpbuild; from checks import HARNESSES
print(vpbuild.build('$h',HARNESSES['$h']))" | tail -1)
d=/dev/shm/vscratch_run_$$; mkdir -p $d; cd $d
SCHEDV=1 timeout ${T:-100} $b --shard 0/1 --only $c --fails 5 --scratch $d --out $d/o.json --progress $d/p "$@" 2>&1 | tail -${L:-5}
python3 -c "
import json;r=json.load(open('$d/o.json'))
for f in r['fails']: print(f['desc'],'|',f['msg'])"
/bin/rm -rf $d
