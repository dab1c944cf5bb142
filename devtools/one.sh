#!/bin/bash
# one.sh HARNESS CASE args... : run one case under gdb
h=$1; c=$2; shift 2
b=$(cd /verif/bin && python3 -c "
import sys; sys.path.insert(0,'/verif')
import vpbuild; from checks import HARNESSES
print(vpbuild.build('$h',HARNESSES['$h']))" | tail -1)
d=/dev/shm/vscratch_one_$$; mkdir -p $d; cd $d; export SCHEDV=1
gdb -batch -ex run -ex bt --args $b --shard 0/1 --only $c --fails 5 --scratch $d --out $d/o.json --progress $d/p "$@" 2>&1 | grep -v "^\[\(New\|Thread\)" | grep -n "" | sed -n "/signal/,+14p" | cut -c1-220
python3 -c "
import json;r=json.load(open('$d/o.json'))
for f in r['fails']: print(f['desc'],'|',f['msg'])"
/bin/rm -rf $d
