#!/bin/bash
# bt.sh HARNESS CASE args... : backtrace of a crash (frames with their functions), without files left behind
h=$1; c=$2; shift 2
b=$(cd /verif/bin && python3 -c "
import sys; sys.path.insert(0,'/verif')
import vpbuild; from checks import HARNESSES
print(vpbuild.build('$h',HARNESSES['$h']))" | tail -1)
d=/dev/shm/vscratch_bt_$$; mkdir -p $d; cd $d
timeout ${T:-60} gdb -batch -ex run -ex bt --args $b --shard 0/1 --only $c --fails 5 --scratch $d --out $d/o.json --progress $d/p "$@" 2>&1 | grep -E "SIG|^#|terminate|assert" | cut -c1-180 | awk '!s[$2$3]++' | head -${N:-14}
/bin/rm -rf $d
