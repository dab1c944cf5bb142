#!/bin/bash
# gdbx.sh HARNESS CASE "gdb cmds;..." args...
h=$1; c=$2; cmds=$3; shift 3
b=$(cd /verif/bin && python3 -c "
import sys; sys.path.insert(0,'/verif')
import vpbuild; from checks import HARNESSES
print(vpbuild.build('$h',HARNESSES['$h']))" | tail -1)
d=/dev/shm/vscratch_gx_$$; mkdir -p $d; cd $d
IFS=';' read -ra A <<< "$cmds"; X=(); for q in "${A[@]}"; do X+=(-ex "$q"); done
gdb -batch "${X[@]}" --args $b --shard 0/1 --only $c --fails 5 --scratch $d --out $d/o.json --progress $d/p "$@" 2>&1 | grep -v "^\[\(New\|Thread\)"
/bin/rm -rf $d
