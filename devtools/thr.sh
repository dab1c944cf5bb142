h=$1; c=$2; shift 2
b=$(cd /verif/bin && python3 -c "
import sys; sys.path.insert(0,'/verif')
import vpbuild; from checks import HARNESSES
print(vpbuild.build('$h',HARNESSES['$h']))" | tail -1)
d=/dev/shm/vscratch_one_$$; mkdir -p $d; cd $d
gdb -batch -ex "catch throw" -ex run -ex bt --args $b --shard 0/1 --only $c --fails 5 --scratch $d --out $d/o.json --progress $d/p "$@" 2>&1 | grep "^#" | cut -c1-220 | head -12
rm -rf /dev/shm/vscratch_one_$$
