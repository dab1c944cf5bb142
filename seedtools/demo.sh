#!/bin/bash
# Compiles the repository's sources together with demo.cpp and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d /tmp/demo.vscratch.XXXXXX)
trap 'rm -rf "$W"' EXIT
GROUPS_WANTED="core sparql"; LINK="-llz4 -lz -pthread"; OPT="-O0"
[ -f "$here/demo.conf" ] && . "$here/demo.conf"
FLAGS="-include cstdint -fPIC -fsigned-char -std=c++11 -w -DNDEBUG -DSERVER=1 -DSPARQL=1 -DANALYTICS=1 -DML=1 -pthread $OPT $XFLAGS"
INC="-I$here -I$here/shim -I$R/include -I$R/rdf3x/include -I$R/rapidjson/include -I$R/snap -I$R/snap/glib-core -I$R/snap/snap-core"
src=()
for g in $GROUPS_WANTED; do case $g in
 core) for d in binarytables files iterators kb model tests tree utils; do src+=("$R"/src/trident/$d/*.cpp); done;;
 sparql) src+=("$R"/src/trident/sparql/*.cpp "$R"/src/layers/*.cpp "$R"/rdf3x/src/cts/*.cpp "$R"/rdf3x/src/rts/*.cpp "$R"/rdf3x/src/infra/*.cpp);;
 server) src+=("$R"/src/trident/server/*.cpp);;
 ml) for f in "$R"/src/trident/ml/*.cpp; do [[ $f == *main_ml.cpp ]] || src+=("$f"); done;;
 analytics) src+=("$R"/src/snap/*.cpp);;
 snap) src+=("$R"/snap/snap-core/Snap.cpp);;
esac; done
src+=("$here/shim/kshim.cpp" "$here/demo.cpp")
printf '%s\n' "${src[@]}" | awk -v w="$W" '{print $0, w "/" NR ".o"}' | xargs -P "$(nproc)" -L1 sh -c 'exec g++ '"$FLAGS $INC"' -c "$0" -o "$1"' || { echo "demo does not compile"; exit 3; }
g++ $OPT "$W"/*.o -o "$W/demo" $LINK || { echo "demo does not link"; exit 3; }
mkdir "$W/data"
cd "$W/data" && DEMO_DIR="$W/data" timeout 120 "$W/demo" 2>"$W/err"
rc=$?
[ $rc -eq 0 ] || tail -c 500 "$W/err"
exit $rc
