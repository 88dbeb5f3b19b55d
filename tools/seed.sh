#!/bin/bash
# seed.sh ID PROPERTY "needs" "what it breaks": takes the diff of the scratch clone /tmp/wt and /tmp/demo.cpp
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/wt diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no diff"; exit 1; }
cp /tmp/demo.cpp $d/demo.cpp; cp /verif/tools/demo.hpp $d/
cat > $d/demo.sh <<'X'
#!/bin/bash
# compiles demo.cpp against the library built in the current directory and runs it in a scratch directory
d=$(cd "$(dirname "$0")" && pwd); r=$PWD
t=$(mktemp -d /tmp/hxdemo.XXXXXX) || exit 2
trap 'rm -rf -- "$t"' EXIT
SAN=""
[ -f "$d/flags" ] && SAN=$(cat "$d/flags")
g++-11 -std=c++17 -g -DDEBUG -DHXHIM_HAVE_LEVELDB=1 -DHXHIM_HAVE_ROCKSDB=1 -DSYSTEM_BIG_ENDIAN=0 -DOMPI_SKIP_MPICXX $SAN \
    -I"$r/include" -isystem /usr/lib/x86_64-linux-gnu/openmpi/include "$d/demo.cpp" "$r/_build/src/libhxhim.a" -o "$t/demo" \
    -lleveldb -lrocksdb -L/usr/lib/x86_64-linux-gnu/openmpi/lib -lmpi_cxx -lmpi -lpthread -ldl -lm || exit 2
cd "$t" || exit 2
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
if [ -f "$d/np" ]; then timeout 200 mpirun --oversubscribe -np "$(cat "$d/np")" ./demo; else timeout 200 ./demo; fi
X
chmod +x $d/demo.sh
python3 - "$@" <<'P'
import json,sys
i,p,n,w=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open('/verif/seeded/%s/meta.json'%i,'w'),indent=1)
P
git -C /tmp/wt checkout -q -- .
