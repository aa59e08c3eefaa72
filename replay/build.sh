#!/bin/bash
# build.sh CID OUT [extra flags]: harness CID with the real sources of /repo
V=$(cd "$(dirname "$0")/.." && pwd); R=${REPO:-/repo}
CID=$1; OUT=$2; shift 2
SRC=$V/replay/$CID.cpp
U=$(sed -n 's,^// units:,,p' $SRC); F=$(sed -n 's,^// flags:,,p' $SRC)
mkdir -p "$OUT.d"
CC="g++ -std=c++17 -w -O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow -fno-sanitize=alignment,vptr -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -I$V/fakeros -I$R/include -isystem /usr/include/eigen3 $F $*"
pids=()
for u in $U; do $CC -c $R/src/$u.cpp -o "$OUT.d/$u.o" & pids+=($!); done
$CC -c $SRC -o "$OUT.d/main.o" & pids+=($!)
ok=0
for p in "${pids[@]}"; do wait $p || ok=1; done
[ $ok = 0 ] || { echo "build failed"; exit 1; }
L=""; case "$F" in *WITH_CERES*) L="-lceres -lglog";; esac
O="$OUT.d/main.o"; for u in $U; do O="$O $OUT.d/$u.o"; done
g++ -fsanitize=address,undefined $O -o $OUT $L -lpthread
