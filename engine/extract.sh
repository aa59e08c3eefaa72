#!/bin/bash
# extract.sh OUTDIR: compile /repo's current sources against the stand-in headers, link, dump as JSON
set -e
OUT=$1; SRC=${2:-/repo}; HERE=$(cd "$(dirname "$0")" && pwd); V=$(dirname "$HERE")
mkdir -p $OUT
if [ ! -x $V/build/irdump ] || [ $HERE/irdump.cpp -nt $V/build/irdump ]; then
  mkdir -p $V/build
  clang++-18 -O1 -fno-rtti $(llvm-config-18 --cxxflags | sed 's/-DNDEBUG//') $HERE/irdump.cpp -o $V/build/irdump.$$ $(llvm-config-18 --ldflags --libs core irreader analysis demangle support)
  mv $V/build/irdump.$$ $V/build/irdump
fi
pids=()
for f in $SRC/src/*.cpp; do
  b=$(basename $f .cpp)
  ( clang++-18 -std=gnu++17 -O0 -g -fstandalone-debug -fno-access-control -ffp-contract=off -Xclang -disable-O0-optnone -emit-llvm -c -w -I$V/vstub -I$SRC/include $f -o $OUT/$b.bc 2>$OUT/$b.err || rm -f $OUT/$b.bc ) &
  pids+=($!)
done
for p in "${pids[@]}"; do wait $p; done
llvm-link-18 $OUT/*.bc -o $OUT/all.bc.tmp
mv $OUT/all.bc.tmp $OUT/all.linked
$V/build/irdump $OUT/all.linked $OUT/all.json
