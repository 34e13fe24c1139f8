#!/bin/bash
# builds the symbolic executor into $1 (default /verif/build)
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=${1:-$HERE/../build}; mkdir -p "$OUT"; OUT=$(cd "$OUT" && pwd); cd "$HERE"
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
LC=/usr/lib/llvm-18/bin/llvm-config
FL="-std=c++20 -O2 -g0 -I$Z3/include -I$($LC --includedir) -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -w"
for f in expr solver symx; do g++ $FL -c $f.cpp -o $OUT/$f.o.$$ & done
wait
g++ -o $OUT/symx.tmp.$$ $OUT/expr.o.$$ $OUT/solver.o.$$ $OUT/symx.o.$$ -L$($LC --libdir) -lLLVM-18 $Z3/lib/libz3.so -Wl,-rpath,$Z3/lib -Wl,-rpath,$($LC --libdir) -lpthread
mv $OUT/symx.tmp.$$ $OUT/symx
rm -f $OUT/expr.o.$$ $OUT/solver.o.$$ $OUT/symx.o.$$
