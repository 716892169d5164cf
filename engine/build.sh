#!/bin/bash
# build the verifier (odcv) into $1
set -e
D=$(cd "$(dirname "$0")" && pwd); O=${1:?outdir}; mkdir -p "$O"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
F="-std=c++17 -O2 -fno-strict-aliasing -w -I$Z/include -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS -D__STDC_FORMAT_MACROS"
g++ $F -c $D/expr.cc -o $O/expr.o & p=$!
g++ $F -c $D/exec.cc -o $O/exec.o
wait $p
g++ $O/expr.o $O/exec.o -o $O/odcv -L/usr/lib/llvm-18/lib -lLLVM-18 $Z/lib/libz3.so -Wl,-rpath,$Z/lib -Wl,-rpath,/usr/lib/llvm-18/lib
