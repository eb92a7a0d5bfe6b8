#!/bin/bash
# builds the symbolic executor into $1 (default /verif/.build/engine)
set -e
D=$(cd "$(dirname "$0")" && pwd); O=${1:-$D/../.build/engine}; mkdir -p "$O"
F="-std=c++17 -O2 -fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
g++ -std=c++17 -O2 -g1 -c $D/expr.cpp -o $O/expr.o & p1=$!
g++ -std=c++17 -O2 -g1 -c $D/interp.cpp -o $O/interp.o & p2=$!
g++ -std=c++17 -O2 -g1 -c $D/main.cpp -o $O/main.o & p3=$!
g++ $F -O1 -c $D/loader.cpp -o $O/loader.o & p4=$!
clang++-18 -std=c++17 -O1 -fno-vectorize -fno-slp-vectorize -emit-llvm -c $D/runtime.cpp -o $O/runtime.bc & p5=$!
for p in $p1 $p2 $p3 $p4 $p5; do wait $p; done
g++ $O/expr.o $O/interp.o $O/main.o $O/loader.o -o $O/symex -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lpthread
