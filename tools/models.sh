#!/bin/bash
set -e
V=$(cd "$(dirname "$0")/.." && pwd); mkdir -p $V/build
B="/usr/bin/clang++-18 -std=c++20 -fsized-deallocation -O1 -Xclang -disable-llvm-passes -emit-llvm -c -g1 -w -fno-builtin -D_GLIBCXX_EXTERN_TEMPLATE=0 -isystem $V/model/include -I$V/model/include"
for m in sync eh; do $B $V/model/$m.cpp -o $V/build/$m.bc.tmp.$$ & done; wait
R="/usr/bin/clang++-18 -std=c++20 -O1 -g1 -w -c $V/model/rt.cpp"
$R -o $V/build/rt.plain.o & $R -o $V/build/rt.asan.o & $R -o $V/build/rt.tsan.o & wait
for m in sync eh; do mv $V/build/$m.bc.tmp.$$ $V/build/$m.bc; done
touch $V/build/rt.*.o $V/build/*.bc
