#!/bin/bash
# builds the engine into /verif/build
set -e
cd "$(dirname "$0")"; mkdir -p ../build
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
LC=/usr/lib/llvm-18/bin/llvm-config
/usr/bin/clang++-18 -std=c++20 -O3 -march=x86-64-v2 -Wno-everything -I$Z/include $($LC --cxxflags | sed 's/-std=c++17//;s/-fno-exceptions//') -fexceptions -frtti svx.cpp -o ../build/svx.tmp $($LC --ldflags) -L$Z/lib -lz3 -lLLVM-18 -Wl,-rpath,$Z/lib
mv ../build/svx.tmp ../build/svx
