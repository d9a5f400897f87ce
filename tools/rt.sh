#!/bin/bash
# rt.sh harness.cpp out asan|tsan|plain [extra flags]: native replay binary of a harness
set -e
V=$(cd "$(dirname "$0")/.." && pwd); src=$1; out=$2; kind=$3; shift 3
SV_EH= bash $V/tools/hc.sh $src $out.n.bc "$@"
$V/build/svx --instrument $out.i.bc $out.n.bc
case $kind in asan) F="-fsanitize=address -fsanitize-address-use-after-scope";; tsan) F="-fsanitize=thread";; *) F="";; esac
/usr/bin/clang++-18 -std=c++20 -O1 -g1 -w -c $V/model/rt.cpp -o $out.rt.o
/usr/bin/clang++-18 -O1 -g1 -w $F $out.i.bc $out.rt.o -o $out -lpthread
rm -f $out.n.bc $out.i.bc $out.rt.o
