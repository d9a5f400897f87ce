#!/bin/bash
# hc.sh harness.cpp out.bc [extra flags]: compile a harness to the bit-code the engine and the native replay use
set -e
V=$(cd "$(dirname "$0")/.." && pwd); src=$1; out=$2; shift 2
B="/usr/bin/clang++-18 -std=c++20 -fsized-deallocation -O1 -Xclang -disable-llvm-passes -emit-llvm -c -g1 -w -D_GLIBCXX_EXTERN_TEMPLATE=0 -isystem $V/model/include -I$V/model/include -I$V/harness -I${SV_REPO:-/repo}/include"
$B "$src" -o $out.h.bc "$@"
for x in $SV_EXTRA; do :; done
/usr/bin/llvm-link-18 $out.h.bc ${SV_LINK:-} $V/build/sync.bc ${SV_EH-$V/build/eh.bc} -o $out.l.bc
$V/build/svx --prep $out.p.bc $out.l.bc
/usr/bin/opt-18 -passes='internalize,globaldce,coro-early,cgscc(inline,coro-split,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg)),coro-cleanup,globaldce' -internalize-public-api-list=sv_main,bcmp,memcmp $out.p.bc -o $out
rm -f $out.p.bc $out.h.bc $out.l.bc
