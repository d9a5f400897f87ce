// the concurrent harness of C16, judged only by data races (happens-before), lifetime errors and termination
//@ run sw cflags="-DH_K=1" bounds="child completing on one thread, one of the tokens stopped on another; any channel; child ignores or obeys"
//@ run sw2 cflags="-DH_K=2" svx="--preempt 3" bounds="child completing on one thread, both tokens stopped on two others; at most 3 preemptions"
//@ run fin cflags="-DH_K=3" bounds="finally: both stages completed by another thread, stop requested by a third at any moment"
#define RACES_ONLY
#include "C16_threads.cpp"
