// the concurrent harness of C06, judged only by data races (happens-before), lifetime errors and termination
//@ run split2 cflags="-DH_K=1" bounds="split, two consumers started on two threads, child completed by a third, at most 3 preemptions" svx="--preempt 3"
//@ run splitstop cflags="-DH_K=2" bounds="split, one consumer with a stop request from another thread racing with the completion on a third; at most 3 preemptions" svx="--preempt 3"
//@ run splitdrop cflags="-DH_K=6" bounds="split: the last consumers are dropped on two threads after the operation was started, at most 3 preemptions" svx="--preempt 3"
//@ run es cflags="-DH_K=3" bounds="ensure_started: consumer start races with the completion on another thread, all interleavings"
//@ run esstop cflags="-DH_K=4" bounds="ensure_started: consumer start, completion and stop request on three threads, at most 3 preemptions" svx="--preempt 3"
//@ run esdrop cflags="-DH_K=5" bounds="ensure_started: the unconsumed sender is dropped while the child completes on another thread, all interleavings"
#define RACES_ONLY
#include "C06_threads.cpp"
