// the concurrent harness of C20, judged only by data races (happens-before), lifetime errors and termination
//@ run two cflags="-DH_K=1" bounds="1 worker, queue of 2 blocks of 1 task; 2 operations started from outside, each with a stop token that may be stopped before; at most 4 preemptions" svx="--preempt 4"
//@ run producers cflags="-DH_K=2" bounds="1 worker; 2 outside threads start one operation each; at most 3 preemptions" svx="--preempt 3"
//@ run stopper cflags="-DH_K=6" bounds="1 worker; the receiver's stop token is stopped from another thread while the operation is queued or runs; at most 4 preemptions" svx="--preempt 4"
//@ run stop2 cflags="-DH_K=3 -DHN=2" bounds="1 worker; two operations started, then the pool is stopped; at most 3 preemptions" svx="--preempt 3"
//@ assume operations are started before the pool is destroyed, and the pool is destroyed after start() returned
#define RACES_ONLY
#include "C20_pool.cpp"
