// the concurrent harness of C14, judged only by data races (happens-before), lifetime errors and termination
//@ run thr cflags="-DH_K=1" bounds="a task awaits two senders completed by another thread at any moment, on any channel; all interleavings" 
//@ run thrstop cflags="-DH_K=2" bounds="an awaited sender completes from another thread, or by a stop request from a third, foreign or same token" svx="--preempt 2"
//@ run exthr cflags="-DH_K=3" bounds="exec::task nested in exec::task, completed by another thread; cleanup action" 
#define RACES_ONLY
#include "C14_aw.cpp"
