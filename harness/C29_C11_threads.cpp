// the concurrent harness of C11, judged only by data races (happens-before), lifetime errors and termination
//@ run rel cflags="-DH_K=1" bounds="two associations released on two threads after writing plain data, join started on a third; the scope is destroyed when join completes; all interleavings"
//@ run relclose cflags="-DH_K=2" bounds="associate on one thread, close on another, release on a third, then join; all interleavings"
//@ run assocjoin cflags="-DH_K=3" bounds="one live association; two threads: one associates and releases another, one releases the first; join started on the main thread; all interleavings"
//@ run joins cflags="-DH_K=4" bounds="two joins started on two threads while the last association is released on a third; all interleavings"
//@ run loop cflags="-DH_K=5" bounds="join completes on a run_loop scheduler; release on another thread; all interleavings"
#define RACES_ONLY
#include "C11_threads.cpp"
