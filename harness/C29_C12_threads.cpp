// the concurrent harness of C12, judged only by data races (happens-before), lifetime errors and termination
//@ run fut2 cflags="-DH_K=1" bounds="spawn_future: the future is connected and started while the operation completes on another thread; scope joined and destroyed afterwards; all interleavings"
//@ run futstop cflags="-DH_K=2" bounds="spawn_future: started, cancelled and completed on three threads; child ignoring the stop request; at most 4 preemptions" svx="--preempt 4"
//@ run futdrop cflags="-DH_K=3" bounds="spawn_future: dropped unconsumed (or connected and dropped) while the operation completes on another thread; child ignoring or honouring the stop request; all interleavings"
//@ run spawn cflags="-DH_K=5" bounds="spawn completing on another thread while the scope is joined; the scope is destroyed when join completes; all interleavings"
#define RACES_ONLY
#include "C12_threads.cpp"
