// the concurrent harness of C13, judged only by data races (happens-before), lifetime errors and termination
//@ run empty cflags="-DH_K=1" bounds="two nested operations complete on two threads while on_empty is started; the scope is destroyed when it completes; all interleavings"
//@ run future cflags="-DH_K=2" bounds="spawn_future consumed while the operation completes on another thread; scope destroyed when empty; all interleavings"
//@ run conns cflags="-DH_K=7" bounds="spawn_future consumer with a stop token: connected, dropped or started, while its stop source is triggered on a second thread and the operation completes on a third; at most 4 preemptions" svx="--preempt 4"
#define RACES_ONLY
#include "C13_threads.cpp"
