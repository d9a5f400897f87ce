// the concurrent harness of C01, judged only by data races (happens-before), lifetime errors and termination
//@ run one cflags="-DH_K=1" bounds="1 callback registered and destroyed on one thread, request_stop on two others, all interleavings"
//@ run two cflags="-DH_K=2" bounds="2 callbacks registered on one thread, destroyed in either order; request_stop on another; all interleavings"
//@ run regs cflags="-DH_K=3" svx="--preempt 3" bounds="2 threads register and destroy one callback each, a third requests stop, at most 3 preemptions"
//@ run wait cflags="-DH_K=4" bounds="callback is waited for and destroyed by another thread, all interleavings"
#define RACES_ONLY
#include "C01_threads.cpp"
