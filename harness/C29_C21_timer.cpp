// the concurrent harness of C21, judged only by data races (happens-before), lifetime errors and termination
//@ run order cflags="-DH_K=2" bounds="three operations with symbolic deadlines from 3 values, started by one thread; at most 2 preemptions" svx="--preempt 2"
//@ run cancel cflags="-DH_K=3" bounds="a far operation started on one thread, stop requested on another (before, during or after start); a farther timer pending; at most 4 preemptions" svx="--preempt 4"
//@ run wake cflags="-DH_K=5" bounds="two threads submit due operations while a far timer is pending; at most 3 preemptions" svx="--preempt 3"
//@ assume the context is destroyed only when no other thread is inside start() or request_stop() of one of its operations
#define RACES_ONLY
#include "C21_timer.cpp"
