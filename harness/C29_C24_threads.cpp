// the concurrent harness of C24, judged only by data races (happens-before), lifetime errors and termination
//@ run two cflags="-DH_K=2" bounds="start_now of two senders completed by two other threads while the main thread joins; the storage is destroyed inside the join's completion; all interleavings"
//@ run det cflags="-DH_K=1" bounds="start_detached with a custom allocator; completed by another thread while start_detached is returning; all interleavings"
#define RACES_ONLY
#include "C24_threads.cpp"
