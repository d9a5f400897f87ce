// the concurrent harness of C25, judged only by data races (happens-before), lifetime errors and termination
//@ run sched cflags="-DH_K=1" bounds="schedule from the main thread on a pool of 1 worker, stop requested by a second thread or not; at most 3 preemptions" svx="--preempt 3"
//@ run bulk1 cflags="-DH_K=2" bounds="bulk_chunked and bulk_unchunked of 3 items on 1 worker, stop requested by a second thread at any time; at most 2 preemptions" svx="--preempt 2"
//@ assume operations are started before the backend is released, and the backend is released after they completed
#define RACES_ONLY
#include "C25_threads.cpp"
