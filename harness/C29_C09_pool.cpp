// the concurrent harness of C09, judged only by data races (happens-before), lifetime errors and termination
//@ run par cflags="-DH_K=1" bounds="2 workers; bulk_chunked(par), shape -1, 0 or 3; at most 1 preemption" svx="--preempt 1"
#define RACES_ONLY
#include "C09_pool.cpp"
