// the concurrent harness of C02, judged only by data races (happens-before), lifetime errors and termination
//@ run producers cflags="-DH_K=1" bounds="run() on one thread, 2 producer threads starting 2 + 1 operations; the last producer calls finish(); all interleavings"
//@ run nested cflags="-DH_K=2" bounds="operation completions call finish() (twice overall) and start a further operation while the loop drains; all interleavings"
//@ run stop cflags="-DH_K=3" bounds="stop requests before the start and concurrently with the execution; all interleavings"
//@ run idle cflags="-DH_K=4" bounds="finish() from another thread on an idle loop and after single operations; all interleavings"
#define RACES_ONLY
#include "C02_threads.cpp"
