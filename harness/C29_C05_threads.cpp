// the concurrent harness of C05, judged only by data races (happens-before), lifetime errors and termination
//@ run cancel cflags="-DSTOPPABLE=1 -DSTOPREQ=0" bounds="2 children that obey the internal stop request, on 2 threads, all interleavings"
//@ run outer cflags="-DSTOPPABLE=0 -DSTOPREQ=1" bounds="2 children on 2 threads, outer stop request from a third thread, all interleavings"
#define RACES_ONLY
#include "C05_threads.cpp"
