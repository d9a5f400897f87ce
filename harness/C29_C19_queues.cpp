// the concurrent harness of C19, judged only by data races (happens-before), lifetime errors and termination
//@ run mpsc cflags="-DH_K=2" bounds="two producers (2 and 1 nodes, plain payload) and a consumer that polls three times while they push, then drains; all interleavings"
//@ run mpscstub cflags="-DH_K=3" bounds="the consumer empties the queue (re-inserting the stub node) while a producer pushes 2 nodes; all interleavings"
//@ run aiq cflags="-DH_K=5" bounds="stdexec's atomic queue: two producers (2 and 1 nodes), a consumer that sleeps in wait_for_item until it has all three; all interleavings"
//@ run eaiq cflags="-DH_K=6" bounds="exec's atomic queue: one thread pushes, one tries to push and prepends two nodes, a consumer pops all (either order) twice meanwhile; all interleavings"
//@ run bwt2 cflags="-DH_K=8 -DH_BS=2 -DH_T=1 -DH_PRE=3 -DH_L=6" bounds="BWoS queue 2 blocks x 2, 3 pushed first, then every history of 6 {push, pop} while one thief steals twice; all interleavings"
//@ run bwtt4 cflags="-DH_K=8 -DH_BS=1 -DH_NB=4 -DH_T=2 -DH_PRE=3 -DH_L=5" bounds="BWoS queue 4 blocks x 1, 5 owner operations, two thieves stealing once each; all interleavings"
#define RACES_ONLY
#include "C19_queues.cpp"
