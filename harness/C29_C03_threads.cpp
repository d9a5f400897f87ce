// the concurrent harness of C03, judged only by data races (happens-before), lifetime errors and termination
//@ run tracked cflags="-DH_K=1 -DH_SND=SndT" bounds="completion on another thread, any channel, a copy or move of the value may throw at any point, all interleavings"
//@ run variant cflags="-DH_K=4" bounds="sync_wait_with_variant, completion on another thread with either of two value types or error or stopped"
//@ run deleg cflags="-DH_K=5" bounds="work delegated to the waiting thread's scheduler by another thread before completion, all interleavings"
#define RACES_ONLY
#include "C03_threads.cpp"
