// the concurrent harness of C23, judged only by data races (happens-before), lifetime errors and termination
//@ run merge cflags="-DH_K=1" bounds="merge of two sequences of one item each, completed by two threads on any channel, any final completions; all interleavings"
//@ run each cflags="-DH_K=2" bounds="merge_each over two nested sequences of one item each, running at once, the items completed by two threads with values or errors; all interleavings"
//@ run eachstop cflags="-DH_K=3" bounds="the same with values, items that obey a stop request, and an outer stop request from a third thread; at most 2 preemptions" svx="--preempt 2"
//@ run eachcancel cflags="-DH_K=4" bounds="one nested item fails on one thread, cancelling the other item (which obeys) while another thread completes it; all interleavings"
//@ run ignore cflags="-DH_K=5" bounds="ignore_all_values over a sequence producing two items at once, completed by two threads on any channel; all interleavings"
//@ run ignorestop cflags="-DH_K=6" bounds="ignore_all_values over one item that obeys a stop request, outer stop request racing its completion; all interleavings"
//@ run outer cflags="-DH_K=7" bounds="merge_each where the outer sequence's second item is completed by one thread while the first nested item completes on another; all interleavings"
#define RACES_ONLY
#include "C23_threads.cpp"
