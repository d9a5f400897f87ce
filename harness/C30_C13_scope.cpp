// C30: the runs of C13_scope.cpp
//@ run nest cflags="-DH_K=1" bounds="two nested operations and two when_empty waiters: 7 steps of {start, complete, start a waiter, request_stop, drop}; any channel; children that honour or ignore stop"
//@ run future cflags="-DH_K=2" bounds="spawn_future: 4 steps of {consume, complete, drop, connect and drop, stop the scope}, any channel and value, inline or deferred"
//@ run futthrow cflags="-DH_K=2 -DTHROW" bounds="the same with a value whose copy or move throws at any point"
//@ run spawn cflags="-DH_K=3" bounds="spawn inline or deferred, value or stopped, scope stopped before, during or not at all; on_empty and when_empty with a waiter that starts more work"
//@ run connthrow cflags="-DH_K=4" bounds="nest, spawn and spawn_future of a sender whose copy or move throws at any point; allocation failure at any point"
//@ assume spawned operations do not complete with an error (documented: terminates)
#define RACES_ONLY
#define SIGS
#include "C13_scope.cpp"
